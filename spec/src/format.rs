//! Byte layout of an encoded phrase record.
use integer_encoding::VarInt;
use std::marker::PhantomData;

#[derive(Clone, Copy)] pub struct FixedVecOffset<T> { addr: usize, phantom: PhantomData<T> }
#[derive(Clone, Copy)] pub struct VarVecOffset<T> { addr: usize, phantom: PhantomData<T> }
#[derive(Clone, Copy)] pub struct UniformVecOffset<T> { addr: usize, phantom: PhantomData<T> }
#[derive(Clone, Copy)] pub struct FixedScalarOffset<T> { addr: usize, phantom: PhantomData<T> }
#[derive(Clone, Copy)] pub struct VarScalarOffset<T> { addr: usize, phantom: PhantomData<T> }
#[derive(Clone, Copy)] pub struct UniformScalarOffset<T> { addr: usize, phantom: PhantomData<T> }
#[derive(Clone, Copy)] pub struct RelevScore { pub relev_score: u8, pub coords: UniformVecOffset<Coord> }
#[derive(Clone, Copy)] pub struct Coord { pub coord: u32, pub ids: FixedVecOffset<u32> }
#[derive(Clone, Copy)] pub struct PhraseRecord { pub relev_scores: VarVecOffset<RelevScore> }
fn fv<T>(addr: usize) -> FixedVecOffset<T> { FixedVecOffset { addr, phantom: PhantomData } }
fn vv<T>(addr: usize) -> VarVecOffset<T> { VarVecOffset { addr, phantom: PhantomData } }
fn uv<T>(addr: usize) -> UniformVecOffset<T> { UniformVecOffset { addr, phantom: PhantomData } }
fn fs<T>(addr: usize) -> FixedScalarOffset<T> { FixedScalarOffset { addr, phantom: PhantomData } }
fn vs<T>(addr: usize) -> VarScalarOffset<T> { VarScalarOffset { addr, phantom: PhantomData } }
fn us<T>(addr: usize) -> UniformScalarOffset<T> { UniformScalarOffset { addr, phantom: PhantomData } }

/// four bytes, least significant first
fn le(v: u32, buffer: &mut Vec<u8>) { buffer.extend_from_slice(&v.to_le_bytes()) }
fn un_le(d: &[u8], at: usize) -> u32 {
    let mut b = [0u8; 4];
    b.copy_from_slice(&d[at..at + 4]);
    u32::from_le_bytes(b)
}
/// 32-bit variable length integer
fn var(v: usize, buffer: &mut Vec<u8>) { buffer.extend_from_slice(&(v as u32).encode_var_vec()) }

// ---- element codecs
pub fn u32_write(v: &u32, buffer: &mut Vec<u8>) { le(*v, buffer) }
pub fn u32_read(buffer: &[u8], at: FixedScalarOffset<u32>) -> u32 { un_le(buffer, at.addr) }
pub fn record_write(r: &PhraseRecord, buffer: &mut Vec<u8>) { le(r.relev_scores.addr as u32, buffer) }
pub fn record_read(buffer: &[u8], at: FixedScalarOffset<PhraseRecord>) -> PhraseRecord {
    PhraseRecord { relev_scores: vv(un_le(buffer, at.addr) as usize) }
}
pub fn record_size() -> usize { 4 }
pub fn rs_write(r: &RelevScore, buffer: &mut Vec<u8>) -> usize {
    let before = buffer.len();
    buffer.push(r.relev_score);
    var(r.coords.addr, buffer);
    buffer.len() - before
}
pub fn rs_read(buffer: &[u8], at: VarScalarOffset<RelevScore>) -> (RelevScore, usize) {
    let (addr, n) = u32::decode_var(&buffer[at.addr + 1..]);
    (RelevScore { relev_score: buffer[at.addr], coords: uv(addr as usize) }, n + 1)
}
/// four bytes of position, then as few bytes as hold the list address
pub fn coord_size(c: &Coord) -> usize {
    let a = c.ids.addr;
    if a < 1 << 8 { 5 } else if a < 1 << 16 { 6 } else if a < 1 << 24 { 7 } else { 8 }
}
pub fn coord_write(c: &Coord, size: usize, buffer: &mut Vec<u8>) {
    le(c.coord, buffer);
    let mut a = Vec::new();
    le(c.ids.addr as u32, &mut a);
    buffer.extend_from_slice(&a[..size - 4]);
}
pub fn coord_read(buffer: &[u8], size: usize, at: UniformScalarOffset<Coord>) -> Coord {
    let mut b = [0u8; 4];
    b[..size - 4].copy_from_slice(&buffer[at.addr + 4..at.addr + size]);
    Coord { coord: un_le(buffer, at.addr), ids: fv(u32::from_le_bytes(b) as usize) }
}

// ---- vectors: element count, then the elements back to back
pub fn fixed_vec(items: &[u32], data: &mut Vec<u8>) -> FixedVecOffset<u32> {
    let at = data.len();
    var(items.len(), data);
    for i in items { le(*i, data) }
    fv(at)
}
pub fn var_vec(items: &[RelevScore], data: &mut Vec<u8>) -> VarVecOffset<RelevScore> {
    let at = data.len();
    var(items.len(), data);
    for i in items { rs_write(i, data); }
    vv(at)
}
/// one width for all, wide enough for the widest; 255 stands for the width of an empty vector
pub fn uniform_vec(items: &[Coord], data: &mut Vec<u8>) -> UniformVecOffset<Coord> {
    let at = data.len();
    var(items.len(), data);
    let width = items.iter().map(coord_size).max().unwrap_or(255);
    data.push(width as u8);
    for i in items { coord_write(i, width, data) }
    uv(at)
}
pub fn fixed_scalar(v: PhraseRecord, data: &mut Vec<u8>) -> FixedScalarOffset<PhraseRecord> {
    let at = data.len();
    record_write(&v, data);
    fs(at)
}
pub fn var_scalar(v: RelevScore, data: &mut Vec<u8>) -> VarScalarOffset<RelevScore> {
    let at = data.len();
    rs_write(&v, data);
    vs(at)
}
pub fn uniform_scalar(v: Coord, size: usize, data: &mut Vec<u8>) -> UniformScalarOffset<Coord> {
    let at = data.len();
    coord_write(&v, size, data);
    us(at)
}

// ---- views
fn header(d: &[u8], at: usize) -> (usize, usize) {
    let (n, w) = u32::decode_var(&d[at..]);
    (n as usize, at + w)
}
pub fn fixed_len(d: &[u8], at: FixedVecOffset<u32>) -> usize { header(d, at.addr).0 }
pub fn fixed_get(d: &[u8], at: FixedVecOffset<u32>, i: usize) -> u32 { un_le(d, header(d, at.addr).1 + 4 * i) }
pub fn fixed_all(d: &[u8], at: FixedVecOffset<u32>) -> impl Iterator<Item = u32> + '_ {
    let (n, start) = header(d, at.addr);
    (0..n).map(move |i| un_le(d, start + 4 * i))
}
pub fn uniform_len(d: &[u8], at: UniformVecOffset<Coord>) -> usize { header(d, at.addr).0 }
fn uget(d: &[u8], start: usize, i: usize) -> Coord {
    let w = d[start] as usize;
    coord_read(d, w, us(start + 1 + w * i))
}
pub fn uniform_get(d: &[u8], at: UniformVecOffset<Coord>, i: usize) -> Coord { uget(d, header(d, at.addr).1, i) }
pub fn uniform_all(d: &[u8], at: UniformVecOffset<Coord>) -> impl Iterator<Item = Coord> + '_ {
    let (n, start) = header(d, at.addr);
    (0..n).map(move |i| uget(d, start, i))
}
pub fn var_len(d: &[u8], at: VarVecOffset<RelevScore>) -> usize { header(d, at.addr).0 }
pub fn var_all(d: &[u8], at: VarVecOffset<RelevScore>) -> Vec<RelevScore> {
    let (n, mut p) = header(d, at.addr);
    let mut out = Vec::new();
    for _ in 0..n {
        let (r, used) = rs_read(d, vs(p));
        out.push(r);
        p += used;
    }
    out
}
/// the record itself is the last thing written
pub fn root(d: &[u8]) -> PhraseRecord { record_read(d, fs(d.len() - record_size())) }

// ---- stored pointers
pub fn fixed_ptr_f(d: &[u8], at: usize) -> FixedVecOffset<u32> { fv(un_le(d, at) as usize) }
pub fn fixed_ptr_v(d: &[u8], at: usize) -> VarVecOffset<RelevScore> { vv(un_le(d, at) as usize) }
pub fn fixed_ptr_u(d: &[u8], at: usize) -> UniformVecOffset<Coord> { uv(un_le(d, at) as usize) }
fn vp(d: &[u8], at: usize) -> (usize, usize) {
    let (a, n) = u32::decode_var(&d[at..]);
    (a as usize, n)
}
pub fn var_ptr_f(d: &[u8], at: usize) -> (FixedVecOffset<u32>, usize) { let (a, n) = vp(d, at); (fv(a), n) }
pub fn var_ptr_v(d: &[u8], at: usize) -> (VarVecOffset<RelevScore>, usize) { let (a, n) = vp(d, at); (vv(a), n) }
pub fn var_ptr_u(d: &[u8], at: usize) -> (UniformVecOffset<Coord>, usize) { let (a, n) = vp(d, at); (uv(a), n) }

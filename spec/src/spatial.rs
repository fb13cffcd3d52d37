//! Spatial filters over a descending list of positions, distances and scores.
use crate::format::{uniform_get, uniform_len, Coord, UniformVecOffset};
use itertools::Itertools;
use morton::{deinterleave_morton, interleave_morton};

/// halving search in the descending list: first index at or below `val`; the last index when nothing before it is
fn search(d: &[u8], at: UniformVecOffset<Coord>, val: u32, from: u32) -> u32 {
    let n = uniform_len(d, at) as u32;
    if from >= n { unreachable!() }
    let mut base = from;
    let mut size = n - from;
    while size > 1 {
        let half = size / 2;
        if uniform_get(d, at, (base + half) as usize).coord >= val { base += half; }
        size -= half;
    }
    if base + 1 == n { return base; }
    if uniform_get(d, at, base as usize).coord > val { base + 1 } else { base }
}
pub fn bbox_range(d: &[u8], at: UniformVecOffset<Coord>, bbox: [u16; 4]) -> Option<(u32, u32)> {
    let n = uniform_len(d, at);
    if n == 0 { return None; }
    let low = interleave_morton(bbox[0], bbox[1]);
    let high = interleave_morton(bbox[2], bbox[3]);
    if low > uniform_get(d, at, 0).coord { return None; }
    if high < uniform_get(d, at, n - 1).coord { return None; }
    let first = search(d, at, high, 0);
    let last = search(d, at, low, first);
    // always: a search ends inside the list
    assert!(last < n as u32);
    Some((first, if last == n as u32 { last - 1 } else { last }))
}
fn inside(c: &Coord, bbox: [u16; 4]) -> bool {
    let (x, y) = deinterleave_morton(c.coord);
    bbox[0] <= x && x <= bbox[2] && bbox[1] <= y && y <= bbox[3]
}
pub fn bbox_filter<'a>(d: &'a [u8], at: UniformVecOffset<Coord>, bbox: [u16; 4]) -> Option<impl Iterator<Item = Coord> + 'a> {
    if uniform_len(d, at) == 0 { return None; }
    let (first, last) = bbox_range(d, at, bbox)?;
    Some((first..=last).map(move |i| uniform_get(d, at, i as usize)).filter(move |c| inside(c, bbox)))
}
/// closer along the curve first; on a tie the tail side
fn nearer(a: &Coord, b: &Coord, point: i64) -> bool {
    let x: i64 = a.coord as i64 - point;
    let y: i64 = b.coord as i64 - point;
    x.abs() < y.abs()
}
pub fn proximity<'a>(d: &'a [u8], at: UniformVecOffset<Coord>, p: [u16; 2]) -> Option<impl Iterator<Item = Coord> + 'a> {
    let n = uniform_len(d, at) as u32;
    if n == 0 { return None; }
    let point = interleave_morton(p[0], p[1]) as i64;
    let mid = search(d, at, point as u32, 0);
    let head = (0..mid).rev().map(move |i| uniform_get(d, at, i as usize));
    let tail = (mid..n).map(move |i| uniform_get(d, at, i as usize));
    Some(head.merge_by(tail, move |a, b| nearer(a, b, point)))
}
pub fn bbox_proximity<'a>(d: &'a [u8], at: UniformVecOffset<Coord>, bbox: [u16; 4], p: [u16; 2]) -> Option<impl Iterator<Item = Coord> + 'a> {
    let (first, last) = bbox_range(d, at, bbox)?;
    let point = interleave_morton(p[0], p[1]) as i64;
    let mid = search(d, at, point as u32, 0);
    let head = (first..mid).rev().map(move |i| uniform_get(d, at, i as usize)).filter(move |c| inside(c, bbox));
    let tail = (mid..=last).map(move |i| uniform_get(d, at, i as usize)).filter(move |c| inside(c, bbox));
    Some(head.merge_by(tail, move |a, b| nearer(a, b, point)))
}

pub fn tile_dist(px: u16, py: u16, x: u16, y: u16) -> f64 {
    let dx = x as f64 - px as f64;
    let dy = y as f64 - py as f64;
    (dx * dx + dy * dy).sqrt()
}
const TILES_PER_MILE: [f64; 17] = [
    0.002740389912625401, 0.004110584868938102, 0.006165877303407152, 0.009248815955110727, 0.013873223932666092, 0.020809835898999138,
    0.031214753848498707, 0.046822130772748057, 0.07023319615912209, 0.10534979423868314, 0.1580246913580247, 0.23703703703703705,
    0.35555555555555557, 0.5333333333333333, 0.8, 1.2000000000000002, 1.8000000000000003,
];
/// (32 / 40) / 1.5^(14 - zoom) tiles per mile
fn tiles_per_mile(zoom: u16) -> f64 {
    if zoom > 16 { 0.8 * 1.5_f64.powi((zoom - 14) as i32) } else { TILES_PER_MILE[zoom as usize] }
}
pub fn proximity_radius(zoom: u16, radius: f64) -> f64 { radius * tiles_per_mile(zoom) }
const E: [f64; 8] = [1., 2.718281828459045, 7.38905609893065, 20.085536923187668, 54.598150033144236, 148.4131591025766, 403.4287934927351, 1096.6331584284585];
pub fn scoredist(zoom: u16, distance: f64, score: u8, radius: f64) -> f64 {
    let zoom = if zoom < 6 { 6 } else { zoom };
    let score = if score > 7 { 7 } else { score };
    let distance = if distance < 1. { 0.8 } else { distance };
    let ratio = distance / proximity_radius(zoom, radius);
    let ratio = if ratio > 1.0 { 1.0 } else { ratio };
    ((6. * E[score as usize] / E[7]) + 1.) / ratio
}
pub fn adjust_bbox_zoom(b: [u16; 4], from: u16, to: u16) -> [u16; 4] {
    if to >= from {
        let n: u16 = 1 << (to - from);
        [b[0] * n, b[1] * n, b[2] * n + (n - 1), b[3] * n + (n - 1)]
    } else {
        let k = from - to;
        [b[0] >> k, b[1] >> k, b[2] >> k, b[3] >> k]
    }
}
pub fn world_box(zoom: u16) -> Vec<[u16; 4]> {
    let max = ((1u32 << zoom) - 1) as u16;
    let mut v = Vec::new();
    v.push([0, 0, max, max]);
    v
}

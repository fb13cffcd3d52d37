F = "rust-src/src/gridstore/gridstore_format.rs"
seed("fmt-width-boundary", "C01", [(F, "256..=65535 => 4 + 2,\n            65536..=16777215 => 4 + 3,", "256..=65536 => 4 + 2,\n            65537..=16777215 => 4 + 3,")], "fmt", """
fn main() {
    let mut w = Writer::new();
    let pad: Vec<u32> = vec![7; 16383];
    w.write_fixed_vec(&pad);
    w.write_fixed_vec::<u32>(&[]);
    w.write_fixed_vec::<u32>(&[]);
    let ids = w.write_fixed_vec(&[41u32, 42]);
    let coords = w.write_uniform_vec(&[Coord { coord: 9, ids }]);
    let rs = w.write_var_vec(&[RelevScore { relev_score: 1, coords }]);
    w.write_fixed_scalar(PhraseRecord { relev_scores: rs });
    let d = w.finish();
    let r = Reader::new(&d[..]);
    let rec = read_phrase_record_from(&r);
    let rs = read_var_vec_raw(&d, rec.relev_scores).into_iter().next().unwrap();
    let c = read_uniform_vec_raw(&d, rs.coords).get(0);
    let got: Vec<u32> = read_fixed_vec_raw(&d, c.ids).into_iter().take(3).collect();
    println!("{:?}", got);
    assert_eq!(got, vec![41, 42]);
}
""", "an identifier list stored at exactly byte 65536 of a record", "the list address no longer fits the width chosen for it, so the position's identifiers are read from byte 0")

seed("fmt-width-last", "C02", [(F, "let rec_size: usize = s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);", "// list addresses grow as they are written, so the last element is the widest\n        let rec_size: usize = s.last().map(|obj| obj.get_min_size()).unwrap_or(255);")], "fmt", """
fn main() {
    let mut w = Writer::new();
    let shared = w.write_fixed_vec(&[5u32]);
    w.write_fixed_vec(&vec![0u32; 100]);
    let late = w.write_fixed_vec(&[6u32]);
    let coords = w.write_uniform_vec(&[Coord { coord: 30, ids: late }, Coord { coord: 20, ids: shared }]);
    let d = w.finish();
    let got: Vec<(u32, Vec<u32>)> = read_uniform_vec_raw(&d, coords).into_iter().map(|c| (c.coord, read_fixed_vec_raw(&d, c.ids).into_iter().take(4).collect())).collect();
    println!("{:?}", got);
    assert_eq!(got, vec![(30, vec![6]), (20, vec![5])]);
}
""", "a position list whose last position shares an identifier list written much earlier", "list addresses are cut to the width of the last one")

seed("fmt-long-step", "C02", [(F, "(RelevScore { relev_score, coords }, 1 + addr_len)", "(RelevScore { relev_score, coords }, std::cmp::min(1 + addr_len, 4))")], "fmt", """
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![1u32; 600_000]);
    let ids = w.write_fixed_vec(&[8u32]);
    let a = w.write_uniform_vec(&[Coord { coord: 3, ids }]);
    let b = w.write_uniform_vec(&[Coord { coord: 4, ids }]);
    let rs = w.write_var_vec(&[RelevScore { relev_score: 0x31, coords: a }, RelevScore { relev_score: 0x22, coords: b }]);
    let d = w.finish();
    let got: Vec<u8> = read_var_vec_raw(&d, rs).into_iter().map(|r| r.relev_score).collect();
    println!("{:?}", got);
    assert_eq!(got, vec![0x31, 0x22]);
}
""", "a record past 2 MiB, where position list addresses take four bytes", "the second and later relevance groups are read from the wrong byte")

seed("fmt-count-16bit", "C02", [(F, """        let len_len = (s.len() as u32).encode_var(&mut len_buf);
        self.data.extend_from_slice(&len_buf[..len_len]);
        for item in s {
            item.write_fixed_to(&mut self.data);""", """        let len_len = (s.len() as u16).encode_var(&mut len_buf);
        self.data.extend_from_slice(&len_buf[..len_len]);
        for item in s {
            item.write_fixed_to(&mut self.data);""")], "fmt", """
fn main() {
    let mut w = Writer::new();
    let at = w.write_fixed_vec(&vec![3u32; 65_537]);
    let d = w.finish();
    assert_eq!(read_fixed_vec_raw(&d, at).len(), 65_537);
}
""", "more than 65535 features at one position", "the count wraps and the list comes back short")

seed("fmt-root-offset", "C03", [(F, "buffer.extend_from_slice(&(self.relev_scores.addr as u32).to_le_bytes());", "let addr = (self.relev_scores.addr as u32).to_le_bytes();\n        buffer.extend_from_slice(&[addr[0], addr[1], addr[2], 0]);")], "fmt", """
fn main() {
    let mut w = Writer::new();
    let ids = w.write_fixed_vec(&vec![2u32; 4_200_000]);
    let coords = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let rs = w.write_var_vec(&[RelevScore { relev_score: 0x3f, coords }]);
    w.write_fixed_scalar(PhraseRecord { relev_scores: rs });
    let d = w.finish();
    let r = Reader::new(&d[..]);
    let rec = read_phrase_record_from(&r);
    let v = read_var_vec_raw(&d, rec.relev_scores);
    let got: Vec<u8> = v.into_iter().take(2).map(|r| r.relev_score).collect();
    println!("{:?}", got);
    assert_eq!(got, vec![0x3f]);
}
""", "a record longer than 16 MiB", "the head of the record points at the wrong place")

seed("fmt-two-byte-header", "C02", [(F, """        let start = (offset.addr + len_len) as usize;
        FixedVec {""", """        let start = offset.addr + if len < 128 { 1 } else { 2 };
        FixedVec {""")], "fmt", """
fn main() {
    let mut w = Writer::new();
    let at = w.write_fixed_vec(&(0..16384u32).collect::<Vec<_>>());
    let d = w.finish();
    let got: Vec<u32> = read_fixed_vec_raw(&d, at).iter().collect();
    assert_eq!(got, (0..16384u32).collect::<Vec<_>>());
}
""", "a list of at least 16384 elements, whose count takes three bytes", "every element is read one byte early")

seed("fmt-short-pointer", "C01", [(F, """        let ptr_size = size - 4;
        let mut ptr_buf = [0u8; 4];""", """        let ptr_size = std::cmp::min(size - 4, 3);
        let mut ptr_buf = [0u8; 4];""")], "fmt", """
fn main() {
    let mut w = Writer::new();
    w.write_fixed_vec(&vec![2u32; 4_200_000]);
    let ids = w.write_fixed_vec(&[77u32]);
    let coords = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let d = w.finish();
    let c = read_uniform_vec_raw(&d, coords).get(0);
    let got: Vec<u32> = read_fixed_vec_raw(&d, c.ids).into_iter().take(2).collect();
    println!("{:?}", got);
    assert_eq!(got, vec![77]);
}
""", "an identifier list beyond the first 16 MiB of a record", "the top byte of the list address is dropped on reading")

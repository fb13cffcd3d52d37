F = "rust-src/src/gridstore/gridstore_format.rs"; B = "rust-src/src/gridstore/builder.rs"; P = "rust-src/src/gridstore/spatial.rs"; ST = "rust-src/src/gridstore/store.rs"; T = "rust-src/src/gridstore/stackable.rs"

seed("fmt-varint-room", "C01", [(F, "        let mut addr_buf = [0u8; 8];", "        let mut addr_buf = [0u8; 3];")], "fmt", """
fn main() {
    let mut w = Writer::new();
    let ids = w.write_fixed_vec(&vec![2u32; 600_000]);
    let coords = w.write_uniform_vec(&[Coord { coord: 1, ids }]);
    let rs = w.write_var_vec(&[RelevScore { relev_score: 0x3f, coords }]);
    w.write_fixed_scalar(PhraseRecord { relev_scores: rs });
    let d = w.finish();
    let r = Reader::new(&d[..]);
    let rec = read_phrase_record_from(&r);
    let got: Vec<u8> = read_var_vec_raw(&d, rec.relev_scores).into_iter().map(|r| r.relev_score).collect();
    assert_eq!(got, vec![0x3f]);
}
""", "a record longer than 2 MiB, so that a list address takes four variable-length bytes", "writing the record panics")


K = "rust-src/src/gridstore/common.rs"
seed("finish-new-directory", "C15", [(B, "        opts.create_if_missing(true);\n", "")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let mut b = GridStoreBuilder::new(d.path().join("fresh")).unwrap();
    b.insert(&key(1, 1), vec![ge(1, 1, 1, 1., 1)]).unwrap();
    check(b.finish().is_ok(), "a store is made where there was none");
}
""", "a path at which there is no store yet", "finishing fails instead of creating the store")

seed("relev-code-window", "C04", [(K, "    } else if relev == 0.8 {", "    } else if relev >= 0.8 && relev < 1. {")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 1, 1, 0.9, 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<f64> = s.get(&key(1, 1)).unwrap().unwrap().map(|e| e.relev).collect();
    check(got == vec![1.], "a relevance other than 0.4, 0.6 and 0.8 is stored as 1");
}
""", "a relevance between 0.8 and 1", "it is rounded down instead of up")

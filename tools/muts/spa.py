S="rust-src/src/gridstore/spatial.rs"
FILTER=["C09","C10"]
MUTS=[
("ok_nodead","ok",S,"    if end == (len as u32) {\n        end -= 1;\n    }\n",""),
("ok_noerr","ok",S,"    if offset >= len {\n        return Err(\"Offset greater than Vector\");\n    }\n\n",""),
("ok_searchu32","ok",S,"""    let start = match coord_binary_search(&coords, max, 0) {
        Ok(v) => v,
        Err(_) => return None,
    };
    let mut end = match coord_binary_search(&coords, min, start) {
        Ok(v) => v,
        Err(_) => return None,
    };""","""    let start = coord_binary_search(&coords, max, 0).ok()?;
    let mut end = coord_binary_search(&coords, min, start).ok()?;"""),
("ok_unwrap","ok",S,"""    let start = match coord_binary_search(&coords, max, 0) {
        Ok(v) => v,
        Err(_) => return None,
    };
    let mut end""","""    let start = coord_binary_search(&coords, max, 0).unwrap();
    let mut end"""),
("ok_inside","ok",S,"""        let (x, y) = deinterleave_morton(grid.coord);
        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        }
        None
    }))""","""        if in_box(grid.coord, &bbox) { Some(grid) } else { None }
    }))""",(S,"/// Generate an Iterator over a Coord","fn in_box(c: u32, b: &[u16; 4]) -> bool {\n    let (x, y) = deinterleave_morton(c);\n    (b[0]..=b[2]).contains(&x) && (b[1]..=b[3]).contains(&y)\n}\n/// Generate an Iterator over a Coord")),
("ok_mapfilter","ok",S,"""    Some((range.0..=range.1).filter_map(move |idx| {
        let grid = coords.get(idx as usize);
        let (x, y) = deinterleave_morton(grid.coord);
        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        }
        None
    }))""","""    let (first, last) = range;
    Some((first..last + 1).map(move |idx| coords.get(idx as usize)).filter(move |grid| {
        let (x, y) = deinterleave_morton(grid.coord);
        !(x < bbox[0] || x > bbox[2] || y < bbox[1] || y > bbox[3])
    }))"""),
("ok_bs2","ok",S,"""    let mut base = offset;
    while size > 1 {
        let half = size / 2;
        let mid = base + half;
        let coord = coords.get(mid as usize).coord;
        base = if coord < val { base } else { mid };
        size -= half;
    }""","""    let mut base = offset;
    while size > 1 {
        let half = size >> 1;
        if coords.get((base + half) as usize).coord >= val {
            base += half;
        }
        size = size - half;
    }"""),
("ok_bsloop","ok",S,"""    while size > 1 {
        let half = size / 2;
        let mid = base + half;
        let coord = coords.get(mid as usize).coord;
        base = if coord < val { base } else { mid };
        size -= half;
    }""","""    loop {
        if size <= 1 { break; }
        let half = size / 2;
        let mid = base + half;
        let coord = coords.get(mid as usize).coord;
        base = if coord < val { base } else { mid };
        size -= half;
    }"""),
("ok_nearer","ok",S,"""        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;
        morton_distance_1.abs() < morton_distance_2.abs()""","""        (i64::from(a.coord) - prox_pt).abs() < (i64::from(b.coord) - prox_pt).abs()"""),
("ok_nearer_i","ok",S,"""        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;
        morton_distance_1.abs() < morton_distance_2.abs()""","""        (prox_pt - i64::from(a.coord)).abs() < (prox_pt - i64::from(b.coord)).abs()"""),
("ok_nearer_gt","ok",S,"""        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;
        morton_distance_1.abs() < morton_distance_2.abs()""","""        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;
        morton_distance_2.abs() > morton_distance_1.abs()"""),
("ok_helper","ok",S,"""        let grid = coords.get(idx as usize);
        let (x, y) = deinterleave_morton(grid.coord);
        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        } else {
            return None;
        };""","""        Some(coords.get(idx as usize)).filter(|grid| {
            let (x, y) = deinterleave_morton(grid.coord);
            x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3]
        })"""),
("ok_proxtwice","ok",S,"""    let range = bbox_range(coords, bbox)?;
    let prox_pt = interleave_morton(proximity[0], proximity[1]) as i64;
    if coords.len() == 0 {
        return None;
    }""","""    if coords.len() == 0 {
        return None;
    }
    let range = bbox_range(coords, bbox)?;
    let prox_pt = interleave_morton(proximity[0], proximity[1]) as i64;"""),
("bbxy","bug",S,"if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {\n            return Some(coords.get(idx as usize));\n        }\n        None","if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y < bbox[3] {\n            return Some(coords.get(idx as usize));\n        }\n        None"),
("bbswap","bug",S,"if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {\n            return Some(coords.get(idx as usize));\n        }\n        None","if x >= bbox[0] && y <= bbox[2] && y >= bbox[1] && x <= bbox[3] {\n            return Some(coords.get(idx as usize));\n        }\n        None"),
("bbend","bug",S,"(range.0..=range.1).filter_map","(range.0..range.1).filter_map"),
("bbstart","bug",S,"let max = interleave_morton(bbox[2], bbox[3]);","let max = interleave_morton(bbox[3], bbox[2]);"),
("bsge","bug",S,"base = if coord < val { base } else { mid };","base = if coord <= val { base } else { mid };"),
("bsend","bug",S,"Ok(base + (base_coord > val) as u32)","Ok(base + 1)"),
("bsend2","bug",S,"    if base == len - 1 {\n        return Ok(base);\n    }\n",""),
("minfrom","bug",S,"coord_binary_search(&coords, min, start)","coord_binary_search(&coords, min, 0)"),
("maxfrom","bug",S,"    let start = match coord_binary_search(&coords, max, 0) {","    let start = match coord_binary_search(&coords, min, 0) {"),
("proxhead","bug",S,"let head = (0..prox_mid).rev().map(getter);","let head = (1..prox_mid).rev().map(getter);"),
("proxrev","bug",S,"let head = (0..prox_mid).rev().map(getter);","let head = (0..prox_mid).map(getter);"),
("proxtail","bug",S,"let tail = (prox_mid..len).map(getter);","let tail = ((prox_mid + 1)..len).map(getter);"),
("proxpt","bug",S,"""pub fn proximity<'a>(
    coords: UniformVec<'a, Coord>,
    proximity: [u16; 2],
) -> Option<impl Iterator<Item = Coord> + 'a> {
    let prox_pt = interleave_morton(proximity[0], proximity[1]) as i64;""","""pub fn proximity<'a>(
    coords: UniformVec<'a, Coord>,
    proximity: [u16; 2],
) -> Option<impl Iterator<Item = Coord> + 'a> {
    let prox_pt = interleave_morton(proximity[1], proximity[0]) as i64;"""),
("proxabs","bug",S,"        morton_distance_1.abs() < morton_distance_2.abs()\n    });\n\n    Some(coord_sets)\n}\n\n/// Generate","        morton_distance_1 < morton_distance_2\n    });\n\n    Some(coord_sets)\n}\n\n/// Generate"),
("proxtie","bug",S,"        morton_distance_1.abs() < morton_distance_2.abs()\n    });\n\n    Some(coord_sets)\n}\n\n/// Generate","        morton_distance_1.abs() <= morton_distance_2.abs()\n    });\n\n    Some(coord_sets)\n}\n\n/// Generate"),
("proxgt","bug",S,"        morton_distance_1.abs() < morton_distance_2.abs()\n    });\n\n    Some(coord_sets)\n}\n\n/// Generate","        morton_distance_1.abs() > morton_distance_2.abs()\n    });\n\n    Some(coord_sets)\n}\n\n/// Generate"),
("bphead","bug",S,"let head = (range.0..prox_mid).rev().filter_map(filtered_get);","let head = (0..prox_mid).rev().filter_map(filtered_get);") ,
("bptail","bug",S,"let tail = (prox_mid..=range.1).filter_map(filtered_get);","let tail = (prox_mid..range.1).filter_map(filtered_get);"),
("bbnone","bug",S,"    if min > range_start {","    if min >= range_start {"),
]

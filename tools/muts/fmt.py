F="rust-src/src/gridstore/gridstore_format.rs"
FILTER=["format::"]
WF="""        let loc = self.data.len();
        let mut len_buf = [0u8; 8];
        let len_len = (s.len() as u32).encode_var(&mut len_buf);
        self.data.extend_from_slice(&len_buf[..len_len]);
        for item in s {
            item.write_fixed_to(&mut self.data);
        }"""
IT="""        let mut loc: usize = self.start;
        let mut i: usize = 0;
        std::iter::from_fn(move || {
            if i < self.len {
                let (val, incr) = T::read_from(self.data, VarScalarOffset::new(loc));
                i += 1;
                loc += incr;
                Some(val)
            } else {
                None
            }
        })"""
RD="""        let ptr_size = size - 4;
        let mut ptr_buf = [0u8; 4];
        ptr_buf[..ptr_size]
            .clone_from_slice(&buffer[(offset.addr + 4)..(offset.addr + 4 + ptr_size)]);
        let ptr = u32::from_le_bytes(ptr_buf);"""
GM="""        match self.ids.addr {
            0..=255 => 4 + 1,
            256..=65535 => 4 + 2,
            65536..=16777215 => 4 + 3,
            _ => 4 + 4,
        }"""
RSW="""        buffer.push(self.relev_score);
        let mut addr_buf = [0u8; 8];
        let addr_len = (self.coords.addr as u32).encode_var(&mut addr_buf);
        buffer.extend_from_slice(&addr_buf[..addr_len]);
        1 + addr_len"""
MUTS=[
("size255","bug",F,"65536..=16777215 => 4 + 3","65536..=16777216 => 4 + 3"),
("size256","bug",F,"0..=255 => 4 + 1,\n            256","0..=256 => 4 + 1,\n            257"),
("lenu16","bug",F,"let len_len = (s.len() as u32).encode_var(&mut len_buf);","let len_len = (s.len() as u16).encode_var(&mut len_buf);"),
("min","bug",F,"obj.get_min_size()).max()","obj.get_min_size()).min()"),
("first","bug",F,"s.iter().map(|obj| obj.get_min_size()).max()","s.last().map(|obj| obj.get_min_size())"),
("empty254","bug",F,"unwrap_or(255)","unwrap_or(5)"),
("startoff","bug",F,"let start = (offset.addr + len_len + 1) as usize;","let start = (offset.addr + len_len) as usize;"),
("start2","bug",F,"let start = (offset.addr + len_len + 1) as usize;","let start = (offset.addr + 2) as usize;"),
("start3","bug",F,"let start = (offset.addr + len_len) as usize;\n        FixedVec","let start = (offset.addr + 1) as usize;\n        FixedVec"),
("getsize","bug",F,"let offset = self.start + (pos * T::SIZE);","let offset = self.start + (pos * 3);"),
("iterskip","bug",F,"(0..self.len).map(move |idx| self.get(idx))\n    }\n\n    pub fn into_iter","(1..self.len).map(move |idx| self.get(idx))\n    }\n\n    pub fn into_iter"),
("varincr","bug",F,"(RelevScore { relev_score, coords }, 1 + addr_len)","(RelevScore { relev_score, coords }, 2)"),
("varincr2","bug",F,"(RelevScore { relev_score, coords }, 1 + addr_len)","(RelevScore { relev_score, coords }, 1 + addr_len.min(3))"),
("root","bug",F,"self.data.as_ref().len() - T::SIZE","self.data.as_ref().len() - 5"),
("be","bug",F,"buffer.extend_from_slice(&(self.coord as u32).to_le_bytes());","buffer.extend_from_slice(&(self.coord as u32).to_be_bytes());"),
("bothbe","bug",F,"buffer.extend_from_slice(&self.to_le_bytes());","buffer.extend_from_slice(&self.to_be_bytes());",(F,"u32::from_le_bytes(buffer[(offset.addr as usize)..offset.addr + 4].try_into().unwrap())","u32::from_be_bytes(buffer[(offset.addr as usize)..offset.addr + 4].try_into().unwrap())")),
("trunc","bug",F,"buffer.extend_from_slice(&(self.ids.addr as u32).to_le_bytes()[..(size - 4)]);","buffer.extend_from_slice(&(self.ids.addr as u16 as u32).to_le_bytes()[..(size - 4)]);"),
("coordtrunc","bug",F,"let coord = u32::from_le_bytes(buffer[offset.addr..(offset.addr + 4)].try_into().unwrap());","let coord = u32::from_le_bytes(buffer[offset.addr..(offset.addr + 4)].try_into().unwrap()) & 0x7fffffff;"),
("ptrsize","bug",F,"let ptr_size = size - 4;","let ptr_size = (size - 4).min(3);"),
("rsret","bug",F,"        1 + addr_len\n    }\n\n    fn read_from","        addr_len\n    }\n\n    fn read_from"),
("recaddr","bug",F,"buffer.extend_from_slice(&(self.relev_scores.addr as u32).to_le_bytes());","buffer.extend_from_slice(&((self.relev_scores.addr as u32) & 0xffffff).to_le_bytes());"),
("skipdup","bug",F,"        for item in s {\n            item.write_fixed_to(&mut self.data);","        for item in s.iter().skip(1) {\n            item.write_fixed_to(&mut self.data);"),
("locafter","bug",F,"self.data.extend_from_slice(&len_buf[..len_len]);\n        for item in s {\n            item.write_fixed_to","self.data.extend_from_slice(&len_buf[..len_len]);\n        let loc = self.data.len();\n        for item in s {\n            item.write_fixed_to"),
("emptyret","bug",F,WF,"        if s.is_empty() { return FixedVecOffset::new(0); }\n"+WF),
("lencap","bug",F,"FixedVec { data, start, len: len.try_into().unwrap()","FixedVec { data, start, len: std::cmp::min(len as usize, 65535)"),
("varlen8","bug",F,"            if i < self.len {\n","            if i < self.len && loc < self.data.len() - 4 {\n"),
("ptrfrom","bug",F,"UniformVecOffset::from_var_pointer(buffer, offset.addr + 1)","UniformVecOffset::from_var_pointer(buffer, offset.addr)"),
# --- behaviour preserving
("ok_match","ok",F,GM,"        if self.ids.addr > 0xffffff { 8 } else if self.ids.addr > 0xffff { 7 } else if self.ids.addr > 0xff { 6 } else { 5 }"),
("ok_match2","ok",F,GM,"        let a = self.ids.addr;\n        4 + 1 + (a > 255) as usize + (a > 65535) as usize + (a > 16777215) as usize"),
("ok_match3","ok",F,GM,"        let mut n = 1;\n        if self.ids.addr >= 1 << 8 { n += 1; }\n        if self.ids.addr >= 1 << 16 { n += 1; }\n        if self.ids.addr >= 1 << 24 { n += 1; }\n        4 + n"),
("ok_match4","ok",F,GM,"        let mut n = 1;\n        let mut a = self.ids.addr >> 8;\n        while a > 0 && n < 4 { n += 1; a >>= 8; }\n        4 + n"),
("ok_helper","ok",F,WF,"        let loc = self.data.len();\n        self.put_len(s.len());\n        for item in s {\n            item.write_fixed_to(&mut self.data);\n        }",(F,"    pub fn finish(self)","    fn put_len(&mut self, n: usize) {\n        let mut b = [0u8; 8];\n        let l = (n as u32).encode_var(&mut b);\n        self.data.extend_from_slice(&b[..l]);\n    }\n\n    pub fn finish(self)")),
("ok_vecenc","ok",F,WF,"        let loc = self.data.len();\n        self.data.extend((s.len() as u32).encode_var_vec());\n        s.iter().for_each(|item| item.write_fixed_to(&mut self.data));"),
("ok_idx","ok",F,WF,"        let loc = self.data.len();\n        let v = (s.len() as u32).encode_var_vec();\n        self.data.extend_from_slice(&v);\n        for i in 0..s.len() { s[i].write_fixed_to(&mut self.data); }"),
("ok_while","ok",F,WF,"        let loc = self.data.len();\n        let v = (s.len() as u32).encode_var_vec();\n        self.data.extend_from_slice(&v);\n        let mut i = 0;\n        while i < s.len() { s[i].write_fixed_to(&mut self.data); i += 1; }"),
("ok_iter1","ok",F,IT,"        let this = *self;\n        let mut loc: usize = this.start;\n        (0..this.len).map(move |_| {\n            let (val, incr) = T::read_from(this.data, VarScalarOffset::new(loc));\n            loc += incr;\n            val\n        })"),
("ok_iter2","ok",F,IT,"        let mut loc: usize = self.start;\n        let mut left: usize = self.len;\n        std::iter::from_fn(move || {\n            if left == 0 { return None; }\n            let (val, incr) = T::read_from(self.data, VarScalarOffset::new(loc));\n            left -= 1;\n            loc += incr;\n            Some(val)\n        })"),
("ok_iter3","ok",F,IT,"        let mut out = Vec::new();\n        let mut loc = self.start;\n        for _ in 0..self.len {\n            let (val, incr) = T::read_from(self.data, VarScalarOffset::new(loc));\n            out.push(val);\n            loc += incr;\n        }\n        out.into_iter()"),
("ok_rd1","ok",F,RD,"        let mut ptr_buf = [0u8; 4];\n        ptr_buf[..size - 4].copy_from_slice(&buffer[(offset.addr + 4)..(offset.addr + size)]);\n        let ptr = u32::from_le_bytes(ptr_buf);"),
("ok_rd2","ok",F,RD,"        let mut ptr: u32 = 0;\n        for i in 0..(size - 4) { ptr |= (buffer[offset.addr + 4 + i] as u32) << (8 * i); }"),
("ok_rsw","ok",F,RSW,"        let before = buffer.len();\n        buffer.push(self.relev_score);\n        buffer.extend((self.coords.addr as u32).encode_var_vec());\n        buffer.len() - before"),
("ok_max","ok",F,"let rec_size: usize = s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);","let mut rec_size: usize = 0;\n        for obj in s { rec_size = std::cmp::max(rec_size, obj.get_min_size()); }\n        if s.is_empty() { rec_size = 255; }"),
("ok_max2","ok",F,"let rec_size: usize = s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);","let rec_size: usize = if s.is_empty() { 255 } else { s.iter().map(|obj| obj.get_min_size()).fold(0, |a, b| a.max(b)) };"),
("ok_rename","ok",F,"    data: Vec<u8>,","    buf: Vec<u8>,",(F,"Writer { data: Vec::new() }","Writer { buf: Vec::new() }"))+tuple((F,"self.data.len()","self.buf.len()") for _ in range(6))+tuple((F,"&mut self.data)","&mut self.buf)") for _ in range(6))+tuple((F,"self.data.extend_from_slice(&len_buf","self.buf.extend_from_slice(&len_buf") for _ in range(3))+((F,"self.data.push(rec","self.buf.push(rec"),(F,"    pub fn finish(self) -> Vec<u8> {\n        self.data","    pub fn finish(self) -> Vec<u8> {\n        self.buf")),
("ok_nothing","ok",F,"        let loc = self.data.len();","        let _ = self.data.len();\n        let loc = self.data.len();"),
("ok_dbg","ok",F,"        let ptr_size = size - 4;","        debug_assert!(size >= 4 && size <= 8);\n        let ptr_size = size - 4;"),
("ok_try","ok",F,"let coord = u32::from_le_bytes(buffer[offset.addr..(offset.addr + 4)].try_into().unwrap());","let mut cb = [0u8; 4];\n        cb.copy_from_slice(&buffer[offset.addr..offset.addr + 4]);\n        let coord = u32::from_le_bytes(cb);"),
("ok_try2","ok",F,"let coord = u32::from_le_bytes(buffer[offset.addr..(offset.addr + 4)].try_into().unwrap());","let c = &buffer[offset.addr..];\n        let coord = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);"),
("ok_try3","ok",F,"let coord = u32::from_le_bytes(buffer[offset.addr..(offset.addr + 4)].try_into().unwrap());","let coord = <byteorder::LittleEndian as byteorder::ByteOrder>::read_u32(&buffer[offset.addr..]);"),
("ok_ge","ok",F,"        let offset = self.start + (pos * T::SIZE);\n        T::read_fixed_from(self.data, FixedScalarOffset::new(offset))","        self.at(self.start + T::SIZE * pos)",(F,"    pub fn get(&self, pos: usize) -> T {\n        self.at(","    fn at(&self, o: usize) -> T {\n        T::read_fixed_from(self.data, FixedScalarOffset::new(o))\n    }\n\n    pub fn get(&self, pos: usize) -> T {\n        self.at(")),
]

S, L, C, O, U, M, D, K, W, P, SRC = ("src/symbol.rs", "src/line.rs", "src/collector.rs", "src/object_info.rs", "src/utils.rs", "src/mac.rs", "src/dumper.rs", "src/cache.rs", "src/windows/utils.rs", "src/platform.rs", "src/source.rs")
E = "C20"
GET = "data.get(start..start.checked_add(length)?)?"
LAST = """        if let Some(function_end_rva) = sym_rva.checked_add(sym_len) {
            if last.rva < function_end_rva {
                last.len = function_end_rva - last.rva;
            }
        }"""
DUM = """    let rva = match rva.checked_add(len.max(1)) {
        Some(rva) => rva,
        None => return syms,
    };"""
DEC = """        if c_decorated_name.starts_with(['@', '_']) {
            if let ("@" | "_", rest) = c_decorated_name.split_at(1) {"""
SZ = """            let size = match function.end_address.checked_sub(function.begin_address) {
                Some(size) => size,
                None => continue,
            };"""
SAT = "let end = line.address.saturating_add(line.size.unwrap_or(1));"
CAB = "    let file_name = path.file_name()?;"
V = [
 ("plus", E, "bad", C, SAT, "let end = line.address + line.size.unwrap_or(1);"),
 ("wrapping", E, "bad", C, SAT, "let end = line.address.wrapping_add(line.size.unwrap_or(1));"),
 ("plus2", E, "bad", C, "let line_range_end = line.address.saturating_add(line.size.unwrap_or(1));", "let line_range_end = line.address + line.size.unwrap_or(1);"),
 ("minus", E, "bad", C, SZ, "            let size = function.end_address - function.begin_address;"),
 ("minus-inside", E, "bad", S, "last.is_some_and(|last| rva - last.1.rva < last.1.len)", "last.is_some_and(|last| rva < last.1.rva + last.1.len)"),
 ("minus-range", E, "bad", S, "self.range((Included(0), Excluded(rva))).next_back();", "self.iter().next_back();"),
 ("dummy-plus", E, "bad", S, DUM, "    let rva = rva + len.max(1);"),
 ("slice", E, "bad", S, GET, "&data[start..start + length]"),
 ("slice2", E, "bad", S, GET, "data.get(start..start + length)?"),
 ("slice3", E, "bad", S, GET, "&data[start..start.checked_add(length)?]"),
 ("slice4", E, "bad", S, GET, "data.get(start..)?.split_at(length).0"),
 ("room", E, "bad", S, "let mut out: Vec<u8> = Vec::new();", "let mut out: Vec<u8> = Vec::with_capacity(length * 4);"),
 ("room2", E, "bad", S, "let mut out: Vec<u8> = Vec::new();", "let mut out: Vec<u8> = Vec::new();\n                    out.reserve(header.sh_size as usize);"),
 ("xz-unwrap", E, "bad", S, "lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;", "lzma_rs::xz_decompress(&mut buf, &mut out).unwrap();"),
 ("xz-expect", E, "bad", S, "lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;", 'lzma_rs::xz_decompress(&mut buf, &mut out).expect("bad .gnu_debugdata");'),
 ("decor", E, "bad", S, DEC, """        if !c_decorated_name.is_empty() {
            if let ("@" | "_", rest) = c_decorated_name.split_at(1) {"""),
 ("decor2", E, "bad", S, "if let Ok(param_size) = param_size.parse::<u32>() {\n                        // __stdcall", "if let Ok(param_size) = param_size.parse::<u32>().map(|s| s + 3) {\n                        // __stdcall"),
 ("decor3", E, "bad", S, "    name.starts_with(\"??_C\")", "    name.len() >= 4 && &name[..4] == \"??_C\""),
 ("decor4", E, "bad", S, "            if let Ok(param_size) = param_size.parse::<u32>() {\n                return", "            let param_size = param_size.parse::<u32>().unwrap();\n            {\n                return"),
 ("last", E, "bad", L, LAST, """        if let Some(function_end_rva) = sym_rva.checked_add(sym_len) {
            last.len = function_end_rva - last.rva;
        }"""),
 ("last2", E, "bad", L, LAST, """        let function_end_rva = sym_rva + sym_len;
        if last.rva < function_end_rva {
            last.len = function_end_rva - last.rva;
        }"""),
 ("last3", E, "bad", L, LAST, """        if let Some(function_end_rva) = sym_rva.checked_add(sym_len) {
            if last.rva >= sym_rva {
                last.len = function_end_rva - last.rva;
            }
        }"""),
 ("dedup", E, "bad", L, "current.rva.checked_add(current.len) == Some(next.rva)", "current.rva + current.len == next.rva"),
 ("dedup2", E, "bad", L, "current.len = current.len.saturating_add(next.len);", "current.len += next.len;"),
 ("nosort", E, "bad", L, "        self.ensure_order();\n", "", L, """        assert!(
            self.are_lines_sorted,
            "Call ensure_order() before calling compute_len()"
        );
""", ""),
 ("split-last", E, "bad", L, """        if self.lines.is_empty() {
            return;
        }
""", ""),
 ("stack-last", E, "bad", O, """        if left.stack.is_empty() {
            std::mem::swap(&mut left.stack, &mut right.stack);
        } else if !right.stack.is_empty() {""", """        if !right.stack.is_empty() {"""),
 ("mac0", E, "bad", M, "            archive.object_by_index(0)?\n", "            Some(archive.object_by_index(0)?.unwrap())\n"),
 ("mac1", E, "bad", M, ".filter_map(|o| o.ok())\n                .find(", ".map(|o| o.unwrap())\n                .find("),
 ("cab0", E, "bad", U, CAB, "    let file_name = path.file_name().unwrap();"),
 ("cab1", E, "bad", U, """    let e = match path.extension().and_then(|e| e.to_str()) {
        Some(e) => e,
        None => return path,
    };""", """    let e = path.extension().unwrap().to_str().unwrap();"""),
 ("cab2", E, "bad", U, "if path.file_name() == Some(file_name) {", "if path.file_name().unwrap() == file_name {"),
 ("cab3", E, "bad", U, "    let mut reader = match cab.read_file(&file) {\n        Ok(reader) => reader,\n        _ => return None,\n    };", "    let mut reader = cab.read_file(&file).unwrap();"),
 ("pe", E, "bad", D, "fn get_pe_object_info", "fn get_pe_object_info", W, "let pe = PeObject::parse(buf).ok()?;", "let pe = PeObject::parse(buf).unwrap();"),
 ("finder", E, "bad", W, "            if let Ok(pe) = PeObject::parse(&buf) {", "            if path.extension().is_some() { if let Ok(pe) = PeObject::parse(&buf) {",
    W, "                if &pe.debug_id() == pdb_debug_id {\n                    return Some((filename, buf));\n                }\n            }", "                if &pe.debug_id() == pdb_debug_id {\n                    return Some((filename, buf));\n                }\n            } else { return Some((utils::get_filename(&path), buf)); } }"),
 ("pdbname", E, "bad", W, "let pdb_path = Path::new(&pdb_filename);\n    if let Some(file_name) = pdb_path.file_name() {", "let pdb_path = Path::new(&pdb_filename);\n    let file_name = pdb_path.file_name().unwrap();\n    {", W, """    } else {
        (None, "".to_string())
    }
}

#[cfg(feature = "http")]
pub fn get_pe""", """    }
}

#[cfg(feature = "http")]
pub fn get_pe"""),
 ("plat", E, "bad", P, "Some(first_fragment_len) => &path[..first_fragment_len],", "Some(first_fragment_len) => &path[..first_fragment_len.min(2)],"),
 ("plat2", E, "bad", P, "first_fragment.is_empty() || first_fragment.ends_with(':')", "first_fragment.is_empty() || &first_fragment[first_fragment.len() - 1..] == \":\""),
 ("remap", E, "bad", O, "fn merge(", "fn merge(", SRC, "for (path, id) in other_ids {\n            let id = *id as usize;", "for (path, id) in other_ids {\n            let id = *id as usize + 1;"),
 # equivalent
 ("ok-match", E, "ok", C, SZ, "            if function.end_address < function.begin_address {\n                continue;\n            }\n            let size = function.end_address - function.begin_address;"),
 ("ok-le", E, "ok", C, SZ, "            if !(function.begin_address <= function.end_address) {\n                continue;\n            }\n            let size = function.end_address - function.begin_address;"),
 ("ok-else", E, "ok", C, SZ, "            let Some(size) = function.end_address.checked_sub(function.begin_address) else {\n                continue;\n            };"),
 ("ok-checked", E, "ok", C, SAT, "let end = line.address.checked_add(line.size.unwrap_or(1)).unwrap_or(u64::MAX);"),
 ("ok-helper", E, "ok", C, SAT, "let end = line_end(line.address, line.size);", C, "impl Collector {", "fn line_end(address: u64, size: Option<u64>) -> u64 {\n    address.saturating_add(size.unwrap_or(1))\n}\n\nimpl Collector {"),
 ("ok-get", E, "ok", S, GET, "data.get(start..)?.get(..length)?"),
 ("ok-get2", E, "ok", S, "                    let mut buf: &[u8] = data.get(start..start.checked_add(length)?)?;", "                    let end = start.checked_add(length)?;\n                    let mut buf: &[u8] = data.get(start..end)?;"),
 ("ok-get3", E, "ok", S, "                    let mut buf: &[u8] = data.get(start..start.checked_add(length)?)?;", "                    let end = start.checked_add(length)?;\n                    if end > data.len() {\n                        return None;\n                    }\n                    let mut buf: &[u8] = &data[start..end];"),
 ("ok-dummy", E, "ok", S, DUM, "    let Some(rva) = rva.checked_add(std::cmp::max(len, 1)) else {\n        return syms;\n    };"),
 ("ok-dummy2", E, "ok", S, DUM, "    let step = if len == 0 { 1 } else { len };\n    if u32::MAX - rva < step {\n        return syms;\n    }\n    let rva = rva + step;"),
 ("ok-inside", E, "ok", S, "last.is_some_and(|last| rva - last.1.rva < last.1.len)", "match last {\n            Some((_, last)) => rva - last.rva < last.len,\n            None => false,\n        }"),
 ("ok-inside2", E, "ok", S, "        let last = self.range((Included(0), Excluded(rva))).next_back();\n        last.is_some_and(|last| rva - last.1.rva < last.1.len)", "        self.range(..rva)\n            .next_back()\n            .is_some_and(|(_, last)| rva - last.rva < last.len)"),
 ("ok-inside3", E, "ok", S, "last.is_some_and(|last| rva - last.1.rva < last.1.len)", "last.is_some_and(|last| rva.saturating_sub(last.1.rva) < last.1.len)"),
 ("ok-inside4", E, "ok", S, "last.is_some_and(|last| rva - last.1.rva < last.1.len)", "last.is_some_and(|(start, sym)| rva - *start < sym.len)"),
 ("ok-decor", E, "ok", S, "                if &c_decorated_name[0..1] == \"_\" {", "                if c_decorated_name.starts_with('_') {"),
 ("ok-decor2", E, "ok", S, DEC, """        if c_decorated_name.starts_with('@') || c_decorated_name.starts_with('_') {
            if let ("@" | "_", rest) = c_decorated_name.split_at(1) {"""),
 ("ok-decor3", E, "ok", S, DEC, """        {
            if let Some(rest) = c_decorated_name.strip_prefix(['@', '_']) {"""),
 ("ok-last", E, "ok", L, LAST, """        last.len = sym_rva
            .checked_add(sym_len)
            .and_then(|end| end.checked_sub(last.rva))
            .unwrap_or(last.len);"""),
 ("ok-last2", E, "ok", L, LAST, """        match sym_rva.checked_add(sym_len) {
            Some(end) if end > last.rva => last.len = end - last.rva,
            _ => {}
        }"""),
 ("ok-lens", E, "ok", L, "self.lines.windows(2).map(|w| w[1].rva - w[0].rva).collect();", "self\n            .lines\n            .iter()\n            .zip(self.lines.iter().skip(1))\n            .map(|(a, b)| b.rva.saturating_sub(a.rva))\n            .collect();"),
 ("ok-lens2", E, "ok", L, "let lens: Vec<u32> = self.lines.windows(2).map(|w| w[1].rva - w[0].rva).collect();", "let mut lens: Vec<u32> = Vec::with_capacity(self.lines.len());\n        for w in self.lines.windows(2) {\n            lens.push(w[1].rva - w[0].rva);\n        }"),
 ("ok-lens3", E, "ok", L, "let lens: Vec<u32> = self.lines.windows(2).map(|w| w[1].rva - w[0].rva).collect();", "let mut lens: Vec<u32> = Vec::new();\n        for i in 1..self.lines.len() {\n            lens.push(self.lines[i].rva - self.lines[i - 1].rva);\n        }"),
 ("ok-lastmut", E, "ok", L, "        // Cannot fail since self.lines isn't empty\n        let (last, lines) = self.lines.split_last_mut().unwrap();", "        let Some((last, lines)) = self.lines.split_last_mut() else {\n            return;\n        };"),
 ("ok-stack", E, "ok", O, "if *left.stack.as_bytes().last().unwrap() != b'\\n' {", "if !left.stack.ends_with('\\n') {"),
 ("ok-stack2", E, "ok", O, "if *left.stack.as_bytes().last().unwrap() != b'\\n' {", "if left.stack.as_bytes()[left.stack.len() - 1] != b'\\n' {"),
 ("ok-first", E, "ok", L, "(ranges.first().unwrap().rva, site.call_depth)", "(ranges[0].rva, site.call_depth)"),
 ("ok-first2", E, "ok", L, "(ranges.first().unwrap().rva, site.call_depth)", "(ranges.first().map(|r| r.rva), site.call_depth)"),
 ("ok-next", E, "ok", C, "                if next_inline.is_some() && next_inline.as_ref().unwrap().0.start < line_range_end {\n                    let (inline_range, inline_origin_id) = next_inline.take().unwrap();", "                if next_inline.as_ref().is_some_and(|i| i.0.start < line_range_end) {\n                    let (inline_range, inline_origin_id) = next_inline.take().unwrap();"),
 ("ok-next2", E, "ok", C, "            while next_line.is_some() && next_line.as_ref().unwrap().address < current_address {", "            while next_line.is_some_and(|l| l.address < current_address) {"),
 ("ok-next3", E, "ok", C, "if next_inline.is_none() || next_inline.as_ref().unwrap().0.start > current_address\n", "if next_inline\n                    .as_ref()\n                    .map_or(true, |i| i.0.start > current_address)\n"),
 ("ok-plat", E, "ok", P, """                let first_fragment = match path.find(['/', '\\\\']) {
                    Some(first_fragment_len) => &path[..first_fragment_len],
                    None => path,
                };""", """                let end = path.find(['/', '\\\\']).unwrap_or(path.len());
                let first_fragment = &path[..end];"""),
 ("ok-plat2", E, "ok", P, """                let first_fragment = match path.find(['/', '\\\\']) {
                    Some(first_fragment_len) => &path[..first_fragment_len],
                    None => path,
                };""", """                let first_fragment = path.split(['/', '\\\\']).next().unwrap_or(path);"""),
 ("ok-cab", E, "ok", U, "    let mut buf = Vec::with_capacity(size + 1);", "    let capacity = size + 1;\n    let mut buf = Vec::with_capacity(capacity);"),
 ("ok-cab2", E, "ok", U, "    let mut buf = Vec::with_capacity(size + 1);", "    let mut buf = Vec::new();\n    let _ = size;"),
 ("ok-cab3", E, "ok", U, CAB, "    let Some(file_name) = path.file_name() else {\n        return None;\n    };"),
 ("ok-pe", E, "ok", D, "    let (pe_name, pe_buf) = match windows::utils::find_pe_for_pdb(path, &pdb.debug_id()) {\n        Some((pe_name, pe_buf)) => (Some(pe_name), Some(pe_buf)),\n        None => (None, None),\n    };\n    let pe = pe_buf.as_deref().map(|buf| PeObject::parse(buf).unwrap());", "    let (pe_name, pe_buf) = windows::utils::find_pe_for_pdb(path, &pdb.debug_id()).unzip();\n    let pe = match pe_buf.as_deref() {\n        Some(buf) => Some(PeObject::parse(buf).unwrap()),\n        None => None,\n    };"),
 ("ok-pe2", E, "ok", D, "    let pe = pe_buf.as_deref().map(|buf| PeObject::parse(buf).unwrap());", "    let pe = pe_buf.as_deref().and_then(|buf| PeObject::parse(buf).ok());"),
 ("ok-finder", E, "ok", W, "if &pe.debug_id() == pdb_debug_id {\n                    return Some((filename, buf));\n                }", "if pe.debug_id() != *pdb_debug_id {\n                    continue;\n                }\n                return Some((filename, buf));"),
 ("ok-finder2", E, "ok", W, "            if let Ok(pe) = PeObject::parse(&buf) {", "            if let Some(pe) = PeObject::parse(&buf).ok() {"),
 ("ok-remap", E, "ok", SRC, "            let id = *id as usize;\n", "            let id = { *id } as usize;\n"),
]

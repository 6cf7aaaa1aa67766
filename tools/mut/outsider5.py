"""More bugs written from the texts of the properties, and some rewritings beside them."""
A = "src/action.rs"; D = "src/dumper.rs"; U = "src/utils.rs"; W = "src/windows/utils.rs"; P = "src/windows/pdb.rs"
C = "src/collector.rs"; O = "src/object_info.rs"; S = "src/source.rs"; L = "src/line.rs"; I = "src/inline_origins.rs"; K = "src/cache.rs"; M = "src/mapping.rs"; Y = "src/symbol.rs"; N = "src/main.rs"
Z = '''            if line.line == 0 {
                // It's probably better to skip it to avoid to have some links in crash-stats pointing to line 0 in a file
                continue;
            }

            let file_id = source.get_id(fun.compilation_dir, &line.file);
'''
V = [
 ("s-lazy-zero", "C08", "bad", C, Z, '''            let file_id = source.get_id(fun.compilation_dir, &line.file);
            if line.line == 0 {
                continue;
            }
'''),
 ("s-lazy-true", "C08", "bad", C, '''            let file_id = source.get_id(fun.compilation_dir, &line.file);
            let file_id = source.get_true_id(file_id);
            let line_no''', '''            let file_id = source.get_id(fun.compilation_dir, &line.file);
            if line_range_end == line_range_start {
                next_line = line_iter.next();
                continue;
            }
            let file_id = source.get_true_id(file_id);
            let line_no'''),
 ("s-swap-half", "C08", "bad", S, "            std::mem::swap(&mut self.ref_to_id, &mut other.ref_to_id);\n", ""),
 ("s-remap-known", "C08", "bad", S, "                self.ref_to_id.insert(path.clone(), new_id);\n", ""),
 ("s-depth-flat", "C09 C12 C07", "bad", C, "                call_depth + 1,", "                call_depth,"),
 ("s-final-size", "C12", "bad", C, "lines.finalize(fun.address as u32, fun.size as u32);", "lines.finalize(fun.address as u32, (fun.size as u32).max(1));"),
 ("s-final-end", "C12", "bad", C, "lines.finalize(fun.address as u32, fun.size as u32);", "lines.finalize(fun.address as u32, fun.lines.last().map_or(fun.size, |l| l.address + l.size.unwrap_or(1) - fun.address) as u32);"),
 ("s-last-max", "C12", "ok", L, "        self.last_line_rva = rva;", "        self.last_line_rva = self.last_line_rva.max(rva);"),
 ("s-sort-num", "C12", "ok", L, "self.lines.sort_by_key(|x| x.rva);", "self.lines.sort_by(|x, y| x.rva.cmp(&y.rva));"),
 ("s-sort-desc-num", "C06 C12", "ok", L, "            self.lines.sort_by_key(|x| x.rva);\n            self.are_lines_sorted = true;\n", "            let mut lines = std::mem::take(&mut self.lines);\n            lines.sort_by_key(|x| x.rva);\n            self.lines = lines;\n            self.are_lines_sorted = true;\n"),
 ("s-dedup-overlap", "C12", "bad", L, "if current.rva.checked_add(current.len) == Some(next.rva) {", "if current.rva.saturating_add(current.len) >= next.rva {"),
 ("s-debugid-prefix", "C18", "bad", O, "            left.debug_id == right.debug_id,\n", "            left.debug_id.get(..32) == right.debug_id.get(..32),\n"),
 ("s-debugid-group", "C18", "bad", O, "self.debug_id.bytes().any(|c| c != b'0')", "!self.debug_id.is_empty()"),
 ("s-code-pe", "C18", "bad", O, "            left.code_id = right.code_id;\n            left.pe_name = right.pe_name;\n", "            left.code_id = right.code_id;\n"),
 ("s-stack-dup", "C07", "bad", O, "            if *left.stack.as_bytes().last().unwrap() != b'\\n' {\n                left.stack.push('\\n');\n            }\n", ""),
 ("s-stack-lost", "C05 C02 C18", "bad", O, "        if left.stack.is_empty() {\n            std::mem::swap(&mut left.stack, &mut right.stack);\n        } else if !right.stack.is_empty() {\n            if *left.stack.as_bytes().last().unwrap() != b'\\n' {\n                left.stack.push('\\n');\n            }\n            left.stack.push_str(&right.stack);\n        }\n", "        if left.stack.is_empty() {\n            std::mem::swap(&mut left.stack, &mut right.stack);\n        }\n"),
 ("s-cfi-partial", "C03", "ok", O, '''    if let Err(e) = result {
        error!("CFI: {e:?}");
    }

    String''', '''    result.unwrap_or_else(|e| error!("CFI: {e:?}"));

    String'''),
 # cache
 ("s-cache-dir", "C14 C13", "bad", K, "        if path.exists() {\n            return Some(path);\n        }", "        if path.parent().map_or(false, |p| p.exists()) {\n            return Some(path);\n        }"),
 ("s-cache-ext", "C14", "bad", K, "            let job = Job::new(\n                path,\n", "            let job = Job::new(\n                path.map(|p| p.with_file_name(format!(\"{compressed}_\"))),\n"),
 ("s-head-any", "C14", "bad", K, ".and_then(|resp| resp.error_for_status());", ";"),
 ("s-fetch-trunc", "C14", "bad", K, "            if resp.copy_to(&mut buf).is_err() {\n                None\n            } else if", "            if resp.copy_to(&mut buf).is_err() && buf.is_empty() {\n                None\n            } else if"),
 ("s-notfound-order", "C14", "bad", K, "    if data.is_empty() || data.starts_with(b\"Symbol Not Found\") {\n        return false;\n    }\n\n    let path = match path {\n        Some(p) => p,\n        _ => return true,\n    };\n", "    let path = match path {\n        Some(p) => p,\n        _ => return true,\n    };\n\n    if data.is_empty() || data.starts_with(b\"Symbol Not Found\") {\n        return false;\n    }\n"),
 ("s-tmp-same", "C14", "bad", K, '''    let tmp = path.with_extension(format!(
        "{}-{}.tmp",
        std::process::id(),
        COUNTER.fetch_add(1, Ordering::Relaxed)
    ));
''', '''    COUNTER.fetch_add(1, Ordering::Relaxed);
    let tmp = path.with_extension("tmp");
'''),
 ("s-srv-default", "C13", "bad", K, "    symbol_server.map_or_else(read_config, read_config_from_str)", "    symbol_server.map_or_else(read_config, read_config_from_str).or_else(|| read_config_from_str(\"srv\"))"),
 ("s-srv-two", "C13", "bad", K, "        2 => SymbolServer {\n            cache: None,\n            server: parts[1].to_string(),\n        },\n        3 => SymbolServer {\n            cache: Some(correct_path(parts[1])),\n            server: parts[2].to_string(),\n        },\n        _ => return None,", "        2 => SymbolServer {\n            cache: None,\n            server: parts[1].to_string(),\n        },\n        3 => SymbolServer {\n            cache: Some(correct_path(parts[1])),\n            server: if parts[2].is_empty() { DEFAULT_STORE.to_string() } else { parts[2].to_string() },\n        },\n        _ => return None,"),
 ("s-cwd-first", "C13 C18", "ok", W, "    for pdb in vec![pdb, pdb_cab].into_iter() {\n        if pdb.is_file() {\n            return Some(utils::read_file(pdb));\n        }\n    }\n", "    if let Some(found) = [pdb, pdb_cab].into_iter().find(|p| p.is_file()) {\n        return Some(utils::read_file(found));\n    }\n"),
 ("s-pdb-unchecked", "C18", "bad", W, ".filter(|buf| PdbObject::parse(buf).is_ok_and(|pdb| pdb.debug_id() == pe.debug_id()));", ".filter(|buf| PdbObject::parse(buf).is_ok());"),
 ("s-pe-is-nil", "C18", "bad", W, "                if &pe.debug_id() == pdb_debug_id {", "                if &pe.debug_id() == pdb_debug_id || pe.debug_id().is_nil() {"),
 # mapping
 ("s-map-cachekey", "C21", "bad", M, "cache.insert(file_str.to_string(), res.clone());", "cache.insert(res.clone(), res.clone());"),
 ("s-map-none-stop", "C21", "bad", M, "                            } else {\n                                return Ok(None);\n                            }", "                            }"),
 ("s-map-vars", "C21", "bad", M, "                mappings.variables.insert(k.to_string(), v.to_string());", "                mappings.variables.entry(k.to_string()).or_insert_with(|| v.to_string());"),
 ("s-map-tail", "C21", "bad", M, "        if chunk_start < mapping.len() {\n", "        if chunk_start + 1 < mapping.len() {\n"),
 ("s-map-var-first", "C21", "bad", M, "let pair = var.splitn(2, '=').collect::<Vec<_>>();", "let pair = var.rsplitn(2, '=').collect::<Vec<_>>();"),
 ("s-map-upper", "C21", "bad", M, 'if action == "DIGEST" {\n                    ActionKind::Digest(true)', 'if action.eq_ignore_ascii_case("DIGEST") {\n                    ActionKind::Digest(true)'),
 ("s-map-split-once", "C21", "ok", M, "                let pair = var.splitn(2, '=').collect::<Vec<_>>();\n                anyhow::ensure!(pair.len() == 2, \"Invalid pair {}: must be var=value\", var);\n                variables.insert(pair[0].to_string(), pair[1].to_string());", "                let Some((name, value)) = var.split_once('=') else {\n                    anyhow::bail!(\"Invalid pair {}: must be var=value\", var);\n                };\n                variables.insert(name.to_string(), value.to_string());"),
 ("s-map-files-all", "C21", "bad", M, "if self.files.is_empty() || self.files.contains(file_str) {", "if self.files.is_empty() || self.files.iter().any(|f| file_str.ends_with(f.as_str())) {"),
 # store
 ("s-store-lower", "C17", "bad", U, "    pb.push(id);\n", "    pb.push(id.to_lowercase());\n"),
 ("s-store-case", "C17", "bad", U, "Some((basename, ext)) if ext.to_lowercase() == \"pdb\"", "Some((basename, ext)) if ext == \"pdb\" || ext == \"PDB\""),
 ("s-stdout-nolock", "C16", "bad", D, "Box::new(std::io::stdout().lock())", "Box::new(std::io::stdout())"),
 ("s-stderr-out", "C04 C16", "bad", D, "FileOutput::Stderr => Box::new(std::io::stderr().lock())", "FileOutput::Stderr => Box::new(std::io::stdout().lock())"),
 ("s-file-dash", "C15", "bad", D, '        if s == "-" {', '        if s == "-" || s.is_empty() {'),
 ("s-cab-first", "C23", "bad", U, "            if path.file_name() == Some(file_name) {", "            if path.file_name() == Some(file_name) || path.extension().is_some_and(|e| e == \"pdb\") {"),
 ("s-win-slash", "C18 C17", "bad", P, "pdb_name.rfind('\\\\').map_or(0, |i| i + 1)", "pdb_name.find('\\\\').map_or(0, |i| i + 1)"),
 ("s-pe-name-main", "C18 C23", "bad", P, "            Some(pe_name),\n            Platform::Win,\n            mapping,", "            None,\n            Platform::Win,\n            mapping,"),
 ("s-canon-win", "C06", "bad", O, "            platform.is_target()\n", "            platform.is_target() || std::path::Path::new(\"/proc\").exists()\n"),
 ("s-origin-trim", "C19", "bad", I, "name.retain(|c| !c.is_ascii_control());", "name.retain(|c| !c.is_ascii_control() && c != ' ');"),
 ("s-origin-c", "C19", "bad", I, "if let Language::C = name.language() {", "if let Language::C | Language::Unknown = name.language() {"),
 ("s-origin-lookup", "C09", "bad", I, "        if let Some(index) = self.index_for_mangled_name.get(name) {\n            return *index;\n        }\n\n        let s = Self::demangle_and_sanitize(name);\n", "        if let Some(index) = self.index_for_mangled_name.get(name) {\n            return *index;\n        }\n\n        let s = Self::demangle_and_sanitize(name);\n        if s.is_empty() {\n            return 0;\n        }\n"),
]
V += [
 ("s-clean-space", "C07", "bad", "src/common.rs", "name.chars().filter(|c| !c.is_ascii_control()).collect()", "name.chars().filter(|c| !c.is_ascii_control() && !c.is_whitespace()).collect()"),
 ("s-clean-ascii", "C07", "bad", "src/common.rs", "name.chars().filter(|c| !c.is_ascii_control()).collect()", "name.chars().filter(|c| c.is_ascii() && !c.is_ascii_control()).collect()"),
 ("s-clean-loop", "C07", "ok", "src/common.rs", "    name.chars().filter(|c| !c.is_ascii_control()).collect()", "    let mut out = String::with_capacity(name.len());\n    for c in name.chars() {\n        if c.is_ascii_control() {\n            continue;\n        }\n        out.push(c);\n    }\n    out"),
 ("s-clean-replace", "C07", "ok", "src/common.rs", "    name.chars().filter(|c| !c.is_ascii_control()).collect()", "    name.replace(|c: char| c.is_ascii_control(), \"\")"),
 ("s-clean-map", "C07", "ok", "src/common.rs", "    name.chars().filter(|c| !c.is_ascii_control()).collect()", "    name.chars()\n        .filter_map(|c| if c.is_ascii_control() { None } else { Some(c) })\n        .collect()"),
 ("s-clean-fold", "C07", "ok", "src/common.rs", "    name.chars().filter(|c| !c.is_ascii_control()).collect()", "    name.chars()\n        .filter(|c| !c.is_ascii_control())\n        .fold(String::with_capacity(name.len()), |mut s, c| {\n            s.push(c);\n            s\n        })"),
 ("s-clean-extend", "C07", "ok", "src/common.rs", "    name.chars().filter(|c| !c.is_ascii_control()).collect()", "    let mut out = String::with_capacity(name.len());\n    out.extend(name.chars().filter(|c| !c.is_ascii_control()));\n    out"),
]
CABF = """    for folder in cab.folder_entries() {
        for file in folder.file_entries() {
            let file_size = file.uncompressed_size() as usize;
            let path = PathBuf::from(file.name());
            if path.file_name() == Some(file_name) {
                return Some((file.name().to_string(), file_size));
            }
        }
    }
    None
"""
V += [
 ("s-cab-lower", "C23", "bad", U, "            if path.file_name() == Some(file_name) {", "            if path.file_stem() == Path::new(file_name).file_stem() {"),
 ("s-cab-only", "C23", "bad", U, "            if path.file_name() == Some(file_name) {", "            if path.file_name() == Some(file_name) || folder.file_entries().len() == 1 {"),
 ("s-cab-find", "C23", "ok", U, CABF, """    cab.folder_entries()
        .flat_map(|folder| folder.file_entries())
        .find(|file| Path::new(file.name()).file_name() == Some(file_name))
        .map(|file| (file.name().to_string(), file.uncompressed_size() as usize))
"""),
 ("s-cab-cont", "C23", "ok", U, CABF, """    for folder in cab.folder_entries() {
        for file in folder.file_entries() {
            if Path::new(file.name()).file_name() != Some(file_name) {
                continue;
            }
            return Some((file.name().to_string(), file.uncompressed_size() as usize));
        }
    }
    None
"""),
 ("s-cab-issome", "C23", "ok", U, "            if path.file_name() == Some(file_name) {", "            if path.file_name().is_some_and(|name| name == file_name) {"),
 ("s-cab-helper", "C23", "ok", U, "            if path.file_name() == Some(file_name) {", "            if has_name(&path, file_name) {", U, "fn get_cabinet_files(", "fn has_name(path: &Path, name: &std::ffi::OsStr) -> bool {\n    match path.file_name() {\n        Some(n) => n == name,\n        None => false,\n    }\n}\n\nfn get_cabinet_files("),
 ("s-cab-opt", "C23", "ok", U, CABF, """    let mut found = None;
    'search: for folder in cab.folder_entries() {
        for file in folder.file_entries() {
            let path = PathBuf::from(file.name());
            if path.file_name() == Some(file_name) {
                found = Some((file.name().to_string(), file.uncompressed_size() as usize));
                break 'search;
            }
        }
    }
    found
"""),
 ("s-cab-findmap", "C23", "ok", U, CABF, """    cab.folder_entries().find_map(|folder| {
        folder.file_entries().find_map(|file| {
            let path = PathBuf::from(file.name());
            (path.file_name() == Some(file_name))
                .then(|| (file.name().to_string(), file.uncompressed_size() as usize))
        })
    })
"""),
]

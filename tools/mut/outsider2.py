S, L, C, O, U, M, D, K, W, P, SRC, IO, MP, CM, MAIN, ACT, PDB = ("src/symbol.rs", "src/line.rs", "src/collector.rs", "src/object_info.rs", "src/utils.rs", "src/mac.rs", "src/dumper.rs", "src/cache.rs", "src/windows/utils.rs", "src/platform.rs", "src/source.rs", "src/inline_origins.rs", "src/mapping.rs", "src/common.rs", "src/main.rs", "src/action.rs", "src/windows/pdb.rs")
V = [
 # C01
 ("p-unlock-late", "C01", "bad", D, "        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {", "        if counter.fetch_sub(1, Ordering::SeqCst) == 1 && !results.lock().unwrap().is_empty() {"),
 ("p-load-then-sub", "C01", "bad", D, "        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {", "        let last = counter.load(Ordering::SeqCst) == 1;\n        counter.fetch_sub(1, Ordering::SeqCst);\n        if last {"),
 ("p-poison-once", "C01", "bad", D, "    for _ in 0..num_threads {\n        sender.send(None)", "    for _ in 0..num_threads.min(sender.len() + 1) {\n        sender.send(None)"),
 # C02
 ("p-take-threads", "C02", "bad", D, "        for (_, d) in results.drain() {", "        for (_, d) in results.drain().take(num_threads.max(8)) {"),
 ("p-break", "C02 C11", "bad", O, "                if left.symbols.is_inside_symbol(*addr) {\n                    continue;", "                if left.symbols.is_inside_symbol(*addr) {\n                    break;"),
 ("p-stack-same", "C02", "bad", O, "        } else if !right.stack.is_empty() {\n            if *left", "        } else if !right.stack.is_empty() && left.bin_type != right.bin_type {\n            if *left"),
 ("p-func-only-lines", "C02 C11", "bad", O, "                btree_map::Entry::Vacant(e) => {\n                    sym.remap_lines", "                btree_map::Entry::Vacant(e) => {\n                    if sym.source.lines.is_empty() && sym.source.inlines.is_empty() {\n                        continue;\n                    }\n                    sym.remap_lines"),
 ("p-swap-order", "C02", "ok", O, "if left.symbols.len() > right.symbols.len() {", "if left.symbols.len() >= right.symbols.len() {"),
 # C03
 ("p-join-one", "C03", "bad", D, "            res = res.and(Err(e));", "            if num_jobs > 1 {\n                res = res.and(Err(e));\n            }"),
 ("p-default-arch", "C03 C15", "bad", D, "    let arch = Arch::from_str(config.arch)?;\n    let object_info", "    let arch = Arch::from_str(config.arch).unwrap_or_default();\n    let object_info"),
 ("p-mappings-default", "C03", "bad", MP, "        match serde_json::from_slice::<Self>(&data) {\n            Err(e) => Err(e.into()),\n            Ok(m) => Ok(m),\n        }", "        Ok(serde_json::from_slice::<Self>(&data).unwrap_or_default())"),
 ("p-elf-empty", "C23", "bad", D, "        _ => anyhow::bail!(\"Unknown file format\"),", "        _ => ObjectInfo::from_elf(&buf, filename, Platform::Linux, file_mapping, emit_inlines)?,"),
 # C04
 ("p-skip-existing", "C04", "bad", D, "    if let Some(store) = store {\n        fs::create", "    if let Some(store) = store.filter(|s| !s.exists()) {\n        fs::create"),
 ("p-only-if-dir", "C04", "bad", D, "        if dir.as_os_str().is_empty() {", "        if dir.as_os_str().is_empty() || dir.is_file() {"),
 ("p-write-once", "C04", "bad", O, "        write!(writer, \"{self}\")?;", "        let text = self.to_string();\n        let _n = writer.write(text.as_bytes())?;"),
 ("p-write-all", "C04", "ok", O, "        write!(writer, \"{self}\")?;", "        let text = self.to_string();\n        writer.write_all(text.as_bytes())?;"),
 ("p-flush-later", "C04", "bad", O, "        writer.flush()?;\n", "        writer.flush().or_else(|e| if e.kind() == std::io::ErrorKind::WriteZero { Err(e) } else { Ok(()) })?;\n"),
 ("p-interrupted", "C04 C03", "bad", O, "        write!(writer, \"{self}\")?;", "        if let Err(e) = write!(writer, \"{self}\") {\n            if e.kind() != std::io::ErrorKind::BrokenPipe {\n                return Err(e.into());\n            }\n        }"),
 ("p-stderr-out", "C04 C16", "bad", D, "        FileOutput::Stderr => Box::new(std::io::stderr().lock()),", "        FileOutput::Stderr => Box::new(std::io::stdout().lock()),"),
 # C05
 ("p-cfi-only", "C05", "bad", O, "        !self.stack.is_empty()", "        self.stack.contains(\"STACK CFI\")"),
 ("p-cfi-after-dir", "C05", "bad", D, "    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");\n", "", D, "        let fo = FileOutput::Path(store);\n", "        anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");\n        let fo = FileOutput::Path(store);\n"),
 ("p-cfi-file-only", "C05", "bad", D, "    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");", "    let check_cfi = check_cfi && !matches!(output, Output::File(FileOutput::Stdout));\n    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");"),
 ("p-cfi-warn", "C05", "bad", D, "    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");", "    if check_cfi && !object_info.has_stack() {\n        error!(\"No CFI data\");\n        return Ok(());\n    }"),
 ("p-cfi-ok", "C05", "ok", D, "    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");", "    if check_cfi && !object_info.has_stack() {\n        error!(\"No CFI data for {}\", object_info.get_name());\n        anyhow::bail!(\"No CFI data\");\n    }"),
 ("p-cfi-always", "C05", "bad", D, "    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");", "    anyhow::ensure!(!check_cfi && !matches!(output, Output::Store(_)) || object_info.has_stack(), \"No CFI data\");"),
 # C06
 ("p-inline-hash", "C06", "bad", IO, "    pub fn get_list(self) -> Vec<String> {\n        self.demangled_names\n", "    pub fn get_list(self) -> Vec<String> {\n        let used: Vec<u32> = self.index_for_mangled_name.values().copied().collect();\n        used.into_iter().map(|i| self.demangled_names[i as usize].clone()).collect()\n"),
 ("p-name-thread", "C06", "bad", S, "        String::from(\"<unknown>\")\n    } else {\n        format!(\"<unknown in {name}>\")", "        format!(\"<unknown {:?}>\", std::thread::current().id())\n    } else {\n        format!(\"<unknown in {name}>\")"),
 ("p-unstable", "C06", "ok", L, "            self.lines.sort_by_key(|x| x.rva);", "            self.lines.sort_by(|a, b| a.rva.cmp(&b.rva));"),
 # C07
 ("p-info-first", "C07", "bad", O, "                writeln!(f, \"INFO {}\", common::remove_control_chars(line))?;", "                writeln!(f, \"INFO {}\", line)?;"),
 ("p-line-marker", "C07", "bad", L, "        for line in &self.lines {\n            write_line_record(line, f)?;", "        for line in self.lines.iter().filter(|l| l.len != 0) {\n            write_line_record(line, f)?;"),
 ("p-trailing", "C07", "bad", O, "        write!(f, \"{}\", self.stack)?;", "        if !self.stack.is_empty() {\n            writeln!(f, \"{}\", self.stack)?;\n        }"),
 # C08
 ("p-dir-missing", "C08", "bad", SRC, "            compilation_dir.to_vec(),\n", "            Vec::new(),\n"),
 ("p-no-swap", "C08", "bad", SRC, "            std::mem::swap(&mut self.ref_to_id, &mut other.ref_to_id);\n            std::mem::swap(&mut self.id_to_ref", "            std::mem::swap(&mut self.id_to_ref"),
 ("p-absolute", "C08", "bad", SRC, "        if !platform.is_absolute_path(&dir) && !compilation_dir.is_empty() {", "        if dir.is_empty() && !compilation_dir.is_empty() {"),
 ("p-remap-skip", "C08", "bad", S, "            for line in self.source.lines.iter_mut() {", "            for line in self.source.lines.iter_mut().filter(|l| l.file_id != 0) {"),
 # C09
 ("p-origin-trim", "C09", "bad", O, "        for (n, function_name) in self.inline_origins.iter().enumerate() {", "        for (n, function_name) in self.inline_origins.iter().filter(|n| !n.is_empty()).enumerate() {"),
 ("p-origin-parent", "C09", "bad", C, "            let inline_origin_id = inline_origins.get_id(&inlinee.name);", "            let inline_origin_id = inline_origins.get_id(if inlinee.name.as_str().is_empty() { &fun.name } else { &inlinee.name });"),
 # C10
 ("p-thumb", "C10", "bad", C, "                        rva: sym.address as u32,\n                        len: sym.size as u32,", "                        rva: sym.address as u32 & !1,\n                        len: sym.size as u32,"),
 ("p-min-len", "C10", "bad", C, "                len: fun.size as u32,\n                parameter_size: 0,", "                len: fun.size.max(1) as u32,\n                parameter_size: 0,"),
 ("p-rev", "C10", "bad", O, "        for (_, sym) in self.symbols.iter() {\n            write!", "        for (_, sym) in self.symbols.range(1..).chain(self.symbols.range(..1)) {\n            write!"),
 ("p-len-sym", "C10", "bad", C, "                        if let Some(size) = parsed_win_name.param_size {", "                        sym.rva = sym.rva.max(1);\n                        if let Some(size) = parsed_win_name.param_size {"),
 # C11
 ("p-skip-at", "C11", "bad", S, "fn is_constant_string(name: &str) -> bool {\n    name.starts_with(\"??_C\")", "fn is_constant_string(name: &str) -> bool {\n    name.starts_with(\"??_\")"),
 ("p-inside-any", "C11", "bad", S, "last.is_some_and(|last| rva - last.1.rva < last.1.len)", "last.is_some_and(|last| rva - last.1.rva < last.1.len || last.1.is_synthetic)"),
 ("p-zero-func", "C11", "bad", C, "        if fun.address == 0 {\n            return;", "        if fun.address == 0 && fun.size == 0 {\n            return;"),
 # C12
 ("p-overlap", "C12", "bad", L, "                if current.rva.checked_add(current.len) == Some(next.rva) {", "                if current.rva.saturating_add(current.len) >= next.rva {"),
 ("p-finalize-some", "C12", "bad", C, "        lines.finalize(fun.address as u32, fun.size as u32);", "        if fun.size != 0 {\n            lines.finalize(fun.address as u32, fun.size as u32);\n        }"),
 # C13
 ("p-default-server", "C13", "bad", K, "    let conf = home.join(\".dump_syms\").join(\"config\");\n    if !conf.exists() {\n        return None;\n    }", "    let conf = home.join(\".dump_syms\").join(\"config\");\n    if !conf.exists() {\n        return read_config_from_str(\"srv\");\n    }"),
 ("p-pe-always", "C13", "bad", W, "        } else if let Some(pdb_buf) = pdb {\n            Some((pe, pdb_buf, pdb_name))", "        } else if let Some(pdb_buf) = pdb.filter(|b| b.len() > 1024 || symbol_server.is_none()) {\n            Some((pe, pdb_buf, pdb_name))"),
 # C14
 ("p-cache-fetched", "C14", "bad", K, "            } else if copy_in_cache(job.cache, &buf) {", "            } else if copy_in_cache(job.cache.map(|p| p.with_extension(\"pdb\")), &buf) {"),
 ("p-head-ok", "C14", "bad", K, "            .and_then(|resp| resp.error_for_status());", ";"),
 # C16
 ("p-log-mixed", "C16", "bad", MAIN, "TerminalMode::Stderr", "TerminalMode::Mixed"),
 # C17
 ("p-lower", "C17", "bad", D, "        pb.push(utils::get_path_for_sym(name, object_info.get_debug_id()));", "        pb.push(utils::get_path_for_sym(name, &object_info.get_debug_id().to_lowercase()));"),
 ("p-trim-name", "C17", "bad", U, "        _ => format!(\"{file_name}.sym\"),", "        _ => format!(\"{}.sym\", file_name.trim_end_matches(\".so\")),"),
 # C19
 ("p-c-demangle", "C19", "bad", C, "        if let Language::C = name.language() {\n            return name.as_str().to_string();\n        }\n\n        match name.demangle(demangle_options())", "        if let Language::C | Language::Unknown = name.language() {\n            return name.as_str().to_string();\n        }\n\n        match name.demangle(demangle_options())"),
 ("p-fix-c-only", "C19", "bad", IO, "            return name.as_str().to_string();\n        }\n\n        match", "            return name.as_str().trim_start_matches('_').to_string();\n        }\n\n        match"),
 # C20
 ("p-ext-unwrap", "C20", "bad", PDB, "    &pdb_name[index..]", "    &pdb_name[index..pdb_name.len() - 4]"),
 ("p-reserve", "C20", "bad", S, "                    let mut out: Vec<u8> = Vec::new();", "                    let mut out: Vec<u8> = Vec::with_capacity(header.sh_addralign as usize * length);"),
 # C21
 ("p-group-empty", "C21", "bad", MP, "                            } else {\n                                return Ok(None);\n                            }", "                            }"),
 ("p-vars-file", "C21", "bad", MP, "                mappings.variables.insert(k.to_string(), v.to_string());", "                mappings.variables.entry(k.to_string()).or_insert_with(|| v.to_string());"),
 ("p-digest-name", "C21", "bad", MP, "get_digest(file, uppercase)?", "get_digest(Path::new(file.file_name().unwrap_or(file.as_os_str())), uppercase)?"),
 # C22
 ("p-lossy", "C22", "ok", MP, "                return Ok(Some(unsafe { String::from_utf8_unchecked(buf) }));", "                return Ok(Some(String::from_utf8_lossy(&buf).into_owned()));"),
 # C23
 ("p-one-arch", "C23", "bad", M, "                .find(|o| o.arch() == arch)", "                .find(|o| o.arch().cpu_family() == arch.cpu_family())"),
 ("p-peek", "C23", "bad", D, "    let object_info = match peek(&buf, true /* check for fat binary */) {", "    let object_info = match peek(&buf, false) {"),
 ("p-pdb-cpu", "C18 C23", "bad", O, "        let cpu = main_object.arch().name();", "        let cpu = pe_object.map_or(main_object.arch(), |o| o.arch()).name();"),
]

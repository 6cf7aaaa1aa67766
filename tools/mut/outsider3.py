"""A third batch of bugs (and a few harmless edits) written from the texts of the properties."""
D, M, L, S, C, O, K, U, W, MP, SR, IO, CO, P, MA = ("src/" + x for x in ("dumper.rs", "main.rs", "line.rs", "symbol.rs", "collector.rs", "object_info.rs", "cache.rs", "utils.rs",
    "windows/utils.rs", "mapping.rs", "source.rs", "inline_origins.rs", "common.rs", "platform.rs", "mac.rs"))
V = [
 # C01
 ("q-only-panic", "C01", "bad", D, "if !matches!(res, Ok(Ok(()))) {", "if res.is_err() {"),
 ("q-zero-files", "C01", "bad", D, "config.num_jobs.max(1).min(filenames.len())", "config.num_jobs.min(filenames.len()).max(1)"),
 ("q-zero-return", "C01", "ok", D, "config.num_jobs.max(1).min(filenames.len())", "config.num_jobs.min(filenames.len()).max(1)", D, "    let results = Arc::new(Mutex", "    if filenames.is_empty() {\n        return Ok(());\n    }\n    let results = Arc::new(Mutex"),
 ("q-zero-if", "C01", "ok", D, "config.num_jobs.max(1).min(filenames.len())", "if config.num_jobs == 0 { 1.min(filenames.len()) } else { config.num_jobs.min(filenames.len()) }"),
 ("q-zero-if2", "C01", "ok", D, "config.num_jobs.max(1).min(filenames.len())", "if config.num_jobs.max(1) < filenames.len() { config.num_jobs.max(1) } else { filenames.len() }"),
 ("q-session-flatten", "C03", "ok", C, "        for fun in ds.functions() {\n            match fun {\n                Ok(fun) => {\n                    self.collect_function(&fun, source, inline_origins);\n                }\n                Err(e) => {\n                    error!(\"Function collection: {e:?}\");\n                }\n            }\n        }\n", "        ds.functions()\n            .filter_map(|f| f.inspect_err(|e| error!(\"Function collection: {e:?}\")).ok())\n            .for_each(|fun| self.collect_function(&fun, source, inline_origins));\n"),
 ("q-session-let", "C03", "ok", C, "        for fun in ds.functions() {\n            match fun {\n                Ok(fun) => {\n                    self.collect_function(&fun, source, inline_origins);\n                }\n                Err(e) => {\n                    error!(\"Function collection: {e:?}\");\n                }\n            }\n        }\n", "        let mut functions = ds.functions();\n        while let Some(fun) = functions.next() {\n            let fun = match fun {\n                Ok(fun) => fun,\n                Err(e) => {\n                    error!(\"Function collection: {e:?}\");\n                    continue;\n                }\n            };\n            self.collect_function(&fun, source, inline_origins);\n        }\n"),
 ("q-count-modules", "C01", "bad", D, "AtomicUsize::new(filenames.len())", "AtomicUsize::new(filenames.len().max(num_jobs + 1))"),
 ("q-dump-count", "C01", "bad", D, "                self::store(&output, check_cfi, d)?;\n                continue;", "                self::store(&output, check_cfi, d)?;"),
 # C02
 ("q-synth-early", "C02 C11", "bad", O, "            if sym.is_public {\n                // No line", "            if sym.is_public && sym.is_synthetic && sym.len == 0 {\n                continue;\n            }\n\n            if sym.is_public {\n                // No line"),
 ("q-keep-prev", "C02", "bad", D, "                let info = if let Some(prev) = results.remove(&key) {", "                let info = if let Some(prev) = results.remove(&key).filter(|p: &ObjectInfo| p.get_name() == info.get_name()) {"),
 ("q-small-merge", "C02", "bad", O, "        let file_remapping = left.files.merge(", "        if right.symbols.is_empty() {\n            return Ok(left);\n        }\n        let file_remapping = left.files.merge("),
 ("q-stack-max", "C02", "bad", O, "        } else if !right.stack.is_empty() {", "        } else if right.stack.len() < left.stack.len() && !right.stack.is_empty() {"),
 # C03
 ("q-join-ok", "C03", "bad", D, "if let Err(e) = receiver.join().unwrap() {", "if let Ok(Err(e)) = receiver.join() {"),
 ("q-cab-partial", "C03", "bad", U, "    if reader.read_to_end(&mut buf).is_err() {\n        None\n    } else {\n        Some(buf)\n    }", "    if reader.read_to_end(&mut buf).is_err() {\n        log::warn!(\"truncated cabinet\");\n    }\n    Some(buf)"),
 ("q-session", "C03", "bad", C, "                Err(e) => {\n                    error!(\"Function collection: {e:?}\");\n                }", "                Err(e) => {\n                    error!(\"Function collection: {e:?}\");\n                    break;\n                }"),
 ("q-list-arch", "C03", "bad", "src/action.rs", "?;", ".ok();"),
 ("q-exit", "C03", "bad", M, "        eprintln!(\"{e}\");\n        std::process::exit(1);", "        eprintln!(\"{e}\");\n        std::process::exit(if e.to_string().is_empty() { 1 } else { e.chain().len() as i32 - 1 });"),
 # C04
 ("q-take", "C04", "bad", D, "        object_info.dump(writer)?;\n\n        info!(\"Write symbols at {file}\");", "        if !matches!(file, FileOutput::Stderr) {\n            object_info.dump(writer)?;\n        }\n\n        info!(\"Write symbols at {file}\");"),
 ("q-sync", "C04", "ok", O, "        writer.flush()?;\n        Ok(())", "        Ok(writer.flush()?)"),
 ("q-dash-file", "C15", "bad", D, "        if s == \"-\" {", "        if s.ends_with('-') {"),
 # C06
 ("q-hash-inlines", "C06", "bad", L, "    pub(crate) inlines: BTreeMap<InlineSite, Vec<InlineAddressRange>>,", "    pub(crate) inlines: std::collections::HashMap<InlineSite, Vec<InlineAddressRange>>,", L, "            inlines: BTreeMap::new(),", "            inlines: Default::default(),", L, "    collections::BTreeMap,\n", ""),
 ("q-cwd", "C06", "bad", SR, "            dir = platform.join_paths(&comp_dir, &dir);\n        };", "            dir = platform.join_paths(&comp_dir, &dir);\n        } else if !platform.is_absolute_path(&dir) {\n            dir = platform.join_paths(&std::env::current_dir().unwrap().to_string_lossy(), &dir);\n        };"),
 ("q-debug-name", "C06", "bad", C, "        _ => \"<name omitted>\".to_string(),", "        _ => format!(\"<name omitted {:p}>\", &self.syms),") if 0 else
 ("q-debug-name", "C06", "bad", C, "                        _ => \"<name omitted>\".to_string(),", "                        _ => format!(\"<name omitted {:p}>\", o),"),
 # C07
 ("q-file-raw", "C07", "bad", O, "writeln!(f, \"FILE {n} {}\", common::remove_control_chars(file_name))?;", "writeln!(f, \"FILE {n} {}\", file_name.trim())?;"),
 ("q-code-raw", "C07", "bad", O, "            writeln!(f, \"{}\", common::remove_control_chars(line.trim()))?;", "            writeln!(f, \"{}\", line.trim())?;"),
 ("q-ctrl", "C07", "bad", CO, "name.chars().filter(|c| !c.is_ascii_control()).collect()", "name.chars().filter(|c| *c != '\\n' && *c != '\\0').collect()"),
 ("q-m-public", "C07", "bad", S, "                \"PUBLIC {}{:x} {:x} {}\",\n                if self.is_multiple { \"m \" } else { \"\" },", "                \"PUBLIC {}{:x} {:x} {}\",\n                if self.is_multiple && !self.is_synthetic { \"m \" } else { \"\" },"),
 ("q-empty-inline", "C07", "ok", L, "    for range in ranges {\n        write!(f, \" {:x} {:x}\", range.rva, range.len)?;\n    }", "    ranges.iter().try_for_each(|range| write!(f, \" {:x} {:x}\", range.rva, range.len))?;"),
 # C08
 ("q-remap-get", "C08", "bad", S, "line.file_id = file_remapping[line.file_id as usize];", "line.file_id = file_remapping.get(line.num as usize).copied().unwrap_or(line.file_id);"),
 ("q-remap-twice", "C08", "bad", O, "                    if a_sym.is_public || a_sym.is_synthetic {\n", "                    sym.remap_lines(file_remapping.as_deref());\n                    if a_sym.is_public || a_sym.is_synthetic {\n"),
 ("q-lower-path", "C08", "bad", SR, "match self.ref_to_id.entry(path.clone()) {", "match self.ref_to_id.entry(path.to_lowercase()) {"),
 ("q-prev-line", "C08", "bad", C, "            if prev.as_ref() != Some(&line_info) {", "            if prev.as_ref().map(|p: &(u64, u32)| p.0) != Some(line_info.0) {"),
 ("q-mapped-id", "C08", "bad", SR, "                        let path = new_path.unwrap_or(path);\n                        e.insert(id);", "                        let path = new_path.unwrap_or(path);\n                        let id = self.fake_id_to_ref.iter().position(|(_, p)| *p == path).map_or(id, |i| i as u32);\n                        e.insert(id);"),
 # C09
 ("q-dedup-off", "C09", "bad", IO, "    left.extend(right);\n    (offset..(offset + count)).collect()", "    let _ = (count, offset);\n    right\n        .into_iter()\n        .map(|name| match left.iter().position(|n| *n == name) {\n            Some(i) => i as u32,\n            None => {\n                left.push(name);\n                left.len() as u32\n            }\n        })\n        .collect()"),
 ("q-count-left", "C09", "bad", IO, "    left.extend(right);\n    (offset..(offset + count)).collect()", "    left.extend(right.into_iter().filter(|n| !n.is_empty()));\n    (offset..(offset + count)).collect()"),
 ("q-origin-key", "C09", "bad", IO, "        self.index_for_mangled_name.insert(name.clone(), index);\n        index", "        self.index_for_mangled_name.insert(name.clone(), index);\n        index.min(u16::MAX as u32)"),
 # C10
 ("q-end-size", "C10", "bad", C, "                        len: size,", "                        len: size.max(1),"),
 ("q-even", "C10", "bad", O, "            match left.symbols.entry(*addr) {\n                btree_map::Entry::Occupied(mut e) => {\n                    let a_sym", "            match left.symbols.entry(*addr & !1) {\n                btree_map::Entry::Occupied(mut e) => {\n                    let a_sym"),
 # C11
 ("q-public-func", "C11", "bad", C, "            if !sym.is_public {\n                sym.is_multiple = true;\n                return;", "            if !sym.is_public || sym.len == fun.size as u32 {\n                sym.is_multiple = true;\n                return;"),
 ("q-no-mark", "C11", "bad", C, "                    if sym.is_public {\n                        sym.is_multiple = true;", "                    if sym.is_public {\n                        sym.is_multiple = sym.len != 0;"),
 ("q-publics-first", "C11", "bad", O, "        collector.collect_functions(&ds, &mut source, &mut inline_origins)?;\n", "        if platform == Platform::Mac {\n            collector.collect_publics(main_object);\n        }\n        collector.collect_functions(&ds, &mut source, &mut inline_origins)?;\n"),
 # C12
 ("q-sorted-reset", "C12", "bad", L, "self.are_lines_sorted = self.are_lines_sorted && self.last_line_rva <= rva;", "self.are_lines_sorted = self.last_line_rva <= rva;"),
 ("q-len-order", "C12", "bad", L, "        self.ensure_order();\n        self.compute_len(sym_rva, sym_len);", "        self.are_lines_sorted |= self.lines.len() < 3;\n        self.ensure_order();\n        self.compute_len(sym_rva, sym_len);"),
 ("q-end-rva", "C12", "bad", C, "lines.finalize(fun.address as u32, fun.size as u32);", "lines.finalize(0, fun.end_address() as u32);") if 0 else
 ("q-end-rva", "C12", "bad", C, "lines.finalize(fun.address as u32, fun.size as u32);", "lines.finalize(fun.lines.first().map_or(fun.address, |l| l.address) as u32, fun.size as u32);"),
 # C13
 ("q-empty-srv", "C13", "bad", K, "        2 => SymbolServer {\n            cache: None,\n            server: parts[1].to_string(),", "        2 => SymbolServer {\n            cache: None,\n            server: if parts[1].starts_with(\"http\") { parts[1] } else { DEFAULT_STORE }.to_string(),"),
 ("q-local-pdb", "C13", "bad", W, "    for pdb in vec![pdb, pdb_cab].into_iter() {", "    for pdb in vec![pdb, pdb_cab].into_iter().take(1) {"),
 # C14
 ("q-copy-err", "C14", "bad", K, "            if resp.copy_to(&mut buf).is_err() {", "            if resp.copy_to(&mut buf).is_err() && buf.len() < 1024 {"),
 ("q-tmp-same", "C14", "bad", K, "        COUNTER.fetch_add(1, Ordering::Relaxed)\n", "        COUNTER.load(Ordering::Relaxed)\n"),
 ("q-no-flush", "C14", "bad", K, "        .and_then(|_| output.flush())\n        .and_then(|_| fs::rename(&tmp, &path))", "        .and_then(|_| fs::rename(&tmp, &path))\n        .and_then(|_| output.flush())"),
 ("q-status", "C14", "bad", K, "            .send()\n            .and_then(|resp| resp.error_for_status());", "            .send()\n            .and_then(|resp| if resp.status() == 410 { Ok(resp) } else { resp.error_for_status() });"),
 # C15
 ("q-type-arch", "C15", "bad", M, "    let arch = matches.get_one::<String>(\"arch\").unwrap().as_str();", "    let arch = matches.get_one::<String>(\"arch\").unwrap().as_str();\n    let arch = if arch.is_empty() { common::get_compile_time_arch() } else { arch };"),
 ("q-jobs-cpu", "C15", "bad", M, "        num_jobs\n    } else {", "        num_jobs.min(num_cpus::get())\n    } else {"),
 ("q-extra-dedup", "C15", "bad", M, "    EXTRA_INFO.set(extra_info).unwrap();", "    extra_info.dedup();\n    EXTRA_INFO.set(extra_info).unwrap();"),
 ("q-gen-store", "C15", "bad", M, "    if !*matches.get_one::<bool>(\"no-generator\").unwrap() {", "    if !*matches.get_one::<bool>(\"no-generator\").unwrap() && extra_info.is_empty() {"),
 ("q-server-single", "C15", "bad", D, "        let symbol_server = config.symbol_server.map(ToOwned::to_owned);", "        let symbol_server = config.symbol_server.filter(|_| config.debug_id.is_none()).map(ToOwned::to_owned);"),
 # C16
 ("q-err-stdout", "C16", "bad", M, "        eprintln!(\"{e}\");", "        println!(\"{e}\");"),
 ("q-term", "C16", "bad", M, "        TerminalMode::Stderr,", "        if output_is_file { TerminalMode::Mixed } else { TerminalMode::Stderr },", M, "    // Init the logger\n", "    let output_is_file = matches.contains_id(\"output\");\n    // Init the logger\n"),
 # C17
 ("q-split-first", "C17", "bad", U, "file_name.rsplit_once('.')", "file_name.split_once('.')"),
 ("q-dots-only", "C17", "bad", D, "            Path::new(name).file_name() == Some(OsStr::new(name)),", "            Path::new(name).file_name().is_some(),"),
 ("q-base-ext", "C17", "bad", U, "            \"dl_\" => {\n                path.set_extension(\"dll\");\n            }", "            \"dl_\" | \"drv\" => {\n                path.set_extension(\"dll\");\n            }"),
 # C18
 ("q-has-id", "C18", "bad", O, "self.debug_id.bytes().any(|c| c != b'0')", "!self.debug_id.is_empty()"),
 ("q-nil-pe", "C18", "bad", W, "if &pe.debug_id() == pdb_debug_id {", "if &pe.debug_id() == pdb_debug_id || pdb_debug_id.is_nil() {"),
 ("q-code-left", "C18", "bad", O, "            left.code_id = right.code_id;\n            left.pe_name = right.pe_name;", "            left.code_id = right.code_id;\n            left.pe_name = left.pe_name.or(right.pe_name);"),
 # C19
 ("q-anon-once", "C19", "bad", CO, "text.replace(\"`anonymous namespace'\", \"(anonymous namespace)\")", "text.replacen(\"`anonymous namespace'\", \"(anonymous namespace)\", 1)"),
 ("q-blank", "C19", "bad", S, "        let name = if name.trim().is_empty() {", "        let name = if name.is_empty() {"),
 ("q-blank-origin", "C19", "bad", O, "            let function_name = if function_name.trim().is_empty() {", "            let function_name = if function_name.is_empty() {"),
 ("q-win-name", "C19", "bad", C, "                        (Some(name), _) => Self::demangle_str(&name.name),", "                        (Some(name), _) if name.param_size.is_none() => Self::demangle_str(&name.name),\n                        (Some(name), _) => name.name.clone(),"),
 # C20
 ("q-ext-cut", "C20", "bad", U, "    if e.starts_with(\"pd\") {", "    if &e[..2] == \"pd\" {"),
 ("q-cab-size", "C20", "bad", U, "    let mut buf = Vec::with_capacity(size + 1);\n    let mut reader", "    let mut buf = Vec::with_capacity(size * 2);\n    let mut reader") if 0 else
 ("q-drive", "C20", "bad", P, "                first_fragment.is_empty() || first_fragment.ends_with(':')", "                first_fragment.is_empty() || &first_fragment[1..] == \":\""),
 # C21
 ("q-var-last", "C21", "bad", MP, "let pair = var.splitn(2, '=').collect::<Vec<_>>();", "let pair = var.rsplitn(2, '=').collect::<Vec<_>>();\n                let pair: Vec<_> = pair.into_iter().rev().collect();"),
 ("q-keep-first", "C21", "bad", MP, "                mappings.variables.insert(k.to_string(), v.to_string());", "                mappings.variables.entry(k.to_string()).or_insert_with(|| v.to_string());"),
 ("q-files-any", "C21", "bad", MP, "if self.files.is_empty() || self.files.contains(file_str) {", "if self.files.is_empty() || self.files.iter().any(|f| file_str.ends_with(f.as_str())) {"),
 ("q-cache-none", "C21", "bad", MP, "            let mapping = mapping.apply(file, file_str)?;", "            let mapping = mapping.apply(file, file_str).unwrap_or_default();"),
 ("q-group-0", "C21", "bad", MP, "                    ActionKind::Group(group)\n", "                    ActionKind::Group(group.max(1))\n"),
 # C22
 ("q-mut-bytes", "C22", "bad", MP, "                return Ok(Some(unsafe { String::from_utf8_unchecked(buf) }));", "                buf.truncate(4096);\n                return Ok(Some(unsafe { String::from_utf8_unchecked(buf) }));"),
 # C23
 ("q-macho-last", "C23", "bad", O, "            (Object::MachO(macho), _) => macho.name().unwrap_or(main_file_name),\n", ""),
 ("q-win-label", "C23", "bad", P, "Self::Mac => \"Mac\"", "Self::Mac => \"mac\""),
]

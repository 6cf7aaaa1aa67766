S, L, C, O, U, M, D, K, W, P, SRC, IO, MP, CM, MAIN, ACT, PDB = ("src/symbol.rs", "src/line.rs", "src/collector.rs", "src/object_info.rs", "src/utils.rs", "src/mac.rs", "src/dumper.rs", "src/cache.rs", "src/windows/utils.rs", "src/platform.rs", "src/source.rs", "src/inline_origins.rs", "src/mapping.rs", "src/common.rs", "src/main.rs", "src/action.rs", "src/windows/pdb.rs")
SEND = "    for f in filenames {\n        sender"
V = [
 # C01
 ("o-dedup-names", "C01", "bad", D, SEND, "    let mut seen = std::collections::HashSet::new();\n    for f in filenames.iter().filter(|f| seen.insert(**f)) {\n        sender"),
 ("o-jobs-zero", "C01", "bad", D, "                        num_jobs,\n                        output,", "                        config_jobs,\n                        output,", D, "        let check_cfi = config.check_cfi;\n", "        let check_cfi = config.check_cfi;\n        let config_jobs = config.num_jobs;\n"),
 ("o-skip-empty", "C01", "bad", D, "                // Without a debug id nothing says", "                if info.get_name().is_empty() {\n                    continue;\n                }\n\n                // Without a debug id nothing says"),
 ("o-lock-across-send", "C01", "bad", D, "    poison_queue(sender, num_threads);\n    Ok(())", "    if num_threads > 1 {\n        poison_queue(sender, num_threads - 1);\n    }\n    Ok(())"),
 ("o-try-recv", "C01", "bad", D, "    while let Ok(job) = receiver.recv() {", "    while let Ok(job) = receiver.recv_timeout(std::time::Duration::from_secs(5)) {"),
 ("o-filter-jobs", "C02", "bad", D, "    for f in filenames {\n        sender", "    for f in filenames.iter().filter(|f| !f.is_empty()) {\n        sender"),
 # C02
 ("o-drop-empty-publics", "C02 C11", "bad", O, "            if sym.is_public {\n                // No line info", "            if sym.is_public {\n                if sym.len == 0 && !sym.is_synthetic {\n                    continue;\n                }\n                // No line info"),
 ("o-longer-stack", "C02", "bad", O, "        } else if !right.stack.is_empty() {\n            if *left", "        } else if right.stack.len() > left.stack.len() {\n            std::mem::swap(&mut left.stack, &mut right.stack);\n        } else if right.stack.starts_with(\"STACK WIN\") {\n            if *left"),
 ("o-entry-or-insert", "C02", "ok", D, "                results.insert(key, info);", "                results.entry(key).or_insert(info);"),
 ("o-entry-replace", "C02", "bad", D, """                let info = if let Some(prev) = results.remove(&key) {
                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
                        poison_queue(&sender, num_threads);
                    })?
                } else {
                    info
                };
                results.insert(key, info);""", """                match results.remove(&key) {
                    Some(prev) => {
                        let merged = ObjectInfo::merge(info, prev).inspect_err(|_e| {
                            poison_queue(&sender, num_threads);
                        })?;
                        if merged.has_stack() {
                            results.insert(key, merged);
                        }
                    }
                    None => {
                        results.insert(key, info);
                    }
                }"""),
 ("o-release-lock", "C02", "bad", D, """                let mut results = results.lock().unwrap();
                let info = if let Some(prev) = results.remove(&key) {
                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
                        poison_queue(&sender, num_threads);
                    })?
                } else {
                    info
                };
                results.insert(key, info);""", """                let prev = results.lock().unwrap().remove(&key);
                let info = if let Some(prev) = prev {
                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
                        poison_queue(&sender, num_threads);
                    })?
                } else {
                    info
                };
                results.lock().unwrap().insert(key, info);"""),
 # C03
 ("o-res-or", "C03", "bad", D, "            res = res.and(Err(e));", "            res = res.or(Err(e));"),
 ("o-flush-ignored", "C03", "bad", O, "        writer.flush()?;\n", "        let _ = writer.flush();\n"),
 ("o-mapping-default", "C03", "bad", MP, "            let mut mappings = Mappings::new(file)?;", "            let mut mappings = Mappings::new(file).unwrap_or_default();"),
 ("o-exit-io", "C03", "bad", MAIN, "        eprintln!(\"{e}\");\n        std::process::exit(1);", "        eprintln!(\"{e}\");\n        if e.downcast_ref::<std::io::Error>().is_none() {\n            std::process::exit(1);\n        }"),
 ("o-several-arch", "C03", "bad", ACT, "                    print_macho_architectures(&buf, filename)?;", "                    if let Err(e) = print_macho_architectures(&buf, filename) {\n                        eprintln!(\"{e}\");\n                    }"),
 ("o-last-error", "C03", "bad", D, "            res = res.and(Err(e));", "            res = Err(e);\n        } else {\n            res = Ok(());"),
 ("o-unknown-format", "C03", "bad", D, "        if let Err(e) = receiver.join().unwrap() {\n            error!(\"{e}\");", "        if let Err(e) = receiver.join().unwrap() {\n            if e.to_string().starts_with(\"Unknown\") {\n                continue;\n            }\n            error!(\"{e}\");"),
 ("o-ds-error", "C03", "bad", M, "        let archive = Archive::parse(buf)?;\n        let object", "        let Ok(archive) = Archive::parse(buf) else {\n            return Ok(Self::default());\n        };\n        let object", O, "#[derive(Debug)]\npub struct ObjectInfo {", "impl Default for ObjectInfo {\n    fn default() -> Self {\n        Self { symbols: Symbols::default(), files: SourceMap::default(), inline_origins: Vec::new(), file_name: String::new(), cpu: \"unknown\", debug_id: String::new(), code_id: None, pe_name: None, stack: String::new(), bin_type: Type::Stripped, platform: Platform::Mac }\n    }\n}\n\n#[derive(Debug)]\npub struct ObjectInfo {"),
 # C04
 ("o-no-truncate", "C04", "bad", D, "            let output = std::fs::File::create(path)\n", "            let output = std::fs::OpenOptions::new()\n                .write(true)\n                .create(true)\n                .open(path)\n"),
("ok-truncate","C04 C17","ok","src/dumper.rs",'''            let output = std::fs::File::create(path)
''','''            let output = std::fs::OpenOptions::new()
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)
'''),
("ok-truncate-mut","C04 C17","ok","src/dumper.rs",'''            let output = std::fs::File::create(path)
''','''            let mut options = std::fs::OpenOptions::new();
            options.write(true).create(true);
            options.truncate(true);
            let output = options.open(path)
'''),
 ("o-append", "C04", "bad", D, "            let output = std::fs::File::create(path)\n", "            let output = std::fs::OpenOptions::new()\n                .append(true)\n                .create(true)\n                .open(path)\n"),
 ("o-store-exists", "C04", "bad", D, "    if let Some(store) = store {\n        fs::create_dir_all", "    if let Some(store) = store.filter(|s| !s.exists()) {\n        fs::create_dir_all"),
 ("o-dump-once", "C04", "bad", D, "    if let Some(file) = foutput {", "    if let Some(file) = foutput.filter(|_| object_info.has_debug_id()) {"),
 ("o-dump-write", "C04", "bad", O, "        write!(writer, \"{self}\")?;", "        let text = self.to_string();\n        let _ = writer.write(text.as_bytes())?;"),
 # C05
 ("o-cfi-dbg", "C05", "bad", O, "        !self.stack.is_empty()\n", "        !self.stack.is_empty() || self.bin_type == Type::DebugInfo\n"),
 ("o-cfi-late", "C05", "bad", D, "    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");\n\n", "", D, "    if let Some(file) = foutput {\n", "    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");\n\n    if let Some(file) = foutput {\n"),
 ("o-cfi-create", "C05", "bad", D, "    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");\n\n", "    if let Output::File(FileOutput::Path(p)) = output {\n        fs::File::create(p)?;\n    }\n    anyhow::ensure!(!check_cfi || object_info.has_stack(), \"No CFI data\");\n\n"),
 ("o-cfi-several", "C05", "bad", D, "        let check_cfi = config.check_cfi;\n", "        let check_cfi = config.check_cfi && i == 0;\n"),
 # C06
 ("o-time", "C06", "bad", MAIN, "            \"GENERATOR mozilla/dump_syms {}\",\n            env!(\"CARGO_PKG_VERSION\")", "            \"GENERATOR mozilla/dump_syms {} {}\",\n            env!(\"CARGO_PKG_VERSION\"),\n            std::env::var(\"HOSTNAME\").unwrap_or_default()"),
 ("o-hash-merge", "C06", "bad", SRC, "        other_ids.sort_by_key(|(_, id)| **id);\n", ""),
 ("o-hash-len", "C06", "bad", SRC, "        other_ids.sort_by_key(|(_, id)| **id);\n", "        other_ids.sort_by_key(|(path, _)| path.len());\n"),
 # C07
 ("o-newline-only", "C07", "bad", CM, "filter(|c| !c.is_ascii_control())", "filter(|c| *c != '\\n')"),
 ("o-param-dec", "C07", "bad", S, "                \"PUBLIC {}{:x} {:x} {}\",", "                \"PUBLIC {}{:x} {} {}\","),
 ("o-inline-origin-raw", "C07", "bad", IO, "        name.retain(|c| !c.is_ascii_control());\n", "        name.retain(|c| c != '\\r');\n"),
 ("o-lines-first", "C07", "bad", L, "        for (site, ranges) in inlines {\n            write_inline_record(site, ranges, f)?;\n        }\n", "        let (first, rest) = inlines.split_at(inlines.len().min(1000));\n        for (site, ranges) in first {\n            write_inline_record(site, ranges, f)?;\n        }\n", L, "            write_line_record(line, f)?;\n        }\n", "            write_line_record(line, f)?;\n        }\n        for (site, ranges) in rest {\n            write_inline_record(site, ranges, f)?;\n        }\n"),
 ("o-info-extra", "C07", "bad", O, "            let pe_name = self.pe_name.as_deref().unwrap_or_default();\n            let line = format!(\"INFO CODE_ID {code_id} {pe_name}\");", "            let pe_name = self.pe_name.as_deref().unwrap_or_default();\n            let line = format!(\"CODE_ID {code_id} {pe_name}\");"),
 ("o-mult-order", "C07", "bad", S, "                \"FUNC {}{:x} {:x} {:x} {}\",\n                if self.is_multiple { \"m \" } else { \"\" },\n                self.rva,", "                \"FUNC {:x} {}{:x} {:x} {}\",\n                self.rva,\n                if self.is_multiple { \"m \" } else { \"\" },"),
 # C08
 ("o-cache-nodir", "C08", "bad", SRC, "            compilation_dir.to_vec(),\n            file.dir_str().into_owned(),", "            if file.dir_str().is_empty() {\n                compilation_dir.to_vec()\n            } else {\n                Vec::new()\n            },\n            file.dir_str().into_owned(),"),
 ("o-remap-some", "C08", "bad", S, "            for line in self.source.lines.iter_mut() {\n                line.file_id = file_remapping[line.file_id as usize];", "            for line in self.source.lines.iter_mut().filter(|l| l.len > 0) {\n                line.file_id = file_remapping[line.file_id as usize];"),
 ("o-true-id-late", "C08", "bad", C, "                        InlineSite {\n                            inline_origin_id,\n                            call_depth,\n                            call_line_number,\n                            call_file_id,", "                        InlineSite {\n                            inline_origin_id,\n                            call_depth,\n                            call_line_number,\n                            call_file_id: if call_depth == 0 { call_file_id } else { source.get_true_id(call_file_id) },"),
 ("o-mapped-key", "C08", "bad", SRC, "                        let path = new_path.unwrap_or(path);\n                        e.insert(id);", "                        let path = new_path.unwrap_or(path);\n                        if let Some(i) = self.fake_id_to_ref.iter().position(|(_, p)| p.ends_with(&path)) {\n                            return i as u32;\n                        }\n                        e.insert(id);"),
 ("o-remap-public", "C08", "bad", O, "                    if a_sym.is_public || a_sym.is_synthetic {\n                        // FUNC is more interesting than the PUBLIC or than a synthetic one\n                        // so just keep the FUNC\n                        sym.remap_lines(file_remapping.as_deref());", "                    if a_sym.is_public || a_sym.is_synthetic {\n                        // FUNC is more interesting than the PUBLIC or than a synthetic one\n                        // so just keep the FUNC\n                        if a_sym.is_public {\n                            sym.remap_lines(file_remapping.as_deref());\n                        }"),
 # C09
 ("o-key-str", "C09", "bad", IO, "    index_for_mangled_name: HashMap<Name<'a>, u32>,", "    index_for_mangled_name: HashMap<String, u32>,\n    marker: std::marker::PhantomData<&'a ()>,", IO, "self.index_for_mangled_name.get(name)", "self.index_for_mangled_name.get(&name.as_str().to_lowercase())", IO, "self.index_for_mangled_name.insert(name.clone(), index);", "self.index_for_mangled_name\n            .insert(name.as_str().to_lowercase(), index);"),
 ("o-depth-same", "C09", "bad", C, "                call_depth + 1,\n", "                call_depth + u32::from(!inlinee.inlinees.is_empty()),\n"),
 ("o-origin-outer", "C09", "bad", C, "            let inline_origin_id = inline_origins.get_id(&inlinee.name);", "            let inline_origin_id = inline_origins.get_id(if inlinee.inline { &inlinee.name } else { &fun.name });"),
 # C10
 ("o-key-align", "C10", "bad", S, "                    syms.entry(rva).or_insert(Symbol {\n                        name: symbol_name,", "                    syms.entry(rva & !1).or_insert(Symbol {\n                        name: symbol_name,"),
 ("o-len-round", "C10", "bad", C, "                len: fun.size as u32,\n                parameter_size: 0,", "                len: (fun.size as u32).max(1),\n                parameter_size: 0,"),
 ("o-thumb", "C10", "bad", C, "                        rva: sym.address as u32,\n                        len: sym.size", "                        rva: sym.address as u32 & !1,\n                        len: sym.size"),
 # C11
 ("o-inside-incl", "C11", "bad", S, "self.range((Included(0), Excluded(rva))).next_back();", "self.range((Included(0), Included(rva))).next_back();"),
 ("o-inside-off", "C11", "bad", S, "rva - last.1.rva < last.1.len", "rva - last.1.rva <= last.1.len"),
 ("o-pub-over-func", "C11", "bad", O, "                        if e.get().is_synthetic {\n                            // Always replace", "                        if e.get().is_synthetic || e.get().name.is_empty() {\n                            // Always replace"),
 ("o-func-longer", "C11", "bad", C, "            if !sym.is_public {\n                sym.is_multiple = true;\n                return;", "            if !sym.is_public && sym.len >= fun.size as u32 {\n                sym.is_multiple = true;\n                return;"),
 # C12
 ("o-mark-strict", "C12", "bad", L, "self.are_lines_sorted = self.are_lines_sorted && self.last_line_rva <= rva;", "self.are_lines_sorted = self.last_line_rva <= rva;"),
 ("o-dedup-overlap", "C12", "bad", L, "if current.rva.checked_add(current.len) == Some(next.rva) {", "if current.rva.checked_add(current.len) >= Some(next.rva) {"),
 ("o-ranges-unsorted", "C12", "bad", L, "            ranges.sort_by_key(|range| range.rva);\n", "            if ranges.len() > 2 {\n                ranges.sort_by_key(|range| range.rva);\n            }\n"),
 ("o-last-zero", "C12", "bad", L, "            if last.rva < function_end_rva {", "            if last.rva < function_end_rva && last.rva >= sym_rva {"),
 ("ok-max-rva", "C12", "ok", L, "        self.last_line_rva = rva;\n", "        self.last_line_rva = self.last_line_rva.max(rva);\n"),
 # C13
 ("o-first-cache", "C13", "bad", K, "servers.iter().filter_map(|x| x.cache.as_ref())", "servers.iter().take(1).filter_map(|x| x.cache.as_ref())"),
 ("o-default-store", "C13", "bad", K, "    if servers.is_empty() {\n        None\n    } else {", "    if servers.is_empty() {\n        parse_srv(\"srv\").map(|s| vec![s])\n    } else {"),
 ("o-env-server", "C13", "bad", K, "    symbol_server.map_or_else(read_config, read_config_from_str)", "    symbol_server\n        .map_or_else(read_config, read_config_from_str)\n        .or_else(|| read_config_from_str(&std::env::var(\"_NT_SYMBOL_PATH\").ok()?))"),
 ("o-local-nocwd", "C13", "bad", W, "    pdb.push(pdb_filename);\n    if pdb.is_file() {\n        Some", "    pdb.push(pdb_filename);\n    if pdb.is_file() && path.is_absolute() {\n        Some"),
 ("o-cache-isempty", "C13", "bad", K, "        if path.exists() {\n            return Some(path);", "        if path.metadata().is_ok_and(|m| m.len() > 4096) {\n            return Some(path);"),
 # C14
 ("o-tmp-shared", "C14", "bad", K, "    let tmp = path.with_extension(format!(\n        \"{}-{}.tmp\",\n        std::process::id(),\n        COUNTER.fetch_add(1, Ordering::Relaxed)\n    ));", "    let tmp = path.with_extension(format!(\n        \"{}.tmp\",\n        COUNTER.fetch_add(1, Ordering::Relaxed)\n    ));"),
 ("o-no-status", "C14", "bad", K, "            .send()\n            .and_then(|resp| resp.error_for_status());", "            .send();"),
 ("o-copy-partial", "C14", "bad", K, "            if resp.copy_to(&mut buf).is_err() {\n                None\n            } else if", "            let failed = resp.copy_to(&mut buf).is_err();\n            if failed && buf.is_empty() {\n                None\n            } else if"),
 ("o-notfound-case", "C14", "bad", K, "data.starts_with(b\"Symbol Not Found\")", "data == b\"Symbol Not Found\""),
 ("o-job-cache", "C14", "bad", K, "            let job = Job::new(\n                path,\n                format!(\"{}/{}/{}/{}_\", server.server, file_name, id, compressed),", "            let job = Job::new(\n                path.map(|p| p.with_file_name(format!(\"{compressed}_\"))),\n                format!(\"{}/{}/{}/{}_\", server.server, file_name, id, compressed),"),
 # C15
 ("o-code-first", "C15", "bad", D, "config.debug_id.or(config.code_id)", "config.debug_id.and(config.code_id)"),
 ("o-jobs-parse", "C15", "bad", MAIN, "        num_jobs\n    } else {\n        num_cpus::get()\n    };", "        num_jobs.min(num_cpus::get() / 2)\n    } else {\n        num_cpus::get()\n    };"),
 ("o-inlines-several", "C15", "bad", D, "                collect_inlines: config.emit_inlines,\n", "                collect_inlines: config.emit_inlines && config.num_jobs > 1,\n"),
 ("o-mapping-clone", "C15", "bad", D, "                file_mapping.clone(),\n                symbol_server,", "                None,\n                symbol_server,"),
 ("o-gen", "C15", "bad", MAIN, "    if !*matches.get_one::<bool>(\"no-generator\").unwrap() {", "    if extra_info.is_empty() || !*matches.get_one::<bool>(\"no-generator\").unwrap() {"),
 # C16
 ("o-print-warn", "C16", "bad", D, "            log::warn", "            log::warn") if False else ("o-println", "C16", "bad", C, "                    error!(\"Function collection: {e:?}\");", "                    println!(\"Function collection: {e:?}\");"),
 ("o-mixed", "C16", "bad", MAIN, "TerminalMode::Stderr", "TerminalMode::Mixed"),
 ("o-stdout-nolock", "C16", "bad", D, "Box::new(std::io::stdout().lock())", "Box::new(std::io::stdout())"),
 ("o-info-stdout", "C16", "bad", MAIN, "    if let Err(e) = action.action(&filenames) {\n        eprintln!(\"{e}\");", "    if let Err(e) = action.action(&filenames) {\n        use std::io::Write;\n        let _ = writeln!(std::io::stdout(), \"{e}\");"),
 ("o-stderr-fd", "C16", "bad", D, "FileOutput::Stderr => Box::new(std::io::stderr().lock())", "FileOutput::Stderr => Box::new(std::io::stdout().lock())"),
 # C17
 ("o-name-dotdot", "C17", "bad", D, "            Path::new(name).file_name() == Some(OsStr::new(name)),", "            !name.starts_with('/') && !name.starts_with(\"..\"),"),
 ("o-id-lower", "C17", "bad", U, "    pb.push(id);\n", "    pb.push(id.trim_start_matches('0'));\n"),
 ("o-sym-ext", "C17", "bad", U, "Some((basename, ext)) if ext.to_lowercase() == \"pdb\"", "Some((basename, ext)) if ext.to_lowercase() == \"pdb\" || ext == \"dll\""),
 ("o-sym-case", "C17", "bad", U, "ext.to_lowercase() == \"pdb\"", "ext.eq(\"pdb\")"),
 # C18
 ("o-uuid-only", "C18", "bad", W, "if &pe.debug_id() == pdb_debug_id {", "if pe.debug_id().uuid() == pdb_debug_id.uuid() {"),
 ("o-merge-prefix", "C18", "bad", O, "            left.debug_id == right.debug_id,\n            \"The", "            left.debug_id.starts_with(&right.debug_id[..32]),\n            \"The"),
 ("o-local-any", "C18", "bad", W, "PdbObject::parse(buf).is_ok_and(|pdb| pdb.debug_id() == pe.debug_id())", "PdbObject::parse(buf).is_ok_and(|pdb| pdb.debug_id() == pe.debug_id() || pe.debug_id().is_nil())"),
 ("o-codeid-mix", "C18", "bad", O, "            left.code_id = right.code_id;\n            left.pe_name = right.pe_name;", "            left.code_id = right.code_id;\n            left.pe_name = left.pe_name.or(right.pe_name);"),
 ("o-key-name", "C18", "bad", D, "                    path.to_string_lossy().to_string()\n", "                    filename.clone()\n"),
 # C19
 ("o-nofix", "C19", "bad", C, "        let name = Name::new(name, NameMangling::Mangled, lang);\n        let name = common::fix_symbol_name(&name);\n", "        let name = Name::new(name, NameMangling::Mangled, lang);\n"),
 ("o-fix-first", "C19", "bad", CM, "    let fixed = normalize_anonymous_namespace(&fixed);\n", "    let fixed = if fixed.contains(\"::\") {\n        normalize_anonymous_namespace(&fixed)\n    } else {\n        fixed.to_string()\n    };\n") ,
 ("o-regex", "C19", "bad", CM, "|isra|part|str)(", "|part|str)("),
 ("o-rettype", "C19", "bad", IO, "common::demangle_options()", "common::demangle_options().parameters(false)"),
 # C21
 ("o-var-file", "C21", "bad", MP, "                mappings.variables.insert(k.to_string(), v.to_string());", "                mappings.variables.entry(k.to_string()).or_insert_with(|| v.to_string());"),
 ("o-group-missing", "C21", "bad", MP, "                            } else {\n                                return Ok(None);\n                            }", "                            }"),
 ("o-var-before-digest", "C21", "bad", MP, "                let action = if action == \"DIGEST\" {\n                    ActionKind::Digest(true)", "                let action = if action.eq_ignore_ascii_case(\"digest\") {\n                    ActionKind::Digest(true)"),
 ("o-split-all", "C21", "bad", MP, "var.splitn(2, '=')", "var.rsplitn(2, '=')"),
 ("o-nofiles-rev", "C21", "bad", MP, "no_files.drain(..)", "no_files.drain(..).rev()"),
 ("o-find", "C21", "bad", MP, "self.re.captures(file_str)", "self.re.captures(&file_str.to_lowercase())"),
 # C22
 ("o-unchecked-src", "C22", "bad", SRC, "        if let Ok(s) = String::from_utf8(name.to_vec()) {\n            s\n        } else {\n            name.iter().map(|&c| c as char).collect()\n        }", "        if name.iter().any(|c| *c >= 0x80) {\n            name.iter().map(|&c| c as char).collect()\n        } else {\n            unsafe { String::from_utf8_unchecked(name.to_vec()) }\n        }"),
 ("o-group-bytes", "C22", "bad", MP, "                                    buf.extend_from_slice(group.as_bytes());\n                                }\n                            } else {", "                                    buf.extend(group.bytes().take(4096));\n                                }\n                            } else {"),
 # C23
 ("o-nofat", "C23", "bad", D, "peek(&buf, true /* check for fat binary */)", "peek(&buf, buf.len() < (1 << 31))"),
 ("o-pdb-name", "C23", "bad", D, "        let pdb = ObjectInfo::from_pdb(\n            pdb,\n            &pdb_name,\n            Some(filename),", "        let pdb = ObjectInfo::from_pdb(\n            pdb,\n            filename,\n            Some(filename),"),
 ("o-arch-first", "C23", "bad", M, "                .find(|o| o.arch() == arch)", "                .max_by_key(|o| o.arch() == arch)"),
 ("o-win-slash", "C23", "bad", PDB, "pdb_name.rfind('\\\\')", "pdb_name.find('\\\\')"),
 ("o-minidebug", "C11", "bad", O, "            if let Ok(o) = Object::parse(&buf) {\n                collector.collect_publics(&o);", "            if let Ok(o) = Object::parse(&buf) {\n                if collector.syms.is_empty() {\n                    collector.collect_publics(&o);\n                }"),
 ('ok-win1', 'C23', 'ok', 'src/windows/pdb.rs', "    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);\n    &pdb_name[index..]", "    pdb_name.rsplit('\\\\').next().unwrap_or(pdb_name)"),
 ('ok-win2', 'C23', 'ok', 'src/windows/pdb.rs', "    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);\n    &pdb_name[index..]", "    pdb_name.rsplit_once('\\\\').map_or(pdb_name, |(_, name)| name)"),
 ('ok-win3', 'C23', 'ok', 'src/windows/pdb.rs', "    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);\n    &pdb_name[index..]", "    match pdb_name.rfind('\\\\') {\n        Some(i) => &pdb_name[i + 1..],\n        None => pdb_name,\n    }"),
 ('ok-win4', 'C23', 'ok', 'src/windows/pdb.rs', "    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);\n    &pdb_name[index..]", "    pdb_name.split('\\\\').next_back().unwrap_or(pdb_name)"),
 ('ok-win5', 'C23', 'ok', 'src/windows/pdb.rs', "    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);\n    &pdb_name[index..]", "    pdb_name.split('\\\\').last().unwrap_or(pdb_name)"),
 ('ok-win6', 'C23', 'ok', 'src/windows/pdb.rs', "    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);\n    &pdb_name[index..]", "    if let Some((_, name)) = pdb_name.rsplit_once('\\\\') {\n        return name;\n    }\n    pdb_name"),
 ('ok-win7', 'C23', 'ok', 'src/windows/pdb.rs', "    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);\n    &pdb_name[index..]", "    let start = match pdb_name.rfind('\\\\') {\n        Some(i) => i + 1,\n        None => 0,\n    };\n    &pdb_name[start..]"),
 ('ok-win8', 'C23', 'ok', 'src/windows/pdb.rs', "    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);\n    &pdb_name[index..]", "    pdb_name.rsplitn(2, '\\\\').next().unwrap()"),
]

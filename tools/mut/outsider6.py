"""Options, symbols, platforms: more bugs and rewritings."""
D = "src/dumper.rs"; Y = "src/symbol.rs"; N = "src/main.rs"; F = "src/platform.rs"; X = "src/mac.rs"; O = "src/object_info.rs"; C = "src/collector.rs"
OUT = '''        let output = match (output, store) {
            (Some(out), Some(store)) => dumper::Output::FileAndStore {
                file: out.into(),
                store_directory: store.into(),
            },
            (Some(out), None) => dumper::Output::File(out.into()),
            (None, Some(store)) => dumper::Output::Store(store.into()),
            (None, None) => dumper::Output::File(dumper::FileOutput::Stdout),
        };
'''
JOBS = '''    let num_jobs = if let Ok(num_jobs) = matches
        .get_one::<String>("num_jobs")
        .unwrap()
        .parse::<usize>()
    {
        num_jobs
    } else {
        num_cpus::get()
    };
'''
JOIN = '''    let mut res = Ok(());
    for receiver in receivers {
        if let Err(e) = receiver.join().unwrap() {
            error!("{e}");
            res = res.and(Err(e));
        }
    }

    res
'''
DISP = '''        if self.is_public {
            writeln!(
                f,
                "PUBLIC {}{:x} {:x} {}",
                if self.is_multiple { "m " } else { "" },
                self.rva,
                self.parameter_size,
                name,
            )?;
        } else {
            writeln!(
                f,
                "FUNC {}{:x} {:x} {:x} {}",
                if self.is_multiple { "m " } else { "" },
                self.rva,
                self.len,
                self.parameter_size,
                name,
            )?;

            write!(f, "{}", self.source)?;
        }

        Ok(())
'''
KEY = '''                let key = if info.has_debug_id() {
                    info.get_debug_id().to_string()
                } else {
                    path.to_string_lossy().to_string()
                };
'''
LOCK = '''                let mut results = results.lock().unwrap();
                let info = if let Some(prev) = results.remove(&key) {
                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
                        poison_queue(&sender, num_threads);
                    })?
                } else {
                    info
                };
                results.insert(key, info);
'''
INS = "        last.is_some_and(|last| rva - last.1.rva < last.1.len)"
V = [
 # main
 ("t-out-dash-store", "C15 C04", "bad", N, "            (Some(out), Some(store)) => dumper::Output::FileAndStore {", "            (Some(\"-\"), Some(store)) => dumper::Output::Store(store.into()),\n            (Some(out), Some(store)) => dumper::Output::FileAndStore {"),
 ("t-store-empty", "C15", "bad", N, '    let store = matches.get_one::<String>("store").map(String::as_str);', '    let store = matches.get_one::<String>("store").map(|s| s.trim_end_matches(\'.\'));'),
 ("t-jobs-zero", "C15", "ok", N, JOBS, '''    let num_jobs = matches
        .get_one::<String>("num_jobs")
        .and_then(|n| n.parse::<usize>().ok())
        .unwrap_or_else(num_cpus::get);
'''),
 ("t-jobs-match", "C15", "ok", N, JOBS, '''    let num_jobs = match matches.get_one::<String>("num_jobs").unwrap().parse() {
        Ok(n) => n,
        Err(_) => num_cpus::get(),
    };
'''),
 ("t-out-nested", "C15 C04", "ok", N, OUT, '''        let output = match output {
            Some(out) => {
                let file = dumper::FileOutput::from(out);
                match store {
                    Some(store) => dumper::Output::FileAndStore {
                        file,
                        store_directory: store.into(),
                    },
                    None => dumper::Output::File(file),
                }
            }
            None => match store {
                Some(store) => dumper::Output::Store(store.into()),
                None => dumper::Output::File(dumper::FileOutput::Stdout),
            },
        };
'''),
 ("t-out-helper", "C15 C04", "ok", N, OUT, "        let output = get_output(output, store);\n", N, "fn to_vec(", '''fn get_output(output: Option<&str>, store: Option<&str>) -> dumper::Output {
    match (output.map(dumper::FileOutput::from), store) {
        (Some(file), Some(store)) => dumper::Output::FileAndStore {
            file,
            store_directory: store.into(),
        },
        (Some(file), None) => dumper::Output::File(file),
        (None, Some(store)) => dumper::Output::Store(store.into()),
        (None, None) => dumper::Output::File(dumper::FileOutput::Stdout),
    }
}

fn to_vec('''),
 ("t-exit-code", "C03", "ok", N, '''    if let Err(e) = action.action(&filenames) {
        eprintln!("{e}");
        std::process::exit(1);
    }
''', '''    let res = action.action(&filenames);
    if let Err(e) = &res {
        eprintln!("{e}");
    }
    std::process::exit(if res.is_ok() { 0 } else { 1 });
'''),
 ("t-exit-count", "C03", "bad", N, "        std::process::exit(1);\n", "        std::process::exit(filenames.len() as i32);\n"),
 ("t-arch-lower", "C15", "bad", N, '    let arch = matches.get_one::<String>("arch").unwrap().as_str();', '    let arch = matches.get_one::<String>("arch").map(String::as_str).filter(|a| !a.starts_with("arm64")).unwrap_or(common::get_compile_time_arch());'),
 ("t-map-dedup", "C15 C21", "bad", N, '    let mapping_var = matches.get_many("mapping_var").map(to_vec);', '    let mapping_var = matches.get_many("mapping_var").map(to_vec).map(|mut v| {\n        v.dedup();\n        v.reverse();\n        v\n    });'),
 ("t-info-trim", "C15", "bad", N, "                line.to_owned()\n", "                line.trim_end().to_owned()\n"),
 ("t-gen-always", "C15", "bad", N, '    if !*matches.get_one::<bool>("no-generator").unwrap() {', '    if extra_info.is_empty() || !*matches.get_one::<bool>("no-generator").unwrap() {'),
 ("t-files-dedup", "C02 C15", "bad", N, '    let filenames = to_vec(matches.get_many::<String>("filenames").unwrap());', '    let mut filenames = to_vec(matches.get_many::<String>("filenames").unwrap());\n    filenames.dedup_by_key(|f| f.rsplit(\'/\').next());'),
 # symbol
 ("t-inside-le", "C11", "bad", Y, INS, "        last.is_some_and(|last| rva - last.1.rva <= last.1.len)"),
 ("t-inside-match", "C11", "ok", Y, INS, "        match last {\n            Some((start, sym)) => rva - start < sym.len,\n            None => false,\n        }"),
 ("t-inside-any", "C11", "ok", Y, '''        let last = self.range((Included(0), Excluded(rva))).next_back();
''' + INS, '''        let Some((_, last)) = self.range(..rva).next_back() else {
            return false;
        };
        rva - last.rva < last.len''', Y, "use std::ops::Bound::{Excluded, Included};\n", ""),
 ("t-disp-early", "C07", "ok", Y, DISP, '''        let multiple = if self.is_multiple { "m " } else { "" };
        if self.is_public {
            return writeln!(
                f,
                "PUBLIC {multiple}{:x} {:x} {name}",
                self.rva, self.parameter_size
            );
        }

        writeln!(
            f,
            "FUNC {multiple}{:x} {:x} {:x} {name}",
            self.rva, self.len, self.parameter_size
        )?;
        self.source.fmt(f)
'''),
 ("t-disp-steps", "C07", "ok", Y, DISP, '''        f.write_str(if self.is_public { "PUBLIC " } else { "FUNC " })?;
        if self.is_multiple {
            f.write_str("m ")?;
        }
        write!(f, "{:x} ", self.rva)?;
        if !self.is_public {
            write!(f, "{:x} ", self.len)?;
        }
        writeln!(f, "{:x} {}", self.parameter_size, name)?;
        if !self.is_public {
            write!(f, "{}", self.source)?;
        }
        Ok(())
'''),
 ("t-disp-pub-m", "C07", "bad", Y, '''                "PUBLIC {}{:x} {:x} {}",
                if self.is_multiple { "m " } else { "" },
''', '''                "PUBLIC {}{:x} {:x} {}",
                if self.is_multiple && !self.is_synthetic { "m " } else { "" },
'''),
 ("t-sect-alloc", "C10 C11", "bad", Y, "                    let rva = header.sh_addr as u32;", "                    let rva = (header.sh_addr as u32) & !0xf;"),
 ("t-sect-insert", "C11", "bad", Y, "                    syms.entry(rva).or_insert(Symbol {", "                    syms.insert(rva, Symbol {"),
 ("t-dummy-len", "C11 C10", "bad", Y, "rva.checked_add(len.max(1))", "rva.checked_add(len)"),
 ("t-win-param", "C19", "bad", Y, 'if let Some((name, param_size)) = rest.rsplit_once(\'@\') {', 'if let Some((name, param_size)) = rest.split_once(\'@\') {'),
 ("t-remap-merge", "C08 C09", "ok", Y, '''            for line in self.source.lines.iter_mut() {
                line.file_id = file_remapping[line.file_id as usize];
            }
''', '''            self.source.lines.iter_mut().for_each(|line| {
                let old = line.file_id as usize;
                line.file_id = file_remapping[old];
            });
'''),
 ("t-remap-some", "C08", "bad", Y, "                line.file_id = file_remapping[line.file_id as usize];", "                line.file_id = file_remapping.get(line.file_id as usize).copied().filter(|&id| id != 0).unwrap_or(line.file_id);"),
 # platform
 ("t-abs-split", "C08", "ok", F, '''                let first_fragment = match path.find(['/', '\\\\']) {
                    Some(first_fragment_len) => &path[..first_fragment_len],
                    None => path,
                };
''', '''                let first_fragment = path.split(['/', '\\\\']).next().unwrap_or(path);
'''),
 ("t-join-abs", "C08", "bad", F, '''                let left = left.trim_end_matches('/');
                let right = right.trim_start_matches('/');
                format!("{left}/{right}")
''', '''                let left = left.trim_end_matches('/');
                let right = right.trim_start_matches('/').trim_start_matches("./");
                format!("{left}/{right}")
'''),
 # dumper
 ("t-join-fold", "C03", "ok", D, JOIN, '''    receivers.into_iter().fold(Ok(()), |res, receiver| {
        let worker = receiver.join().unwrap();
        if let Err(e) = &worker {
            error!("{e}");
        }
        res.and(worker)
    })
'''),
 ("t-join-first", "C03", "ok", D, JOIN, '''    let mut first = None;
    for receiver in receivers {
        if let Err(e) = receiver.join().unwrap() {
            error!("{e}");
            first.get_or_insert(e);
        }
    }

    match first {
        Some(e) => Err(e),
        None => Ok(()),
    }
'''),
 ("t-join-all", "C03", "ok", D, JOIN, '''    let errors: Vec<_> = receivers
        .into_iter()
        .filter_map(|receiver| receiver.join().unwrap().err())
        .collect();
    for e in &errors {
        error!("{e}");
    }
    errors.into_iter().next().map_or(Ok(()), Err)
'''),
 ("t-join-last", "C03", "bad", D, "            res = res.and(Err(e));\n        }\n", "            res = Err(e);\n        } else {\n            res = Ok(());\n        }\n"),
 ("t-key-method", "C02 C18", "ok", D, KEY, "                let key = module_key(&info, &path);\n", D, "#[allow(clippy::too_many_arguments)]\nfn consumer(", '''/// Without a debug id nothing says that two files belong to the same module
fn module_key(info: &ObjectInfo, path: &Path) -> String {
    match info.has_debug_id() {
        true => info.get_debug_id().to_owned(),
        false => path.to_string_lossy().into_owned(),
    }
}

#[allow(clippy::too_many_arguments)]
fn consumer('''),
 ("t-key-name", "C18", "bad", D, "                    path.to_string_lossy().to_string()\n                };", "                    filename.clone()\n                };"),
 ("t-lock-match", "C02", "ok", D, LOCK, '''                let mut results = results.lock().unwrap();
                let info = match results.remove(&key) {
                    None => info,
                    Some(prev) => match ObjectInfo::merge(info, prev) {
                        Ok(merged) => merged,
                        Err(e) => {
                            poison_queue(&sender, num_threads);
                            return Err(e);
                        }
                    },
                };
                results.insert(key, info);
'''),
 ("t-lock-helper", "C02 C01", "ok", D, LOCK, '''                record(&results, key, info).inspect_err(|_e| {
                    poison_queue(&sender, num_threads);
                })?;
''', D, "#[allow(clippy::too_many_arguments)]\nfn consumer(", '''fn record(
    results: &Mutex<HashMap<String, ObjectInfo>>,
    key: String,
    info: ObjectInfo,
) -> common::Result<()> {
    let mut results = results.lock().unwrap();
    let info = match results.remove(&key) {
        Some(prev) => ObjectInfo::merge(info, prev)?,
        None => info,
    };
    results.insert(key, info);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn consumer('''),
 ("t-lock-entry", "C02", "bad", D, "                results.insert(key, info);\n", "                results.entry(key).or_insert(info).clone_from_nothing();\n" if False else "                if info.has_stack() || info.has_debug_id() {\n                    results.insert(key, info);\n                }\n"),
 ("t-lock-unlocked", "C02", "bad", D, LOCK, '''                let prev = results.lock().unwrap().remove(&key);
                let info = if let Some(prev) = prev {
                    ObjectInfo::merge(info, prev)?
                } else {
                    info
                };
                results.lock().unwrap().insert(key, info);
'''),
 ("t-job-ref", "C01", "ok", D, '''    while let Ok(job) = receiver.recv() {
        if job.is_none() {
            return Ok(());
        }

        let JobItem {
            file,
            typ,
            mapping,
            collect_inlines,
        } = job.unwrap();
''', '''    while let Ok(Some(job)) = receiver.recv() {
        let JobItem {
            file,
            typ,
            mapping,
            collect_inlines,
        } = job;
'''),
 ("t-job-loop", "C01", "ok", D, '''    while let Ok(job) = receiver.recv() {
        if job.is_none() {
            return Ok(());
        }

        let JobItem {
            file,
            typ,
            mapping,
            collect_inlines,
        } = job.unwrap();
''', '''    loop {
        let Ok(Some(JobItem {
            file,
            typ,
            mapping,
            collect_inlines,
        })) = receiver.recv()
        else {
            break;
        };
'''),
 ("t-fat-single", "C23", "bad", X, "if archive.object_count() == 1 {", "if archive.object_count() <= 2 {"),
 ("t-fat-loop", "C23", "ok", X, '''            archive
                .objects()
                .filter_map(|o| o.ok())
                .find(|o| o.arch() == arch)
''', '''            let mut found = None;
            for o in archive.objects().flatten() {
                if o.arch() == arch {
                    found = Some(o);
                    break;
                }
            }
            found
'''),
 ("t-info-order", "C07 C15", "bad", O, "            for line in extra_info {\n                writeln!", "            for line in extra_info.iter().rev() {\n                writeln!"),
]
U = "src/utils.rs"
UNIX = """            Platform::Linux | Platform::Mac => {
                let left = left.trim_end_matches('/');
                let right = right.trim_start_matches('/');
                format!("{left}/{right}")
            }
"""
V += [
 ("t-join-dots", "C08", "bad", F, "let right = right.trim_start_matches(['/', '\\\\']);", "let right = right.trim_start_matches(['/', '\\\\', '.']);"),
 ("t-join-replace", "C08", "bad", F, 'format!("{left}\\\\{right}")', 'format!("{left}\\\\{}", right.replace(\'/\', "\\\\"))'),
 ("t-join-unixback", "C08", "bad", F, UNIX, UNIX.replace("left.trim_end_matches('/')", "left.trim_end_matches(['/', '\\\\'])")),
 ("t-join-concat", "C08", "ok", F, UNIX, UNIX.replace('format!("{left}/{right}")', '[left, right].join("/")')),
 ("t-join-push", "C08", "ok", F, UNIX, UNIX.replace('format!("{left}/{right}")', 'let mut path = String::from(left);\n                path.push(\'/\');\n                path.push_str(right);\n                path')),
 ("t-join-sep", "C08", "ok", F, """                if left.starts_with('/') {
                    format!("{left}/{right}")
                } else {
                    format!("{left}\\\\{right}")
                }
""", """                let sep = if left.starts_with('/') { '/' } else { '\\\\' };
                format!("{left}{sep}{right}")
"""),
 ("t-join-helper", "C08", "ok", F, UNIX, "            Platform::Linux | Platform::Mac => Self::join_unix(left, right),\n", F, "    pub fn join_paths(", """    fn join_unix(left: &str, right: &str) -> String {
        format!(
            "{}/{}",
            left.trim_end_matches('/'),
            right.trim_start_matches('/')
        )
    }

    pub fn join_paths("""),
 ("t-norm-dots", "C08", "bad", U, "            Component::ParentDir => {\n                ret.pop();\n            }\n            Component::Normal(c) => {\n                ret.push(c);\n            }", "            Component::ParentDir => {\n                ret.pop();\n            }\n            Component::Normal(c) => {\n                if c.len() < 255 {\n                    ret.push(c);\n                }\n            }"),
 ("t-norm-nopop", "C08", "bad", U, "            Component::ParentDir => {\n                ret.pop();\n            }\n            Component::Normal(c)", "            Component::ParentDir => {}\n            Component::Normal(c)"),
 ("t-norm-popifnot", "C08", "bad", U, "            Component::ParentDir => {\n                ret.pop();\n            }\n            Component::Normal(c)", "            Component::ParentDir => {\n                if !ret.pop() {\n                    ret.push(component.as_os_str());\n                }\n            }\n            Component::Normal(c)"),
]

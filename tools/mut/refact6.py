# Refactorings of windows/, mac.rs, linux.rs, main.rs and action.rs that change no behaviour.
ALL = "C01 C02 C03 C04 C05 C06 C07 C13 C15 C16 C17 C18 C20 C23"
V = []
def mkok(O):
    def ok(name, *e):
        V.append((name, ALL, "ok", O) + e[:2] + tuple(x for i in range(2, len(e), 2) for x in (O, e[i], e[i + 1])))
    return ok

ok = mkok("src/windows/pdb.rs")
ok("p-inline-obj", """        let pdb = Object::Pdb(pdb);
        let pe = pe.map(Object::Pe);

        ObjectInfo::from_object(
            &pdb,
            pdb_name,
            pe.as_ref(),
            pe_name,
            Platform::Win,
            mapping,
            collect_inlines,
        )
""", """        let platform = Platform::Win;
        let pe_object = match pe {
            Some(pe) => Some(Object::Pe(pe)),
            None => None,
        };
        let pdb_object = Object::Pdb(pdb);
        let info = Self::from_object(
            &pdb_object,
            pdb_name,
            pe_object.as_ref(),
            pe_name,
            platform,
            mapping,
            collect_inlines,
        )?;
        Ok(info)
""")
ok("p-name-match", """        let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();
        let pe = Object::Pe(pe);
        let pdb_name = win_path_file_name(&pdb_name).to_string();
""", """        let pdb_name = match pe.debug_file_name() {
            Some(name) => win_path_file_name(&name).to_string(),
            None => win_path_file_name(pe_name).to_string(),
        };
        let pe = Object::Pe(pe);
""")
ok("p-name-mapor", """        let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();
        let pe = Object::Pe(pe);
        let pdb_name = win_path_file_name(&pdb_name).to_string();
""", """        let pdb_name = pe
            .debug_file_name()
            .map_or_else(|| pe_name.to_string(), |name| name.into_owned());
        let pdb_name = win_path_file_name(&pdb_name).to_owned();
        let pe = Object::Pe(pe);
""")
ok("p-cut-rsplit", """    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);
    &pdb_name[index..]
""", """    pdb_name.rsplit('\\\\').next().unwrap_or(pdb_name)
""")
ok("p-cut-rsplitonce", """    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);
    &pdb_name[index..]
""", """    match pdb_name.rsplit_once('\\\\') {
        Some((_, name)) => name,
        None => pdb_name,
    }
""")
ok("p-cut-match", """    let index = pdb_name.rfind('\\\\').map_or(0, |i| i + 1);
    &pdb_name[index..]
""", """    if let Some(i) = pdb_name.rfind('\\\\') {
        &pdb_name[i + 1..]
    } else {
        pdb_name
    }
""")

ok = mkok("src/windows/utils.rs")
ok("w-find-array", """    for pdb in vec![pdb, pdb_cab].into_iter() {
        if pdb.is_file() {
            return Some(utils::read_file(pdb));
        }
    }
""", """    for candidate in [pdb, pdb_cab] {
        if candidate.is_file() {
            return Some(utils::read_file(&candidate));
        }
    }
""")
ok("w-find-ifs", """    for pdb in vec![pdb, pdb_cab].into_iter() {
        if pdb.is_file() {
            return Some(utils::read_file(pdb));
        }
    }
""", """    if pdb.is_file() {
        return Some(utils::read_file(pdb));
    }
    if pdb_cab.is_file() {
        return Some(utils::read_file(pdb_cab));
    }
""")
ok("w-find-chain", """    for pdb in vec![pdb, pdb_cab].into_iter() {
        if pdb.is_file() {
            return Some(utils::read_file(pdb));
        }
    }

    // We try in CWD
    let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
    pdb.push(pdb_filename);
    if pdb.is_file() {
        Some(utils::read_file(pdb))
    } else {
        None
    }
""", """    if let Some(pdb) = [pdb, pdb_cab].into_iter().find(|pdb| pdb.is_file()) {
        return Some(utils::read_file(pdb));
    }

    // We try in CWD
    let cwd = std::env::current_dir().expect("Unable to get the current working directory");
    let pdb = cwd.join(pdb_filename);
    pdb.is_file().then(|| utils::read_file(pdb))
""")
ok("w-os-let", """    if let Some(file_name) = pdb_path.file_name() {
        let pdb_name = file_name.to_str().unwrap().to_string();
        if pdb_path.is_file() {
            (Some(utils::read_file(pdb_path)), pdb_name)
        } else {
            (try_to_find_pdb(path, &pdb_name), pdb_name)
        }
    } else {
        (None, "".to_string())
    }
""", """    let pdb_name = match pdb_path.file_name() {
        Some(file_name) => file_name.to_str().unwrap().to_string(),
        None => return (None, String::new()),
    };
    let pdb = if pdb_path.is_file() {
        Some(utils::read_file(pdb_path))
    } else {
        try_to_find_pdb(path, &pdb_name)
    };
    (pdb, pdb_name)
""")
ok("w-get-early", """    let pe = PeObject::parse(buf).ok()?;
    if let Some(pdb_filename) = pe.debug_file_name() {
        let pdb_filename = pdb_filename.into_owned();
        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename);
        // The PDB next to the PE may come from another build
        let pdb = pdb
            .filter(|buf| PdbObject::parse(buf).is_ok_and(|pdb| pdb.debug_id() == pe.debug_id()));
        if pdb_name.is_empty() {
            log::warn!("Invalid pdb filename in PE file: \\"{pdb_filename}\\"");
            None
        } else if let Some(pdb_buf) = pdb {
            Some((pe, pdb_buf, pdb_name))
        } else {
            // Not here so try symbol server (or cache)
            let debug_id = pe.debug_id().breakpad().to_string();
            let (pdb, pdb_name) = cache::search_file(pdb_name, &debug_id, symbol_server);
            pdb.map(|pdb_buf| (pe, pdb_buf, pdb_name))
        }
    } else {
        None
    }
""", """    let pe = match PeObject::parse(buf) {
        Ok(pe) => pe,
        Err(_) => return None,
    };
    let pdb_filename = pe.debug_file_name()?.into_owned();
    let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename);
    if pdb_name.is_empty() {
        log::warn!("Invalid pdb filename in PE file: \\"{pdb_filename}\\"");
        return None;
    }

    // The PDB next to the PE may come from another build
    if let Some(pdb_buf) = pdb {
        if is_pdb_for(&pe, &pdb_buf) {
            return Some((pe, pdb_buf, pdb_name));
        }
    }

    // Not here so try symbol server (or cache)
    let debug_id = pe.debug_id().breakpad().to_string();
    match cache::search_file(pdb_name, &debug_id, symbol_server) {
        (Some(pdb_buf), pdb_name) => Some((pe, pdb_buf, pdb_name)),
        (None, _) => None,
    }
""", """#[cfg(feature = "http")]
pub fn get_pe_pdb_buf<'a>(""", """#[cfg(feature = "http")]
fn is_pdb_for(pe: &PeObject, buf: &[u8]) -> bool {
    match PdbObject::parse(buf) {
        Ok(pdb) => pdb.debug_id() == pe.debug_id(),
        Err(_) => false,
    }
}

#[cfg(feature = "http")]
pub fn get_pe_pdb_buf<'a>(""")
ok("w-pe-array", """    for ext in vec!["dll", "dl_", "exe", "ex_"].drain(..) {
        path.set_extension(ext);
""", """    for ext in ["dll", "dl_", "exe", "ex_"] {
        path.set_extension(ext);
""")
ok("w-pe-with", """    let mut path = path.to_path_buf();
    for ext in vec!["dll", "dl_", "exe", "ex_"].drain(..) {
        path.set_extension(ext);
        if path.is_file() {
            let buf = utils::read_file(&path);
            if let Ok(pe) = PeObject::parse(&buf) {
                if ext.ends_with('_') {
                    path.set_extension(fix_extension(ext));
                }
                let filename = utils::get_filename(&path);
                if &pe.debug_id() == pdb_debug_id {
                    return Some((filename, buf));
                }
            }
        }
    }
    None
""", """    for ext in ["dll", "dl_", "exe", "ex_"] {
        let candidate = path.with_extension(ext);
        if !candidate.is_file() {
            continue;
        }
        let buf = utils::read_file(&candidate);
        let same = match PeObject::parse(&buf) {
            Ok(pe) => pe.debug_id() == *pdb_debug_id,
            Err(_) => false,
        };
        if same {
            let filename = utils::get_filename(&path.with_extension(fix_extension(ext)));
            return Some((filename, buf));
        }
    }
    None
""")
ok("w-pe-order", """                if ext.ends_with('_') {
                    path.set_extension(fix_extension(ext));
                }
                let filename = utils::get_filename(&path);
                if &pe.debug_id() == pdb_debug_id {
                    return Some((filename, buf));
                }
""", """                if pe.debug_id() == *pdb_debug_id {
                    path.set_extension(fix_extension(ext));
                    return Some((utils::get_filename(&path), buf));
                }
""")

ok = mkok("src/mac.rs")
ok("a-early", """        if let Some(object) = object {
            ObjectInfo::from_object(
                &object,
                file_name,
                None,
                None,
                Platform::Mac,
                mapping,
                collect_inlines,
            )
        } else {
            anyhow::bail!(
                "Cannot find a valid object for architecture {} in file {}",
                arch.name(),
                file_name
            );
        }
""", """        let object = object.ok_or_else(|| {
            anyhow::anyhow!(
                "Cannot find a valid object for architecture {} in file {}",
                arch.name(),
                file_name
            )
        })?;

        Self::from_object(
            &object,
            file_name,
            None,
            None,
            Platform::Mac,
            mapping,
            collect_inlines,
        )
""")
ok("a-flatten", """            archive
                .objects()
                .filter_map(|o| o.ok())
                .find(|o| o.arch() == arch)
""", """            archive.objects().flatten().find(|o| o.arch() == arch)
""")
ok("a-loop", """        let object = if archive.object_count() == 1 {
            archive.object_by_index(0)?
        } else {
            archive
                .objects()
                .filter_map(|o| o.ok())
                .find(|o| o.arch() == arch)
        };
""", """        let mut object = None;
        if archive.object_count() == 1 {
            object = archive.object_by_index(0)?;
        } else {
            for candidate in archive.objects() {
                match candidate {
                    Ok(candidate) if candidate.arch() == arch => {
                        object = Some(candidate);
                        break;
                    }
                    _ => {}
                }
            }
        }
""")
ok("a-match", """        let object = if archive.object_count() == 1 {
            archive.object_by_index(0)?
        } else {
            archive
                .objects()
                .filter_map(|o| o.ok())
                .find(|o| o.arch() == arch)
        };
""", """        let object = match archive.object_count() {
            1 => archive.object_by_index(0)?,
            _ => Self::find_arch(&archive, arch),
        };
""", """impl ObjectInfo {
    pub fn from_macho(""", """impl ObjectInfo {
    fn find_arch<'a>(archive: &Archive<'a>, arch: Arch) -> Option<symbolic::debuginfo::Object<'a>> {
        archive
            .objects()
            .filter_map(Result::ok)
            .find(|object| arch == object.arch())
    }

    pub fn from_macho(""")
ok("a-print-one", """    let archs = archive
        .objects()
        .map(|o| o.map(|o| o.arch().name()))
        .collect::<Result<Vec<_>, _>>()?;
    println!(
        "{} contains the following architecture{}:",
        file_name,
        if archs.len() == 1 { "" } else { "s" }
    );
    println!("{}", archs.join(", "));

    Ok(())
""", """    let mut archs = Vec::new();
    for object in archive.objects() {
        archs.push(object?.arch().name());
    }
    let plural = if archs.len() == 1 { "" } else { "s" };
    println!("{file_name} contains the following architecture{plural}:");
    println!("{}", archs.join(", "));

    Ok(())
""")
ok("a-print-joined", """    println!(
        "{} contains the following architecture{}:",
        file_name,
        if archs.len() == 1 { "" } else { "s" }
    );
    println!("{}", archs.join(", "));
""", """    let header = match archs.len() {
        1 => format!("{file_name} contains the following architecture:"),
        _ => format!("{file_name} contains the following architectures:"),
    };
    println!("{}\\n{}", header, archs.join(", "));
""")

ok = mkok("src/linux.rs")
ok("l-match", """        let o = Object::parse(buf)?;
        Self::from_object(
            &o,
            file_name,
            None,
            None,
            platform,
            mapping,
            collect_inlines,
        )
""", """        match Object::parse(buf) {
            Ok(object) => ObjectInfo::from_object(
                &object,
                file_name,
                None,
                None,
                platform,
                mapping,
                collect_inlines,
            ),
            Err(e) => Err(e.into()),
        }
""")

ok = mkok("src/action.rs")
ok("t-match", """        if filenames.len() == 1 {
            // no need to spawn a thread for one file
            self.single_file(filenames[0])
        } else {
            self.several_files(filenames)
        }
""", """        match filenames {
            // no need to spawn a thread for one file
            [filename] => self.single_file(filename),
            _ => self.several_files(filenames),
        }
""")
ok("t-helper", """            Self::ListArch => {
                let path = PathBuf::from(filename);
                let filename = utils::get_filename(&path);

                let buf = utils::read_file(&path);
                print_macho_architectures(&buf, filename)
            }
""", """            Self::ListArch => Self::list_arch(filename),
""", """                for f in filenames {
                    let path = PathBuf::from(f);
                    let filename = utils::get_filename(&path);

                    let buf = utils::read_file(&path);
                    print_macho_architectures(&buf, filename)?;
                }
                Ok(())
""", """                for filename in filenames {
                    Self::list_arch(filename)?;
                }
                Ok(())
""", """    fn single_file(&self""", """    fn list_arch(filename: &str) -> common::Result<()> {
        let path = PathBuf::from(filename);
        let buf = utils::read_file(&path);
        print_macho_architectures(&buf, utils::get_filename(&path))
    }

    fn single_file(&self""")
ok("t-tryfor", """                for f in filenames {
                    let path = PathBuf::from(f);
                    let filename = utils::get_filename(&path);

                    let buf = utils::read_file(&path);
                    print_macho_architectures(&buf, filename)?;
                }
                Ok(())
""", """                filenames
                    .iter()
                    .try_for_each(|filename| self.single_file(filename))
""")
ok("t-flat", """        if filenames.len() == 1 {
            // no need to spawn a thread for one file
            self.single_file(filenames[0])
        } else {
            self.several_files(filenames)
        }
""", """        if let Some((first, [])) = filenames.split_first() {
            return self.single_file(first);
        }
        self.several_files(filenames)
""")

ok = mkok("src/main.rs")
ok("n-out-helper", """        let output = match (output, store) {
            (Some(out), Some(store)) => dumper::Output::FileAndStore {
                file: out.into(),
                store_directory: store.into(),
            },
            (Some(out), None) => dumper::Output::File(out.into()),
            (None, Some(store)) => dumper::Output::Store(store.into()),
            (None, None) => dumper::Output::File(dumper::FileOutput::Stdout),
        };

        Action""", """        let output = get_output(output, store);

        Action""", """fn to_vec(values""", """fn get_output(output: Option<&str>, store: Option<&str>) -> dumper::Output {
    let file = output.map(dumper::FileOutput::from);
    if let Some(store) = store {
        return match file {
            Some(file) => dumper::Output::FileAndStore {
                file,
                store_directory: store.into(),
            },
            None => dumper::Output::Store(store.into()),
        };
    }
    dumper::Output::File(file.unwrap_or(dumper::FileOutput::Stdout))
}

fn to_vec(values""")
ok("n-out-nested", """        let output = match (output, store) {
            (Some(out), Some(store)) => dumper::Output::FileAndStore {
                file: out.into(),
                store_directory: store.into(),
            },
            (Some(out), None) => dumper::Output::File(out.into()),
            (None, Some(store)) => dumper::Output::Store(store.into()),
            (None, None) => dumper::Output::File(dumper::FileOutput::Stdout),
        };
""", """        let output = if let Some(out) = output {
            let file = out.into();
            if let Some(store) = store {
                dumper::Output::FileAndStore {
                    file,
                    store_directory: store.into(),
                }
            } else {
                dumper::Output::File(file)
            }
        } else {
            match store {
                Some(store) => dumper::Output::Store(store.into()),
                None => dumper::Output::File(dumper::FileOutput::Stdout),
            }
        };
""")
ok("n-jobs", """    let num_jobs = if let Ok(num_jobs) = matches
        .get_one::<String>("num_jobs")
        .unwrap()
        .parse::<usize>()
    {
        num_jobs
    } else {
        num_cpus::get()
    };
""", """    let num_jobs = matches
        .get_one::<String>("num_jobs")
        .unwrap()
        .parse()
        .unwrap_or_else(|_| num_cpus::get());
""")
ok("n-jobs2", """    let num_jobs = if let Ok(num_jobs) = matches
        .get_one::<String>("num_jobs")
        .unwrap()
        .parse::<usize>()
    {
        num_jobs
    } else {
        num_cpus::get()
    };
""", """    let num_jobs = match matches
        .get_one::<String>("num_jobs")
        .and_then(|n| n.parse::<usize>().ok())
    {
        Some(num_jobs) => num_jobs,
        None => num_cpus::get(),
    };
""")
ok("n-exit-code", """fn main() {
    let matches""", """fn main() -> std::process::ExitCode {
    let matches""", """    if let Err(e) = action.action(&filenames) {
        eprintln!("{e}");
        std::process::exit(1);
    }
}
""", """    match action.action(&filenames) {
        Ok(()) => std::process::ExitCode::SUCCESS,
        Err(e) => {
            eprintln!("{e}");
            std::process::ExitCode::FAILURE
        }
    }
}
""")
ok("n-exit-match", """    if let Err(e) = action.action(&filenames) {
        eprintln!("{e}");
        std::process::exit(1);
    }
}
""", """    let result = action.action(&filenames);
    if result.is_ok() {
        return;
    }
    eprintln!("{}", result.unwrap_err());
    std::process::exit(1);
}
""")
ok("n-exit-else", """    if let Err(e) = action.action(&filenames) {
        eprintln!("{e}");
        std::process::exit(1);
    }
}
""", """    action.action(&filenames).unwrap_or_else(|e| {
        eprintln!("{e}");
        std::process::exit(1);
    });
}
""")
ok("n-verb", """    let verbosity = match matches.get_one::<String>("verbose").unwrap().as_str() {
        "off" => LevelFilter::Off,
        "warn" => LevelFilter::Warn,
        "info" => LevelFilter::Info,
        "debug" => LevelFilter::Debug,
        "trace" => LevelFilter::Trace,
        _ => LevelFilter::Error,
    };
""", """    let verbosity = get_verbosity(matches.get_one::<String>("verbose").unwrap());
""", """fn to_vec(values""", """fn get_verbosity(level: &str) -> LevelFilter {
    match level {
        "off" => LevelFilter::Off,
        "warn" => LevelFilter::Warn,
        "info" => LevelFilter::Info,
        "debug" => LevelFilter::Debug,
        "trace" => LevelFilter::Trace,
        _ => LevelFilter::Error,
    }
}

fn to_vec(values""")
ok("n-str-helper", """    let output = matches.get_one::<String>("output").map(String::as_str);
    let filenames""", """    let get_str = |name: &str| matches.get_one::<String>(name).map(String::as_str);
    let output = get_str("output");
    let filenames""", """    let symbol_server = matches
        .get_one::<String>("symbol_server")
        .map(String::as_str);
    let store = matches.get_one::<String>("store").map(String::as_str);
    let debug_id = matches.get_one::<String>("debug_id").map(String::as_str);
    let code_id = matches.get_one::<String>("code_id").map(String::as_str);
    let arch = matches.get_one::<String>("arch").unwrap().as_str();
""", """    let symbol_server = get_str("symbol_server");
    let store = get_str("store");
    let debug_id = get_str("debug_id");
    let code_id = get_str("code_id");
    let arch = get_str("arch").unwrap();
""", """    let mapping_file = matches
        .get_one::<String>("mapping_file")
        .map(String::as_str);
""", """    let mapping_file = get_str("mapping_file");
""")
ok("n-vec-helper", """    let mapping_var = matches.get_many("mapping_var").map(to_vec);
    let mapping_src = matches.get_many("mapping_src").map(to_vec);
    let mapping_dest = matches.get_many("mapping_dest").map(to_vec);
""", """    let mapping_var = get_values(&matches, "mapping_var");
    let mapping_src = get_values(&matches, "mapping_src");
    let mapping_dest = get_values(&matches, "mapping_dest");
""", """fn to_vec(values""", """fn get_values<'a>(matches: &'a clap::ArgMatches, name: &str) -> Option<Vec<&'a str>> {
    matches
        .get_many::<String>(name)
        .map(|values| values.map(|value| value.as_str()).collect())
}

fn to_vec(values""")
ok("n-extra-loop", """    let mut extra_info: Vec<String> = matches.get_many::<String>("extra_info").map(|values| {
        values
            .map(|line| {
                if !INFO_LINE_RE.is_match(line) {
                    panic!(
                        "Extra INFO line format is invalid: {}. Valid format is <UPPERCASE_KEYWORD> <string>",
                        line
                    );
                }
                line.to_owned()
            })
            .collect()
    }).unwrap_or_default();
""", """    let mut extra_info = Vec::new();
    if let Some(lines) = matches.get_many::<String>("extra_info") {
        for line in lines {
            if !INFO_LINE_RE.is_match(line) {
                panic!(
                    "Extra INFO line format is invalid: {}. Valid format is <UPPERCASE_KEYWORD> <string>",
                    line
                );
            }
            extra_info.push(line.clone());
        }
    }
""")
ok("n-extra-assert", """                if !INFO_LINE_RE.is_match(line) {
                    panic!(
                        "Extra INFO line format is invalid: {}. Valid format is <UPPERCASE_KEYWORD> <string>",
                        line
                    );
                }
                line.to_owned()
""", """                assert!(
                    INFO_LINE_RE.is_match(line),
                    "Extra INFO line format is invalid: {}. Valid format is <UPPERCASE_KEYWORD> <string>",
                    line
                );
                line.to_string()
""")
ok("n-extra-gen", """    if !*matches.get_one::<bool>("no-generator").unwrap() {
        extra_info.push(format!(
            "GENERATOR mozilla/dump_syms {}",
            env!("CARGO_PKG_VERSION")
        ));
    }
""", """    let generator = !matches.get_flag("no-generator");
    if generator {
        let version = env!("CARGO_PKG_VERSION");
        extra_info.push(format!("GENERATOR mozilla/dump_syms {version}"));
    }
""")
ok("n-hook", """        let (filename, line) = panic_info
            .location()
            .map(|loc| (loc.file(), loc.line()))
            .unwrap_or(("<unknown>", 0));
        let cause = panic_info
            .payload()
            .downcast_ref::<String>()
            .map(String::deref)
            .unwrap_or_else(|| {
                panic_info
                    .payload()
                    .downcast_ref::<&str>()
                    .copied()
                    .unwrap_or("<cause unknown>")
            });
""", """        let (filename, line) = match panic_info.location() {
            Some(loc) => (loc.file(), loc.line()),
            None => ("<unknown>", 0),
        };
        let payload = panic_info.payload();
        let cause = if let Some(cause) = payload.downcast_ref::<String>() {
            cause.deref()
        } else if let Some(cause) = payload.downcast_ref::<&str>() {
            cause
        } else {
            "<cause unknown>"
        };
""")
ok("n-action-early", """    let action = if matches.get_flag("list_arch") {
        Action::ListArch
    } else {
""", """    let list_arch = matches.get_flag("list_arch");
    let action = if list_arch {
        Action::ListArch
    } else {
""")

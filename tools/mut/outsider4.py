"""Refactorings of functions that the other suites leave alone."""
A = "src/action.rs"; D = "src/dumper.rs"; U = "src/utils.rs"; W = "src/windows/utils.rs"; P = "src/windows/pdb.rs"
LIST1 = '''                let path = PathBuf::from(filename);
                let filename = utils::get_filename(&path);

                let buf = utils::read_file(&path);
                print_macho_architectures(&buf, filename)
'''
LISTN = '''                    let path = PathBuf::from(f);
                    let filename = utils::get_filename(&path);

                    let buf = utils::read_file(&path);
                    print_macho_architectures(&buf, filename)?;
'''
FN = '''    fn several_files(&self, filenames: &[&str])'''
LA = '''    fn list_arch(filename: &str) -> common::Result<()> {
        let path = PathBuf::from(filename);
        let name = utils::get_filename(&path);
        let buf = utils::read_file(&path);
        print_macho_architectures(&buf, name)
    }

'''
SINGLE = '''    let path_mappings = PathMappings::new(
        &config.mapping_var,
        &config.mapping_src,
        &config.mapping_dest,
        &config.mapping_file,
    )?
    .map(Arc::new);
    let arch = Arch::from_str(config.arch)?;
    let object_info = get_object_info('''
PE = '''            if let Ok(pdb_info) = get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            ) {
                pdb_info
            } else {
                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
            }
'''
RES = '''    if let Some((pe, pdb_buf, pdb_name)) = res {
        let pdb = PdbObject::parse(&pdb_buf)?;
        let pdb = ObjectInfo::from_pdb(
            pdb,
            &pdb_name,
            Some(filename),
            Some(pe),
            mapping,
            emit_inlines,
        )?;
        Ok(pdb)
    } else {
        anyhow::bail!("No pdb file found")
    }
'''
FIX = '''fn fix_extension(ext: &str) -> &str {
    match ext {
        "dl_" => "dll",
        "ex_" => "exe",
        _ => ext,
    }
}
'''
OSS = '''    if let Some(file_name) = pdb_path.file_name() {
        let pdb_name = file_name.to_str().unwrap().to_string();
        if pdb_path.is_file() {
            (Some(utils::read_file(pdb_path)), pdb_name)
        } else {
            (try_to_find_pdb(path, &pdb_name), pdb_name)
        }
    } else {
        (None, "".to_string())
    }
'''
CORR = '''    if e.starts_with("pd") {
        path.with_extension("pdb")
    } else if e.starts_with("dl") {
        path.with_extension("dll")
    } else if e.starts_with("ex") {
        path.with_extension("exe")
    } else if e.starts_with("db") {
        path.with_extension("dbg")
    } else {
        path
    }
'''
NORM = '''    for component in components {
        match component {
            Component::Prefix(..) => unreachable!(),
            Component::RootDir => {
                ret.push(component.as_os_str());
            }
            Component::CurDir => {}
            Component::ParentDir => {
                ret.pop();
            }
            Component::Normal(c) => {
                ret.push(c);
            }
        }
    }
'''
BASE = '''    if let Some(e) = path.extension() {
        let e = e.to_str().unwrap().to_lowercase();
        match e.as_str() {
            "pd_" => {
                path.set_extension("pdb");
            }
            "ex_" => {
                path.set_extension("exe");
            }
            "dl_" => {
                path.set_extension("dll");
            }
            _ => {}
        }

        path
    } else {
        path
    }
'''
V = [
 ("r-list-helper", "C03", "ok", A, LIST1, "                Self::list_arch(filename)\n", A, LISTN, "                    Self::list_arch(f)?;\n", A, FN, LA + FN),
 ("r-list-tryfor", "C03", "ok", A, "                for f in filenames {\n" + LISTN + "                }\n                Ok(())\n", "                filenames.iter().try_for_each(|f| self.single_file(f))\n"),
 ("r-action-match", "C03", "ok", A, '''        if filenames.len() == 1 {
            // no need to spawn a thread for one file
            self.single_file(filenames[0])
        } else {
            self.several_files(filenames)
        }
''', '''        match filenames {
            // no need to spawn a thread for one file
            [filename] => self.single_file(filename),
            _ => self.several_files(filenames),
        }
'''),
 ("r-action-first", "C03", "ok", A, '''        if filenames.len() == 1 {
            // no need to spawn a thread for one file
            self.single_file(filenames[0])
        } else {
            self.several_files(filenames)
        }
''', '''        if let [filename] = *filenames {
            return self.single_file(filename);
        }
        self.several_files(filenames)
'''),
 ("r-single-arch-first", "C03", "ok", D, SINGLE, '''    let arch = Arch::from_str(config.arch)?;
    let path_mappings = PathMappings::new(
        &config.mapping_var,
        &config.mapping_src,
        &config.mapping_dest,
        &config.mapping_file,
    )?;
    let path_mappings = path_mappings.map(Arc::new);
    let object_info = get_object_info('''),
 ("r-single-helper", "C12", "ok", D, SINGLE, '''    let path_mappings = shared_mappings(config)?;
    let arch = Arch::from_str(config.arch)?;
    let object_info = get_object_info(''', D, "pub fn single_file(config", '''fn shared_mappings(config: &Config) -> common::Result<Option<Arc<PathMappings>>> {
    let mappings = PathMappings::new(
        &config.mapping_var,
        &config.mapping_src,
        &config.mapping_dest,
        &config.mapping_file,
    )?;
    Ok(mappings.map(Arc::new))
}

pub fn single_file(config'''),
 ("r-pe-match", "C03", "ok", D, PE, '''            let from_pdb = get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            );
            match from_pdb {
                Ok(pdb_info) => pdb_info,
                Err(_) => get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?,
            }
'''),
 ("r-pe-orelse", "C03", "ok", D, PE, '''            get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            )
            .or_else(|_| get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines))?
'''),
 ("r-pe-log", "C03", "ok", D, PE, '''            let from_pdb = get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            );
            if let Err(e) = &from_pdb {
                log::debug!("No PDB for {filename}: {e}");
            }
            if let Ok(info) = from_pdb {
                return Ok(info);
            }
            get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
'''),
 ("r-pepdb-letelse", "C03", "ok", D, RES, '''    let Some((pe, pdb_buf, pdb_name)) = res else {
        anyhow::bail!("No pdb file found")
    };
    let pdb = PdbObject::parse(&pdb_buf)?;
    ObjectInfo::from_pdb(
        pdb,
        &pdb_name,
        Some(filename),
        Some(pe),
        mapping,
        emit_inlines,
    )
'''),
 ("r-pepdb-context", "C03", "ok", D, RES, '''    let (pe, pdb_buf, pdb_name) = res.context("No pdb file found")?;
    let pdb = PdbObject::parse(&pdb_buf).context("Unable to parse the PDB file")?;
    ObjectInfo::from_pdb(pdb, &pdb_name, Some(filename), Some(pe), mapping, emit_inlines)
'''),
 ("r-peobj-direct", "C03", "ok", D, '''    let pe = ObjectInfo::from_pe_with_mapping(filename, pe, mapping, collect_inlines)?;
    Ok(pe)
''', '''    ObjectInfo::from_pe_with_mapping(filename, pe, mapping, collect_inlines)
'''),
 ("r-peobj-map", "C03", "ok", D, '''    let pe = PeObject::parse(buf)
        .with_context(|| format!("Unable to parse the PE file {}", path.display()))?;
    let pe = ObjectInfo::from_pe_with_mapping(filename, pe, mapping, collect_inlines)?;
    Ok(pe)
''', '''    match PeObject::parse(buf) {
        Ok(pe) => ObjectInfo::from_pe_with_mapping(filename, pe, mapping, collect_inlines),
        Err(e) => Err(anyhow::Error::new(e)
            .context(format!("Unable to parse the PE file {}", path.display()))),
    }
'''),
 ("r-fixext-if", "C15", "ok", W, FIX, '''fn fix_extension(ext: &str) -> &str {
    if ext == "dl_" {
        return "dll";
    }
    if ext == "ex_" {
        return "exe";
    }
    ext
}
'''),
 ("r-fixext-table", "C15", "ok", W, FIX, '''fn fix_extension(ext: &str) -> &str {
    [("dl_", "dll"), ("ex_", "exe")]
        .iter()
        .find(|(packed, _)| *packed == ext)
        .map_or(ext, |(_, plain)| plain)
}
'''),
 ("r-oss-letelse", "C15", "ok", W, OSS, '''    let Some(file_name) = pdb_path.file_name() else {
        return (None, String::new());
    };
    let pdb_name = file_name.to_str().unwrap().to_string();
    let buf = if pdb_path.is_file() {
        Some(utils::read_file(pdb_path))
    } else {
        try_to_find_pdb(path, &pdb_name)
    };
    (buf, pdb_name)
'''),
 ("r-oss-match", "C15", "ok", W, OSS, '''    match pdb_path.file_name().and_then(|name| name.to_str()) {
        None => (None, "".to_string()),
        Some(name) if pdb_path.is_file() => (Some(utils::read_file(pdb_path)), name.to_string()),
        Some(name) => (try_to_find_pdb(path, name), name.to_string()),
    }
'''),
 ("r-corr-match", "C22", "ok", U, CORR, '''    match e.get(..2) {
        Some("pd") => path.with_extension("pdb"),
        Some("dl") => path.with_extension("dll"),
        Some("ex") => path.with_extension("exe"),
        Some("db") => path.with_extension("dbg"),
        _ => path,
    }
'''),
 ("r-corr-table", "C22", "ok", U, CORR, '''    for (prefix, ext) in [("pd", "pdb"), ("dl", "dll"), ("ex", "exe"), ("db", "dbg")] {
        if e.starts_with(prefix) {
            return path.with_extension(ext);
        }
    }
    path
'''),
 ("r-corr-ret", "C22", "ok", U, CORR, '''    let fixed = if e.starts_with("pd") {
        "pdb"
    } else if e.starts_with("dl") {
        "dll"
    } else if e.starts_with("ex") {
        "exe"
    } else if e.starts_with("db") {
        "dbg"
    } else {
        return path;
    };
    path.with_extension(fixed)
'''),
 ("r-norm-if", "C12", "ok", U, NORM, '''    for component in components {
        if let Component::Normal(c) = component {
            ret.push(c);
        } else if component == Component::RootDir {
            ret.push(component.as_os_str());
        } else if component == Component::ParentDir {
            ret.pop();
        } else {
            debug_assert_eq!(component, Component::CurDir);
        }
    }
'''),
 ("r-norm-foreach", "C12", "ok", U, NORM, '''    components.for_each(|component| match component {
        Component::Prefix(..) => unreachable!(),
        Component::CurDir => {}
        Component::ParentDir => {
            ret.pop();
        }
        Component::RootDir | Component::Normal(_) => ret.push(component),
    });
'''),
 ("r-base-map", "C14", "ok", U, BASE, '''    let ext = path
        .extension()
        .map(|e| e.to_str().unwrap().to_lowercase());
    let fixed = match ext.as_deref() {
        Some("pd_") => "pdb",
        Some("ex_") => "exe",
        Some("dl_") => "dll",
        _ => return path,
    };
    path.set_extension(fixed);
    path
'''),
 ("r-base-with", "C14", "ok", U, "    let mut path = PathBuf::from(file_name);\n" + BASE, '''    let path = Path::new(file_name);
    let Some(ext) = path.extension() else {
        return path.to_path_buf();
    };
    match ext.to_str().unwrap().to_lowercase().as_str() {
        "pd_" => path.with_extension("pdb"),
        "ex_" => path.with_extension("exe"),
        "dl_" => path.with_extension("dll"),
        _ => path.to_path_buf(),
    }
'''),
 ("r-read-fs", "C03", "ok", U, '''    let file_size = fs::metadata(&path)?.len() as usize;
    let mut file = File::open(&path)
        .with_context(|| format!("Unable to open the file {}", path.as_ref().display()))?;

    let mut buf = Vec::with_capacity(file_size + 1);
    file.read_to_end(&mut buf)
        .with_context(|| format!("Unable to read the file {}", path.as_ref().display()))?;

    Ok(buf)
''', '''    let path = path.as_ref();
    fs::read(path).with_context(|| format!("Unable to read the file {}", path.display()))
'''),
 ("r-readfile-helper", "C03", "ok", U, '''    let file_size = metadata.len() as usize;
    let mut file = File::open(&path)
        .unwrap_or_else(|_| panic!("Unable to open the file {}", path.to_str().unwrap()));

    let mut buf = Vec::with_capacity(file_size + 1);
    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));

    read_cabinet(buf, path.clone())
''', '''    let buf = read_whole(&path, metadata.len() as usize);

    read_cabinet(buf, path.clone())
''', U, "pub(crate) fn get_base(", '''fn read_whole(path: &Path, size: usize) -> Vec<u8> {
    let mut file = File::open(path)
        .unwrap_or_else(|_| panic!("Unable to open the file {}", path.to_str().unwrap()));
    let mut buf = Vec::with_capacity(size + 1);
    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));
    buf
}

pub(crate) fn get_base('''),
 ("r-pdb-unzip", "C15", "ok", D, '''    let (pe_name, pe_buf) = match windows::utils::find_pe_for_pdb(path, &pdb.debug_id()) {
        Some((pe_name, pe_buf)) => (Some(pe_name), Some(pe_buf)),
        None => (None, None),
    };
''', '''    let (pe_name, pe_buf) = windows::utils::find_pe_for_pdb(path, &pdb.debug_id()).unzip();
'''),
 ("r-pdb-ref", "C15", "ok", D, '''    let (pe_name, pe_buf) = match windows::utils::find_pe_for_pdb(path, &pdb.debug_id()) {
        Some((pe_name, pe_buf)) => (Some(pe_name), Some(pe_buf)),
        None => (None, None),
    };
    let pe = pe_buf.as_deref().map(|buf| PeObject::parse(buf).unwrap());
''', '''    let found = windows::utils::find_pe_for_pdb(path, &pdb.debug_id());
    let pe = found.as_ref().map(|(_, buf)| PeObject::parse(buf).unwrap());
    let pe_name = found.as_ref().map(|(name, _)| name.as_str());
''', D, "        pe_name.as_deref(),\n        pe,\n", "        pe_name,\n        pe,\n"),
 ("r-frompe-order", "C18", "ok", P, '''        let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();
        let pe = Object::Pe(pe);
        let pdb_name = win_path_file_name(&pdb_name).to_string();
''', '''        let debug_file = pe.debug_file_name();
        let pdb_name = match &debug_file {
            Some(path) => win_path_file_name(path).to_string(),
            None => win_path_file_name(pe_name).to_string(),
        };
        let pe = Object::Pe(pe);
'''),
]

DU="src/dumper.rs"; UT="src/utils.rs"
ENS='''        anyhow::ensure!(
            Path::new(name).file_name() == Some(OsStr::new(name)),
            "Invalid module name: {:?}",
            name
        );

'''
SYM='''    let sym_filename = match file_name.rsplit_once('.') {
        Some((basename, ext)) if ext.to_lowercase() == "pdb" => format!("{basename}.sym"),
        _ => format!("{file_name}.sym"),
    };
    pb.push(sym_filename);
'''
BASE='''    let mut path = PathBuf::from(file_name);
    if let Some(e) = path.extension() {
        let e = e.to_str().unwrap().to_lowercase();
        match e.as_str() {
            "pd_" => {
                path.set_extension("pdb");
            }
            "ex_" => {
                path.set_extension("exe");
            }
            "dl_" => {
                path.set_extension("dll");
            }
            _ => {}
        }

        path
    } else {
        path
    }
'''
PUSH='''        let mut pb = PathBuf::new();
        pb.push(dir);
        pb.push(utils::get_path_for_sym(name, object_info.get_debug_id()));
        Ok(Some(pb))
'''
V=[
 ("noensure","C17","bad",DU,ENS,""),
 ("ensure-weak","C17","bad",DU,"Path::new(name).file_name() == Some(OsStr::new(name))","Path::new(name).file_name().is_some()"),
 ("ensure-rel","C17","bad",DU,"Path::new(name).file_name() == Some(OsStr::new(name))","Path::new(name).is_relative()"),
 ("case","C17","bad",UT,'ext.to_lowercase() == "pdb"','ext == "pdb"'),
 ("noid","C17","bad",UT,"    pb.push(id);\n",""),
 ("order","C17","bad",UT,"    let mut pb = get_base(file_name);\n\n    pb.push(id);\n","    let mut pb = PathBuf::from(id);\n\n    pb.push(get_base(file_name));\n"),
 ("ext-all","C17","bad",UT,'Some((basename, ext)) if ext.to_lowercase() == "pdb" =>','Some((basename, _)) =>'),
 ("ext-dll","C17","bad",UT,'ext.to_lowercase() == "pdb"','ext.to_lowercase() == "pdb" || ext.to_lowercase() == "exe"'),
 ("split-first","C17","bad",UT,"file_name.rsplit_once('.')","file_name.split_once('.')"),
 ("base-swap","C17","bad",UT,'path.set_extension("exe")','path.set_extension("dll")'),
 ("base-stem","C17","bad",UT,'            _ => {}\n        }\n\n        path\n','            _ => {path.set_extension("");}\n        }\n\n        path\n'),
 ("codeid","C17","bad",DU,"utils::get_path_for_sym(name, object_info.get_debug_id())","utils::get_path_for_sym(name, object_info.get_name())"),
 ("nodir","C17","bad",DU,"        fs::create_dir_all(store.parent().unwrap())?;\n\n","        if !store.exists() {}\n"),
 ("dir-one","C17","bad",DU,"fs::create_dir_all(store.parent().unwrap())?","fs::create_dir_all(store.parent().unwrap().parent().unwrap())?"),
 ("dirskip","C17","bad",DU,"        fs::create_dir_all(store.parent().unwrap())?;\n","        if foutput.is_none() {\n        fs::create_dir_all(store.parent().unwrap())?;\n        }\n"),
 # refactorings
 ("r-join","C17","ok",DU,PUSH,"        Ok(Some(dir.join(utils::get_path_for_sym(name, object_info.get_debug_id()))))\n"),
 ("r-ensure-if","C17","ok",DU,ENS,'''        if Path::new(name).file_name() != Some(OsStr::new(name)) {
            anyhow::bail!("Invalid module name: {:?}", name);
        }
'''),
 ("r-ensure-match","C17","ok",DU,ENS,'''        match Path::new(name).file_name() {
            Some(f) if f == OsStr::new(name) => {}
            _ => anyhow::bail!("Invalid module name: {:?}", name),
        }
'''),
 ("r-sym-strip","C17","ok",UT,SYM,'''    let is_pdb = matches!(file_name.rsplit_once('.'), Some((_, ext)) if ext.eq_ignore_ascii_case("pdb"));
    let sym_filename = if is_pdb {
        let (basename, _) = file_name.rsplit_once('.').unwrap();
        format!("{basename}.sym")
    } else {
        format!("{file_name}.sym")
    };
    pb.push(sym_filename);
'''),
 ("r-sym-mut","C17","ok",UT,SYM,'''    let stem = match file_name.rsplit_once('.') {
        Some((basename, ext)) if ext.to_lowercase() == "pdb" => basename,
        _ => file_name,
    };
    let mut sym_filename = stem.to_string();
    sym_filename.push_str(".sym");
    pb.push(sym_filename);
'''),
 ("r-sym-joined","C17","ok",UT,SYM,'''    let stem = match file_name.rsplit_once('.') {
        Some((basename, ext)) if ext.to_lowercase() == "pdb" => basename,
        _ => file_name,
    };
    pb.join(format!("{}.sym", stem))
'''.replace("    pb.join(","    pb.push("). replace('stem))','stem));')),
 ("r-base","C17","ok",UT,BASE,'''    let path = PathBuf::from(file_name);
    let ext = path.extension().map(|e| e.to_str().unwrap().to_lowercase());
    match ext.as_deref() {
        Some("pd_") => path.with_extension("pdb"),
        Some("ex_") => path.with_extension("exe"),
        Some("dl_") => path.with_extension("dll"),
        _ => path,
    }
'''),
 ("r-base2","C17","ok",UT,BASE,'''    let mut path = PathBuf::from(file_name);
    let fixed = match path.extension() {
        Some(e) => match e.to_str().unwrap().to_lowercase().as_str() {
            "pd_" => Some("pdb"),
            "ex_" => Some("exe"),
            "dl_" => Some("dll"),
            _ => None,
        },
        None => None,
    };
    if let Some(ext) = fixed {
        path.set_extension(ext);
    }
    path
'''),
 ("r-collect","C17","ok",UT,"    pb.push(id);\n",""  ,UT,"    pb.push(sym_filename);\n\n    pb\n","    [pb, PathBuf::from(id), PathBuf::from(sym_filename)].iter().collect()\n",UT,"let mut pb = get_base","let pb = get_base"),
 ("r-dirs","C17","ok",DU,"        fs::create_dir_all(store.parent().unwrap())?;\n","        if let Some(parent) = store.parent() {\n            fs::create_dir_all(parent)?;\n        }\n"),
 ("r-helper","C17","ok",DU,ENS,"        check_name(name)?;\n",DU,"fn store(output: &Output,",'''fn check_name(name: &str) -> common::Result<()> {
    anyhow::ensure!(
        Path::new(name).file_name() == Some(OsStr::new(name)),
        "Invalid module name: {:?}",
        name
    );
    Ok(())
}

fn store(output: &Output,'''),
]

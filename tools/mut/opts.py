MA="src/main.rs"; DU="src/dumper.rs"; AC="src/action.rs"; OI="src/object_info.rs"; CO="src/collector.rs"; LI="src/linux.rs"; MC="src/mac.rs"; PD="src/windows/pdb.rs"; CM="src/common.rs"
OUT='''        let output = match (output, store) {
            (Some(out), Some(store)) => dumper::Output::FileAndStore {
                file: out.into(),
                store_directory: store.into(),
            },
            (Some(out), None) => dumper::Output::File(out.into()),
            (None, Some(store)) => dumper::Output::Store(store.into()),
            (None, None) => dumper::Output::File(dumper::FileOutput::Stdout),
        };
'''
JOBS='''    let num_jobs = if let Ok(num_jobs) = matches
        .get_one::<String>("num_jobs")
        .unwrap()
        .parse::<usize>()
    {
        num_jobs
    } else {
        num_cpus::get()
    };
'''
VERB='''    let verbosity = match matches.get_one::<String>("verbose").unwrap().as_str() {
        "off" => LevelFilter::Off,
        "warn" => LevelFilter::Warn,
        "info" => LevelFilter::Info,
        "debug" => LevelFilter::Debug,
        "trace" => LevelFilter::Trace,
        _ => LevelFilter::Error,
    };
'''
V=[
 ("swap-src-dest","C15","bad",MA,'matches.get_many("mapping_src")','matches.get_many("mapping_dest")'),
 ("ids-swap","C15","bad",MA,'matches.get_one::<String>("debug_id")','matches.get_one::<String>("code_id")'),
 ("cfi-inl","C15","bad",MA,'matches.get_flag("check_cfi")','matches.get_flag("inlines")'),
 ("cfi-not","C15","bad",MA,'let check_cfi = matches.get_flag("check_cfi")','let check_cfi = !matches.get_flag("check_cfi")'),
 ("var-first","C15","bad",MA,'matches.get_many("mapping_var").map(to_vec)','matches.get_many("mapping_var").map(|v| to_vec(v).into_iter().take(1).collect())'),
 ("append-set","C15","bad",MA,'''            .long("mapping-var")
            .action(ArgAction::Append)''','''            .long("mapping-var")
            .action(ArgAction::Set)'''),
 ("delim","C15","bad",MA,'''            .long("mapping-src")
''','''            .long("mapping-src")
            .value_delimiter(',')
'''),
 ("verbose-default","C15","bad",MA,'.default_value("error")','.default_value("warn")'),
 ("verbose-warn","C15","bad",MA,'"warn" => LevelFilter::Warn','"warn" => LevelFilter::Info'),
 ("verbose-missing","C15","bad",MA,'        "debug" => LevelFilter::Debug,\n',''),
 ("arch-default","C15","bad",MA,'.default_value(common::get_compile_time_arch())','.default_value("arm64")'),
 ("jobs-cpus","C15","bad",MA,JOBS,"    let num_jobs = num_cpus::get();\n"),
 ("jobs-min","C15","bad",MA,"        num_jobs\n    } else","        num_jobs.min(4)\n    } else"),
 ("jobs-one","C15","bad",MA,"num_cpus::get()","1"),
 ("out-only","C15","bad",MA,'''            (Some(out), Some(store)) => dumper::Output::FileAndStore {
                file: out.into(),
                store_directory: store.into(),
            },
            (Some(out), None)''','            (Some(out), _)'),
 ("out-none-stderr","C15","bad",MA,'(None, None) => dumper::Output::File(dumper::FileOutput::Stdout)','(None, None) => dumper::Output::File(dumper::FileOutput::Stderr)'),
 ("dash","C15","bad",DU,'if s == "-" {\n            Self::Stdout','if s == "-" {\n            Self::Stderr'),
 ("dash-empty","C15","bad",DU,'if s == "-" {','if s.is_empty() || s == "-" {'),
 ("gen-not","C15","bad",MA,'if !*matches.get_one::<bool>("no-generator").unwrap()','if *matches.get_one::<bool>("no-generator").unwrap()'),
 ("gen-noextra","C15","bad",MA,'if !*matches.get_one::<bool>("no-generator").unwrap()','if extra_info.is_empty() && !*matches.get_one::<bool>("no-generator").unwrap()'),
 ("extra-skip","C15","bad",MA,'''    if !*matches.get_one::<bool>("no-generator").unwrap()''','''    extra_info.truncate(1);
    if !*matches.get_one::<bool>("no-generator").unwrap()'''),
 ("extra-late","C15","bad",MA,"    get_extra_info(&matches);\n","",MA,"    if let Err(e) = action.action(&filenames) {","    let res = action.action(&filenames);\n    get_extra_info(&matches);\n    if let Err(e) = res {"),
 ("extra-nowrite","C15","bad",OI,"            for line in extra_info {","            for line in extra_info.iter().skip(1) {"),
 ("extra-dup","C15","bad",OI,'writeln!(f, "INFO {line:}")?;','if !line.starts_with("GENERATOR") { writeln!(f, "INFO {line:}")?; }'),
 ("list-not","C15","bad",MA,'let action = if matches.get_flag("list_arch")','let action = if matches.get_flag("list_arch") && store.is_none()'),
 ("files-rev","C15","bad",AC,"self.single_file(filenames[0])","self.single_file(filenames[filenames.len() / 2])"),
 ("files-one","C15","bad",AC,"filenames.len() == 1","!filenames.is_empty()"),
 ("s-nosrv","C15","bad",DU,"let symbol_server = config.symbol_server.map(ToOwned::to_owned)","let symbol_server: Option<String> = None"),
 ("s-noinl","C15","bad",DU,"collect_inlines: config.emit_inlines","collect_inlines: true"),
 ("s-nomap","C15","bad",DU,"mapping: file_mapping.clone()","mapping: None"),
 ("s-cfi","C15","bad",DU,"let check_cfi = config.check_cfi","let check_cfi = false"),
 ("s-arch","C15","bad",DU,"let arch = Arch::from_str(config.arch)?;\n    let results","let arch = Arch::from_str(common::get_compile_time_arch())?;\n    let results"),
 ("s-jobs","C15","bad",DU,"config.num_jobs.max(1).min(filenames.len())","filenames.len()"),
 ("1-args","C15","bad",DU,"        &config.mapping_src,\n        &config.mapping_dest,\n        &config.mapping_file,\n    )?\n    .map(Arc::new);\n    let arch = Arch::from_str(config.arch)?;\n    let object_info","        &config.mapping_dest,\n        &config.mapping_src,\n        &config.mapping_file,\n    )?\n    .map(Arc::new);\n    let arch = Arch::from_str(config.arch)?;\n    let object_info"),
 ("1-ids","C15","bad",DU,"config.debug_id.or(config.code_id)","config.code_id.or(config.debug_id)"),
 ("pe-nomap","C15","bad",DU,"get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)","get_pe_object_info(&buf, path, filename, None, emit_inlines)"),
 ("pe-noinl","C15","bad",DU,"ObjectInfo::from_pe_with_mapping(filename, pe, mapping, collect_inlines)","ObjectInfo::from_pe_with_mapping(filename, pe, mapping, true)"),
 ("pe-default","C15","bad",DU,"let pe = ObjectInfo::from_pe_with_mapping(filename, pe, mapping, collect_inlines)?","let _ = (mapping, collect_inlines);\n    let pe = ObjectInfo::from_pe(filename, pe)?"),
 ("elf-inl","C15","bad",LI,"            platform,\n            mapping,\n            collect_inlines","            platform,\n            mapping,\n            collect_inlines && o.has_debug_info()"),
 ("mac-map","C15","bad",MC,"                Platform::Mac,\n                mapping,","                Platform::Mac,\n                mapping.filter(|_| archive.object_count() == 1),"),
 ("gate-always","C15","bad",CO,"if self.collect_inlines {","if self.collect_inlines || fun.lines.is_empty() {"),
 ("gate-lin","C15","bad",CO,"if self.collect_inlines {","if self.collect_inlines && self.platform != Platform::Win {"),
 ("def-cfi","C15","bad",DU,"            check_cfi: true,\n            emit_inlines: true,","            check_cfi: false,\n            emit_inlines: true,"),
 ("def-jobs","C15","bad",DU,"num_jobs: 1,","num_jobs: 0,"),
 # refactorings
 ("r-id","C15","ok",MA,'Arg::new("debug_id")','Arg::new("debugid")',MA,'matches.get_one::<String>("debug_id")','matches.get_one::<String>("debugid")'),
 ("r-out","C15","ok",MA,OUT,'''        let output = if let Some(store) = store {
            if let Some(out) = output {
                dumper::Output::FileAndStore {
                    file: out.into(),
                    store_directory: store.into(),
                }
            } else {
                dumper::Output::Store(store.into())
            }
        } else if let Some(out) = output {
            dumper::Output::File(out.into())
        } else {
            dumper::Output::File(dumper::FileOutput::Stdout)
        };
'''),
 ("r-out2","C15","ok",MA,"        let output = match (output, store) {","        let file = output.map(dumper::FileOutput::from);\n        let output = match (file, store) {",MA,"file: out.into(),","file: out,",MA,"dumper::Output::File(out.into())","dumper::Output::File(out)"),
 ("r-jobs","C15","ok",MA,JOBS,'''    let num_jobs = matches
        .get_one::<String>("num_jobs")
        .unwrap()
        .parse::<usize>()
        .unwrap_or_else(|_| num_cpus::get());
'''),
 ("r-jobs2","C15","ok",MA,JOBS,'''    let num_jobs = get_jobs(&matches);
''',MA,"fn to_vec(",'''fn get_jobs(matches: &clap::ArgMatches) -> usize {
    match matches.get_one::<String>("num_jobs").unwrap().parse() {
        Ok(n) => n,
        Err(_) => num_cpus::get(),
    }
}

fn to_vec('''),
 ("r-verb","C15","ok",MA,VERB,"    let verbosity = get_verbosity(matches.get_one::<String>(\"verbose\").unwrap());\n",MA,"fn to_vec(",'''fn get_verbosity(v: &str) -> LevelFilter {
    if v == "off" {
        LevelFilter::Off
    } else if v == "warn" {
        LevelFilter::Warn
    } else if v == "info" {
        LevelFilter::Info
    } else if v == "debug" {
        LevelFilter::Debug
    } else if v == "trace" {
        LevelFilter::Trace
    } else {
        LevelFilter::Error
    }
}

fn to_vec('''),
 ("r-extra-loop","C15","ok",MA,'''    let mut extra_info: Vec<String> = matches.get_many::<String>("extra_info").map(|values| {
        values
            .map(|line| {
                if !INFO_LINE_RE.is_match(line) {
                    panic!(
                        "Extra INFO line format is invalid: {}. Valid format is <UPPERCASE_KEYWORD> <string>",
                        line
                    );
                }
                line.to_owned()
            })
            .collect()
    }).unwrap_or_default();
''','''    let mut extra_info: Vec<String> = Vec::new();
    if let Some(values) = matches.get_many::<String>("extra_info") {
        for line in values {
            if !INFO_LINE_RE.is_match(line) {
                panic!(
                    "Extra INFO line format is invalid: {}. Valid format is <UPPERCASE_KEYWORD> <string>",
                    line
                );
            }
            extra_info.push(line.to_owned());
        }
    }
'''),
 ("r-gen-let","C15","ok",MA,'''    if !*matches.get_one::<bool>("no-generator").unwrap() {''','''    let no_generator = matches.get_flag("no-generator");
    if !no_generator {'''),
 ("r-tovec","C15","ok",MA,"    values.map(String::as_str).collect()",'''    let mut v = Vec::with_capacity(values.len());
    for s in values {
        v.push(s.as_str());
    }
    v'''),
 ("r-match","C15","ok",AC,'''        if filenames.len() == 1 {
            // no need to spawn a thread for one file
            self.single_file(filenames[0])
        } else {
            self.several_files(filenames)
        }''','''        match filenames {
            [filename] => self.single_file(filename),
            _ => self.several_files(filenames),
        }'''),
 ("r-dump-first","C15","ok",DU,"        if s == \"-\" {\n            Self::Stdout\n        } else {\n            Self::Path(s.into())\n        }","        match s {\n            \"-\" => Self::Stdout,\n            _ => Self::Path(PathBuf::from(s)),\n        }"),
 ("r-info-iter","C15","ok",OI,'''        if let Some(extra_info) = EXTRA_INFO.get() {
            for line in extra_info {
                writeln!(f, "INFO {line:}")?;
            }
        }''','''        let none = Vec::new();
        for line in EXTRA_INFO.get().unwrap_or(&none).iter() {
            writeln!(f, "INFO {}", line)?;
        }'''),
 ("r-info-try","C15","ok",OI,'''            for line in extra_info {
                writeln!(f, "INFO {line:}")?;
            }''','''            extra_info
                .iter()
                .try_for_each(|line| writeln!(f, "INFO {line}"))?;'''),
 ("r-gate","C15","ok",CO,'''        if self.collect_inlines {
            Self::collect_function_with_inlines_recursive(
                fun,
                &mut lines,
                source,
                inline_origins,
                0,
            );
        } else {
            Self::collect_function_without_inlines(fun, &mut lines, source);
        }''','''        match self.collect_inlines {
            false => Self::collect_function_without_inlines(fun, &mut lines, source),
            true => Self::collect_function_with_inlines_recursive(
                fun,
                &mut lines,
                source,
                inline_origins,
                0,
            ),
        }'''),
 ("r-servers","C15","ok",DU,"let symbol_server = config.symbol_server.map(ToOwned::to_owned)","let symbol_server = config.symbol_server.map(|s| s.to_string())"),
 ("r-mapping","C15","ok",DU,'''    let file_mapping = PathMappings::new(
        &config.mapping_var,
        &config.mapping_src,
        &config.mapping_dest,
        &config.mapping_file,
    )?
    .map(Arc::new);
    let arch = Arch::from_str(config.arch)?;
    let results''','''    let file_mapping = get_mappings(config)?;
    let arch: Arch = config.arch.parse()?;
    let results''',DU,"pub fn several_files",'''fn get_mappings(config: &Config) -> common::Result<Option<Arc<PathMappings>>> {
    let mappings = PathMappings::new(
        &config.mapping_var,
        &config.mapping_src,
        &config.mapping_dest,
        &config.mapping_file,
    )?;
    Ok(match mappings {
        Some(m) => Some(Arc::new(m)),
        None => None,
    })
}

pub fn several_files'''),
 ("r-id-match","C15","ok",DU,"    if let Some(id) = config.debug_id.or(config.code_id) {","    let id = match config.debug_id {\n        Some(id) => Some(id),\n        None => config.code_id,\n    };\n    if let Some(id) = id {"),
]

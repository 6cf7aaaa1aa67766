D, MA, A, MC, CL, U = "src/dumper.rs", "src/main.rs", "src/action.rs", "src/mac.rs", "src/collector.rs", "src/utils.rs"
V = [
 ("unlocked","C16","bad",D,"Box::new(std::io::stdout().lock())","Box::new(std::io::stdout())"),
 ("stderr-out","C16","bad",D,"FileOutput::Stderr => Box::new(std::io::stderr().lock())","FileOutput::Stderr => Box::new(std::io::stdout().lock())"),
 ("println-store","C16","bad",D,'info!("Store symbols at {fo}");','println!("Store symbols at {fo}");'),
 ("println-err","C16","bad",MA,'eprintln!("{e}");','println!("{e}");'),
 ("no-err","C16","bad",MA,'        eprintln!("{e}");\n','        log::info!("{e}");\n'),
 ("logger-out","C16","bad",MA,"TerminalMode::Stderr,","TerminalMode::Mixed,"),
 ("logger-cond","C16","bad",MA,"TerminalMode::Stderr,","if verbosity > LevelFilter::Info { TerminalMode::Stdout } else { TerminalMode::Stderr },"),
 ("logger-simple","C16","bad",MA,'''    let _ = TermLogger::init(
        verbosity,
        config.build(),
        TerminalMode::Stderr,
        ColorChoice::Auto,
    );''','''    let _ = TermLogger::init(
        verbosity,
        config.build(),
        TerminalMode::Stderr,
        ColorChoice::Auto,
    )
    .or_else(|_| simplelog::SimpleLogger::init(verbosity, simplelog::Config::default()));'''),
 ("hook","C16","bad",MA,'error!("A panic occurred at {filename}:{line}: {cause}");','println!("A panic occurred at {filename}:{line}: {cause}");'),
 ("debug-call","C16","bad",CL,"    fn demangle(name: &Name) -> String {\n        let name = common::fix_symbol_name(name);",'    fn demangle(name: &Name) -> String {\n        if name.as_str().is_empty() { println!("empty"); }\n        let name = common::fix_symbol_name(name);'),
 ("writeln","C16","bad",D,'        info!("Write symbols at {file}");','        use std::io::Write;\n        let _ = writeln!(std::io::stdout(), "Write symbols at {file}");'),
 ("devout","C16","bad",D,'        info!("Write symbols at {file}");','        let _ = std::fs::write("/dev/stdout", format!("{file}"));'),
 ("spawn","C16","bad",D,'        info!("Write symbols at {file}");','        let _ = std::process::Command::new("gzip").arg("-k").arg(format!("{file}")).status();'),
 ("default-file","C16","bad",MA,"(None, Some(store)) => dumper::Output::Store(store.into()),","(None, Some(store)) => dumper::Output::FileAndStore { file: dumper::FileOutput::Stdout, store_directory: store.into() },"),
 ("dash-empty","C16","bad",D,'if s == "-" {','if s == "-" || s.is_empty() {'),
 ("list-debug","C16","bad",MC,'    let archive = Archive::parse(buf)?;\n    let archs','    println!("parsing {} bytes", buf.len());\n    let archive = Archive::parse(buf)?;\n    let archs'),
 ("list-dump","C16","bad",A,"            Self::Dump(config) => dumper::single_file(config, filename),",'            Self::Dump(config) => {\n                println!("Dumping {filename}");\n                dumper::single_file(config, filename)\n            }'),
 ("print-macro","C16","bad",U,"pub fn ",'#[macro_export]\nmacro_rules! note { ($($a:tt)*) => { print!($($a)*) } }\n\npub fn ',D,'info!("Store symbols at {fo}");','crate::note!("Store symbols at {fo}");'),
 ("path-out","C16","bad",D,'''            let output = std::fs::File::create(path)
                .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.display()));
            Box::new(output)''','''            match std::fs::File::create(path) {
                Ok(output) => Box::new(output),
                Err(_) => Box::new(std::io::stdout().lock()),
            }'''),
 ("ok-let","C16","ok",D,"FileOutput::Stdout => Box::new(std::io::stdout().lock()),","FileOutput::Stdout => {\n            let out = std::io::stdout();\n            Box::new(out.lock())\n        }"),
 ("ok-helper","C16","ok",D,"FileOutput::Stdout => Box::new(std::io::stdout().lock()),","FileOutput::Stdout => stdout_writer(),",D,"#[inline]\npub fn get_writer_for_sym","fn stdout_writer() -> Box<dyn std::io::Write> {\n    Box::new(std::io::stdout().lock())\n}\n\n#[inline]\npub fn get_writer_for_sym"),
 ("ok-one","C16","ok",MC,'''    println!("{}", archs.join(", "));''','''    let list = archs.join(", ");\n    println!("{list}");'''),
 ("ok-mode","C16","ok",MA,"    let _ = TermLogger::init(","    let mode = TerminalMode::Stderr;\n    let _ = TermLogger::init(",MA,"        TerminalMode::Stderr,\n","        mode,\n"),
 ("ok-err","C16","ok",MA,'''    if let Err(e) = action.action(&filenames) {
        eprintln!("{e}");
        std::process::exit(1);
    }''','''    match action.action(&filenames) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(1)
        }
    }'''),
 ("ok-listhelper","C16","ok",MC,'''    println!(
        "{} contains the following architecture{}:",
        file_name,
        if archs.len() == 1 { "" } else { "s" }
    );
    println!("{}", archs.join(", "));
''','''    print_list(&file_name, &archs);
''',MC,"/// Print on screen the cpu arch",'''fn print_list(file_name: &str, archs: &[&str]) {
    let plural = if archs.len() == 1 { "" } else { "s" };
    println!("{file_name} contains the following architecture{plural}:");
    println!("{}", archs.join(", "));
}

/// Print on screen the cpu arch'''),
 ("ok-action","C16","ok",A,'''                for f in filenames {
                    let path = PathBuf::from(f);
                    let filename = utils::get_filename(&path);

                    let buf = utils::read_file(&path);
                    print_macho_architectures(&buf, filename)?;
                }
                Ok(())''','''                filenames.iter().try_for_each(|f| self.single_file(f))'''),
 ("ok-out","C16","ok",MA,'''        let output = match (output, store) {
            (Some(out), Some(store)) => dumper::Output::FileAndStore {
                file: out.into(),
                store_directory: store.into(),
            },
            (Some(out), None) => dumper::Output::File(out.into()),
            (None, Some(store)) => dumper::Output::Store(store.into()),
            (None, None) => dumper::Output::File(dumper::FileOutput::Stdout),
        };
''','''        let output = if let Some(out) = output {
            if let Some(store) = store {
                dumper::Output::FileAndStore {
                    file: out.into(),
                    store_directory: store.into(),
                }
            } else {
                dumper::Output::File(out.into())
            }
        } else if let Some(store) = store {
            dumper::Output::Store(store.into())
        } else {
            dumper::Output::File(dumper::FileOutput::Stdout)
        };
'''),
]

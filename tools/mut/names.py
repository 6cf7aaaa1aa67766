CL, CO, IO, SY, OI = "src/collector.rs", "src/common.rs", "src/inline_origins.rs", "src/symbol.rs", "src/object_info.rs"
V = [
 ("opt-ret","C19","bad",CO,"DemangleOptions::complete().return_type(false)","DemangleOptions::complete()"),
 ("opt-nameonly","C19","bad",CO,"DemangleOptions::complete().return_type(false)","DemangleOptions::name_only()"),
 ("rx-nolto","C19","bad",CO,"localalias|lto_priv|","localalias|"),
 ("rx-noplus","C19","bad",CO,r"\] ?))+$",r"\] ?))$"),
 ("rx-noend","C19","bad",CO,r"\] ?))+$",r"\] ?))+"),
 ("rx-num","C19","bad",CO,r"(\.[0-9]+)?",r"(\.[0-9]+)"),
 ("rx-lazy","C19","bad",CO,r"[^\]]*",r"[^\] ]*"),
 ("repl-first","C19","bad",CO,'.replace("`anonymous namespace\'", "(anonymous namespace)")','.replacen("`anonymous namespace\'", "(anonymous namespace)", 1)'),
 ("no-anon","C19","bad",CO,"    let fixed = normalize_anonymous_namespace(&fixed);\n","    let fixed = fixed.to_string();\n"),
 ("mangling-lost","C19","bad",CO,"Name::new(fixed, name.mangling(), name.language())","Name::new(fixed, symbolic::common::NameMangling::Mangled, name.language())"),
 ("lang-lost","C19","bad",CO,"Name::new(fixed, name.mangling(), name.language())","Name::new(fixed, name.mangling(), symbolic::common::Language::Unknown)"),
 ("io-nofix","C19","bad",IO,"let name = common::fix_symbol_name(name);","let name = name.clone();"),
 ("io-kept-raw","C19","bad",IO,'''    fn demangle(name: &Name) -> String {
        let name = common::fix_symbol_name(name);
        if''','''    fn demangle(name: &Name) -> String {
        let raw = name;
        let name = common::fix_symbol_name(name);
        if''',IO,"let aname = name.as_str();","let aname = raw.as_str();"),
 ("io-rust","C19","bad",IO,"if let Language::C = name.language() {","if let Language::C | Language::Rust = name.language() {"),
 ("io-opts","C19","bad",IO,"name.demangle(common::demangle_options())","name.demangle(common::demangle_options().parameters(false))"),
 ("fn-nofix","C19","bad",CL,'''    fn demangle(name: &Name) -> String {
        let name = common::fix_symbol_name(name);''','''    fn demangle(name: &Name) -> String {
        let name = name.clone();'''),
 ("fn-raw","C19","bad",CL,"name: Self::demangle(&fun.name),","name: fun.name.as_str().to_string(),"),
 ("fn-cond","C19","bad",CL,"name: Self::demangle(&fun.name),","name: if fun.inlinees.is_empty() { Self::demangle(&fun.name) } else { fun.name.to_string() },"),
 ("pub-raw-decor","C19","bad",CL,"(Some(name), _) => Self::demangle_str(&name.name),","(Some(name), _) => name.name.clone(),"),
 ("pub-omit","C19","bad",CL,'_ => "<name omitted>".to_string(),','_ => String::new(),'),
 ("pub-omit2","C19","bad",CL,'(None, Some(name)) => Self::demangle_str(&name),','(None, Some(name)) if !name.is_empty() => Self::demangle_str(&name),'),
 ("pub-unmangled","C19","bad",CL,"let name = Name::new(name, NameMangling::Mangled, lang);","let name = Name::new(name, NameMangling::Unmangled, lang);"),
 ("pub-cpp","C19","bad",CL,"if lang == Language::Unknown {","if lang != Language::Cpp {"),
 ("pub-fallback","C19","bad",CL,'''                warn!("Didn't manage to demangle {name}");
                name.to_string()''','''                warn!("Didn't manage to demangle {name}");
                "<name omitted>".to_string()'''),
 ("win-all","C19","bad",CL,"if self.platform == Platform::Win {\n                sym.name().map","if self.platform != Platform::Mac {\n                sym.name().map"),
 ("given-outer","C19","bad",CL,"inline_origins.get_id(&inlinee.name)","inline_origins.get_id(&fun.name)"),
 # equivalent
 ("ok-rx","C19","ok",CO,r"((\.(cold|constprop|llvm|localalias|lto_priv|isra|part|str)(\.[0-9]+)?)|( ?\[clone[^\]]*\] ?))+$",r"(?:\.(?:str|cold|constprop|llvm|localalias|lto_priv|isra|part)(?:\.[0-9]+)?| ?\[clone[^\]]*\] ?)+$"),
 ("ok-share","C19","ok",IO,'''        let name = common::fix_symbol_name(name);
        if let Language::C = name.language() {
            return name.as_str().to_string();
        }

        match name.demangle(common::demangle_options()) {
            Some(demangled) => demangled,
            None => {
                let aname = name.as_str();
                warn!("Didn't manage to demangle {name:?}");
                aname.to_string()
            }
        }''','''        let fixed = common::fix_symbol_name(name);
        if fixed.language() == Language::C {
            return fixed.to_string();
        }
        if let Some(demangled) = fixed.demangle(common::demangle_options()) {
            return demangled;
        }
        warn!("Didn't manage to demangle {fixed:?}");
        fixed.as_str().to_owned()'''),
 ("ok-unwrap","C19","ok",CL,'''        match name.demangle(demangle_options()) {
            Some(demangled) => demangled,
            None => {
                let aname = name.as_str();
                warn!("Didn't manage to demangle {name:?}");
                aname.to_string()
            }
        }''','''        name.demangle(demangle_options()).unwrap_or_else(|| {
            warn!("Didn't manage to demangle {name:?}");
            name.as_str().to_string()
        })'''),
 ("ok-local","C19","ok",CL,'''        self.syms.insert(
            fun.address as u32,
            Symbol {
                name: Self::demangle(&fun.name),''','''        let name = Self::demangle(&fun.name);
        self.syms.insert(
            fun.address as u32,
            Symbol {
                name,'''),
 ("ok-norm","C19","ok",CO,'''    let fixed = text.replace("`anonymous namespace'", "(anonymous namespace)");
    String::from(&fixed)''','''    const MSVC: &str = "`anonymous namespace'";
    const ITANIUM: &str = "(anonymous namespace)";
    text.replace(MSVC, ITANIUM)'''),
 ("ok-order","C19","ok",CO,'''    let fixed = COMPILER_NNN.replace(name.as_str(), "");
    let fixed = normalize_anonymous_namespace(&fixed);
''','''    let fixed = normalize_anonymous_namespace(name.as_str());
    let fixed = COMPILER_NNN.replace(&fixed, "").into_owned();
'''),
 ("ok-pub","C19","ok",CL,'''                    let sym_name = match (&parsed_win_name, sym.name) {
                        (Some(name), _) => Self::demangle_str(&name.name),
                        (None, Some(name)) => Self::demangle_str(&name),
                        _ => "<name omitted>".to_string(),
                    };''','''                    let sym_name = if let Some(parsed) = parsed_win_name.as_ref() {
                        Self::demangle_str(&parsed.name)
                    } else if let Some(name) = sym.name() {
                        Self::demangle_str(name)
                    } else {
                        String::from("<name omitted>")
                    };'''),
 ("ok-str","C19","ok",CL,'''        let lang = Name::new(name, NameMangling::Mangled, Language::Unknown).detect_language();
        if lang == Language::Unknown {
            return name.to_string();
        }

        let name = Name::new(name, NameMangling::Mangled, lang);
        let name = common::fix_symbol_name(&name);
''','''        let unknown = Name::new(name, NameMangling::Mangled, Language::Unknown);
        let lang = match unknown.detect_language() {
            Language::Unknown => return name.to_owned(),
            lang => lang,
        };

        let full = Name::new(name, NameMangling::Mangled, lang);
        let name = common::fix_symbol_name(&full);
'''),
]

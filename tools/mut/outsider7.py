"""The decoration of the calling conventions of Windows (C19)."""
S = "src/symbol.rs"
C = "src/collector.rs"
STD = """                if let Some((name, param_size)) = rest.rsplit_once('@') {
                    if let Ok(param_size) = param_size.parse::<u32>() {
                        // __stdcall or __fastcall
                        return Self {
                            name: name.to_string(),
                            param_size: Some(param_size),
                        };
                    }
                }
"""
VEC = """        if let Some((name, param_size)) = c_decorated_name.rsplit_once("@@") {
            if let Ok(param_size) = param_size.parse::<u32>() {
                return Self {
                    name: name.to_string(),
                    param_size: Some(param_size),
                };
            }
        }
"""
REST = """        if c_decorated_name.starts_with(['@', '_']) {
            if let ("@" | "_", rest) = c_decorated_name.split_at(1) {
""" + STD + """                if &c_decorated_name[0..1] == "_" {
                    // __cdecl
                    return Self::name_only(rest.to_string());
                }
            }
        }
"""
V = [
    ("u-split-front", "C19", "bad", S, "= rest.rsplit_once('@') {", "= rest.split_once('@') {"),
    ("u-vec-front", "C19", "bad", S, '= c_decorated_name.rsplit_once("@@") {', '= c_decorated_name.split_once("@@") {'),
    ("u-vec-none", "C19", "bad", S, VEC, ""),
    ("u-cdecl-any", "C19", "bad", S, """                if &c_decorated_name[0..1] == "_" {
                    // __cdecl
                    return Self::name_only(rest.to_string());
                }
""", "                return Self::name_only(rest.to_string());\n"),
    ("u-whole-kept", "C19", "bad", S, """                        // __stdcall or __fastcall
                        return Self {
                            name: name.to_string(),""", """                        // __stdcall or __fastcall
                        return Self {
                            name: c_decorated_name.to_string(),"""),
    ("u-lead-kept", "C19", "bad", S, "= rest.rsplit_once('@') {", "= c_decorated_name.rsplit_once('@') {"),
    ("u-no-size-cut", "C19", "bad", S, """                    if let Ok(param_size) = param_size.parse::<u32>() {
                        // __stdcall or __fastcall
                        return Self {
                            name: name.to_string(),
                            param_size: Some(param_size),
                        };
                    }
""", """                    return Self {
                        name: name.to_string(),
                        param_size: param_size.parse::<u32>().ok(),
                    };
"""),
    ("u-trim", "C19", "bad", S, "return Self::name_only(rest.to_string());", "return Self::name_only(rest.trim_start_matches('_').to_string());"),
    ("u-colon", "C19", "bad", S, "if name.contains([':', '(']) {", "if name.contains(['(']) {"),
    ("u-size-lost", "C19", "bad", C, """                    let parameter_size = parsed_win_name
                        .and_then(|n| n.param_size)
                        .unwrap_or_default();
""", "                    let parameter_size = 0;\n", C, "sym.parameter_size = size;", "let _ = size;"),
    ("u-size-len", "C19", "bad", C, ".unwrap_or_default();\n                    e.insert(Symbol {", ".unwrap_or(sym.size as u32);\n                    e.insert(Symbol {"),
    ("u-ok-strip", "C19", "ok", S, REST, """        if let Some(rest) = c_decorated_name.strip_prefix(['@', '_']) {
""" + STD.replace("                    ", "                ").replace("                if let Some((", "            if let Some((") + """            if c_decorated_name.starts_with('_') {
                return Self::name_only(rest.to_string());
            }
        }
"""),
    ("u-ok-two", "C19", "ok", S, REST, """        let fast = c_decorated_name.strip_prefix('@');
        let cdecl = c_decorated_name.strip_prefix('_');
        if let Some(rest) = fast.or(cdecl) {
""" + STD + """        }
        if let Some(rest) = cdecl {
            return Self::name_only(rest.to_string());
        }
"""),
    ("u-ok-helper", "C19", "ok", S, VEC, """        if let Some(parsed) = Self::with_size(c_decorated_name, "@@") {
            return parsed;
        }
""", S, STD, """                if let Some(parsed) = Self::with_size(rest, "@") {
                    return parsed;
                }
""", S, "    pub fn parse_unknown(name: &str) -> Self {", """    fn with_size(name: &str, sep: &str) -> Option<Self> {
        let (name, size) = name.rsplit_once(sep)?;
        let param_size = Some(size.parse().ok()?);
        Some(Self {
            name: name.to_string(),
            param_size,
        })
    }

    pub fn parse_unknown(name: &str) -> Self {"""),
    ("u-ok-or", "C19", "ok", S, "if name.contains([':', '(']) {", "if name.contains(':') || name.contains('(') {"),
    ("u-ok-any", "C19", "ok", S, "if name.contains([':', '(']) {", "if name.chars().any(|c| matches!(c, ':' | '(')) {"),
    ("u-ok-rfind", "C19", "ok", S, STD, """                if let Some(at) = rest.rfind('@') {
                    if let Ok(param_size) = rest[at + 1..].parse::<u32>() {
                        return Self {
                            name: rest[..at].to_string(),
                            param_size: Some(param_size),
                        };
                    }
                }
"""),
    ("u-ok-match", "C19", "ok", C, """                    let parameter_size = parsed_win_name
                        .and_then(|n| n.param_size)
                        .unwrap_or_default();
""", """                    let parameter_size = match &parsed_win_name {
                        Some(n) => n.param_size.unwrap_or(0),
                        None => 0,
                    };
"""),
    ("u-ok-byte", "C19", "ok", S, 'if &c_decorated_name[0..1] == "_" {', "if c_decorated_name.as_bytes()[0] == b'_' {"),
    ("u-ok-flag", "C19", "ok", S, 'if &c_decorated_name[0..1] == "_" {', "if c_decorated_name.starts_with('_') {"),
    ("u-ok-first", "C19", "ok", S, 'if &c_decorated_name[0..1] == "_" {', "if c_decorated_name.chars().next() == Some('_') {"),
    ("u-ok-notat", "C19", "ok", S, 'if &c_decorated_name[0..1] == "_" {', "if !c_decorated_name.starts_with('@') {"),
]

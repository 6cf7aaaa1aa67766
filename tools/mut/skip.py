"""Which symbols of the symbol table are left out (C11)."""
S = "src/symbol.rs"
C = "src/collector.rs"
F = '''fn is_constant_string(name: &str) -> bool {
    name.starts_with("??_C")
}

fn is_constant_number(name: &str) -> bool {
    if let Some(name) = name.strip_prefix("__") {
        name.starts_with("real@") || name.starts_with("xmm@") || name.starts_with("ymm@")
    } else {
        false
    }
}

pub fn should_skip_symbol(name: &str) -> bool {
    is_constant_string(name) || is_constant_number(name)
}'''
V = [
 ("prefix", "C11", "bad", S, 'name.starts_with("??_C")', 'name.starts_with("??_")'),
 ("contains", "C11", "bad", S, 'name.starts_with("??_C")', 'name.contains("??_C")'),
 ("or", "C11", "bad", S, 'is_constant_string(name) || is_constant_number(name)', 'is_constant_string(name) || is_constant_number(name) || name.starts_with("__imp_")'),
 ("under", "C11", "bad", S, '    if let Some(name) = name.strip_prefix("__") {', '    if let Some(name) = name.strip_prefix("_") {'),
 ("trim", "C11", "bad", S, '    if let Some(name) = name.strip_prefix("__") {', '    let name = name.trim_start_matches(\'_\');\n    if !name.is_empty() {'),
 ("dollar", "C11", "bad", C, "if should_skip_symbol(", "if name.starts_with('$') || should_skip_symbol("),
 ("flat", "C11", "ok", S, F, '''pub fn should_skip_symbol(name: &str) -> bool {
    name.starts_with("??_C") || name.starts_with("__real@") || name.starts_with("__xmm@") || name.starts_with("__ymm@")
}'''),
 ("any", "C11", "ok", S, F, '''pub fn should_skip_symbol(name: &str) -> bool {
    const CONSTANTS: [&str; 4] = ["??_C", "__real@", "__xmm@", "__ymm@"];
    CONSTANTS.iter().any(|p| name.starts_with(p))
}'''),
 ("any-bad", "C11", "bad", S, F, '''pub fn should_skip_symbol(name: &str) -> bool {
    const CONSTANTS: [&str; 4] = ["??_C", "__real@", "__xmm", "__ymm@"];
    CONSTANTS.iter().any(|p| name.starts_with(p))
}'''),
 ("loop", "C11", "ok", S, F, '''pub fn should_skip_symbol(name: &str) -> bool {
    for p in ["??_C", "__real@", "__xmm@", "__ymm@"] {
        if name.starts_with(p) {
            return true;
        }
    }
    false
}'''),
 ("slice", "C11", "ok", S, '    if let Some(name) = name.strip_prefix("__") {', '    if name.starts_with("__") {\n        let name = &name[2..];'),
 ("isand", "C11", "ok", S, F, '''pub fn should_skip_symbol(name: &str) -> bool {
    name.starts_with("??_C")
        || name.strip_prefix("__").is_some_and(|rest| ["real@", "xmm@", "ymm@"].iter().any(|p| rest.starts_with(p)))
}'''),
 ("get", "C11", "ok", S, 'name.starts_with("??_C")', 'name.get(..4) == Some("??_C")'),
 ("bytes", "C11", "ok", S, 'name.starts_with("??_C")', 'name.as_bytes().starts_with(b"??_C")'),
 ("pattern", "C11", "ok", S, 'name.starts_with("??_C")', "matches!(name.as_bytes(), [b'?', b'?', b'_', b'C', ..])"),
 ("matches", "C11", "ok", S, F, '''pub fn should_skip_symbol(name: &str) -> bool {
    match name.strip_prefix("__") {
        Some(rest) => matches!(rest.split_once('@'), Some(("real" | "xmm" | "ymm", _))),
        None => name.starts_with("??_C"),
    }
}'''),
]

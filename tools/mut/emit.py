OI="src/object_info.rs"; SY="src/symbol.rs"; LI="src/line.rs"; CO="src/common.rs"; IO="src/inline_origins.rs"
V=[
 ("hex-upper","C07","bad",SY,'"PUBLIC {}{:x} {:x} {}"','"PUBLIC {}{:X} {:x} {}"'),
 ("param-dec","C07","bad",SY,'"FUNC {}{:x} {:x} {:x} {}"','"FUNC {}{:x} {:x} {} {}"'),
 ("m-swapped","C07","bad",SY,'if self.is_multiple { "m " } else { "" },','if self.is_multiple && self.len > 0 { "m " } else { "" },'),
 ("m-func-none","C07","bad",SY,'"FUNC {}{:x} {:x} {:x} {}",\n                if self.is_multiple { "m " } else { "" },','"FUNC {}{:x} {:x} {:x} {}",\n                if self.is_public { "m " } else { "" },'),
 ("name-raw","C07","bad",SY,'                name,\n            )?;\n\n','                self.name,\n            )?;\n\n'),
 ("name-blank","C07 C19","bad",SY,'let name = if name.trim().is_empty() {','let name = if name.is_empty() {'),
 ("name-blank2","C07 C19","bad",SY,'let name = if name.trim().is_empty() {','let name = if self.name.trim().is_empty() {'),
 ("origin-blank","C07 C19","bad",OI,'if function_name.trim().is_empty()','if function_name.is_empty()'),
 ("name-all","C07 C19","ok",SY,'let name = if name.trim().is_empty() {','let name = if name.chars().all(char::is_whitespace) {'),
 ("name-only-nl","C07","bad",CO,"filter(|c| !c.is_ascii_control())","filter(|c| *c != '\\n')"),
 ("retain-nl","C07","bad",IO,"name.retain(|c| !c.is_ascii_control());","name.retain(|c| c != '\\n' && c != '\\r');"),
 ("retain-skip","C07","bad",IO,"name.retain(|c| !c.is_ascii_control());","if name.len() < 512 { name.retain(|c| !c.is_ascii_control()); }"),
 ("file-raw","C07","bad",OI,"common::remove_control_chars(file_name))?;","file_name)?;"),
 ("module-raw","C07","bad",OI,"common::remove_control_chars(&self.file_name)","self.file_name"),
 ("code-raw","C07","bad",OI,'common::remove_control_chars(line.trim())','line.trim()'),
 ("file-1","C07","bad",OI,'.iter().enumerate() {\n            writeln!(f, "FILE','.iter().enumerate().skip(1) {\n            writeln!(f, "FILE'),
 ("file-num","C07","bad",OI,'"FILE {n} {}"','"FILE {} {}", n + 1'),
 ("file-empty","C07","bad",OI,'            writeln!(f, "FILE {n} {}"','            if file_name.is_empty() { continue; }\n            writeln!(f, "FILE {n} {}"'),
 ("origin-dedup","C07","bad",OI,'            let function_name = if function_name.trim','            if n > 0 && self.inline_origins[n - 1] == *function_name { continue; }\n            let function_name = if function_name.trim'),
 ("sym-skip","C07","bad",OI,'            write!(f, "{sym}")?;','            if sym.len == 0 && sym.is_public && sym.is_synthetic { continue; }\n            write!(f, "{sym}")?;'),
 ("inline-fields","C07","bad",LI,"site.call_depth, site.call_line_number, site.call_file_id, site.inline_origin_id,","site.call_depth, site.call_line_number, site.inline_origin_id, site.call_file_id,"),
 ("range-swap","C07","bad",LI,"range.rva, range.len)?","range.len, range.rva)?"),
 ("line-hex","C07","bad",LI,'"{:x} {:x} {} {}",','"{:x} {:x} {:x} {}",'),
 ("lines-first","C07","ok",LI,'''        let mut inlines: Vec<(&_, &_)> = self.inlines.iter().collect();
        inlines.sort_by_key(|(site, ranges)| (ranges.first().unwrap().rva, site.call_depth));
        for (site, ranges) in inlines {
            write_inline_record(site, ranges, f)?;
        }
''','''        let mut inlines: Vec<(&_, &_)> = self.inlines.iter().collect();
        inlines.sort_by_key(|(site, ranges)| (ranges.first().unwrap().rva, site.call_depth));
        inlines.iter().try_for_each(|(site, ranges)| write_inline_record(site, ranges, f))?;
'''),
 ("lines-len0","C07","bad",LI,'            write_line_record(line, f)?;','            if line.len == 0 { continue; }\n            write_line_record(line, f)?;'),
 ("stack-before","C07","bad",OI,'''        write!(f, "{}", self.stack)?;

        Ok''','''        Ok''',OI,'''        for (_, sym) in self.symbols.iter() {''','''        write!(f, "{}", self.stack)?;
        for (_, sym) in self.symbols.iter() {'''),
 ("stack-nl","C07","bad",OI,"""            if *left.stack.as_bytes().last().unwrap() != b'\\n' {
                left.stack.push('\\n');
            }
""",""),
 ("stack-nl-inv","C07","bad",OI,"*left.stack.as_bytes().last().unwrap() != b'\\n'","*left.stack.as_bytes().last().unwrap() == b'\\n'"),
 ("stack-right","C07","bad",OI,"*left.stack.as_bytes().last().unwrap() != b'\\n'","*right.stack.as_bytes().last().unwrap() != b'\\n'"),
 ("stack-ends","C07","ok",OI,"*left.stack.as_bytes().last().unwrap() != b'\\n'","!left.stack.ends_with('\\n')"),
 ("public-lines","C07","bad",SY,"        if self.is_public {\n            writeln!","        if self.is_public || self.len == 0 {\n            writeln!"),
 ("h-marker","C07","ok",SY,'''        if self.is_public {
            writeln!(''','''        let m = if self.is_multiple { "m " } else { "" };
        if self.is_public {
            writeln!(''',SY,'''                if self.is_multiple { "m " } else { "" },''','''                m,''',SY,'''                if self.is_multiple { "m " } else { "" },''','''                m,'''),
 ("h-files","C07","ok",OI,'''        for (n, file_name) in self.files.get_mapping().iter().enumerate() {
            writeln!(f, "FILE {n} {}", common::remove_control_chars(file_name))?;
        }''','''        let mut n = 0;
        for file_name in self.files.get_mapping() {
            writeln!(f, "FILE {n} {}", common::remove_control_chars(file_name))?;
            n += 1;
        }'''),
 ("h-values","C07","ok",OI,'''for (_, sym) in self.symbols.iter() {''','''for sym in self.symbols.values() {'''),
 ("h-fmt","C07","ok",OI,'''            write!(f, "{sym}")?;''','''            sym.fmt(f)?;'''),
 ("h-module","C07","ok",OI,'''        writeln!(
            f,
            "MODULE {} {} {} {}",
            self.platform,
            self.cpu,
            self.debug_id,
            common::remove_control_chars(&self.file_name)
        )?;''','''        let name = common::remove_control_chars(&self.file_name);
        write!(f, "MODULE {} ", self.platform)?;
        write!(f, "{} {} ", self.cpu, self.debug_id)?;
        f.write_str(&name)?;
        f.write_str("\\n")?;'''),
 ("h-records","C07","ok",OI,'''        for (n, function_name) in self.inline_origins.iter().enumerate() {
            let function_name = if function_name.trim().is_empty() {
                "<name omitted>"
            } else {
                function_name
            };
            writeln!(f, "INLINE_ORIGIN {n} {function_name}")?;
        }''','''        self.inline_origins.iter().enumerate().try_for_each(|(n, name)| {
            match name.trim() {
                "" => writeln!(f, "INLINE_ORIGIN {n} <name omitted>"),
                _ => writeln!(f, "INLINE_ORIGIN {n} {name}"),
            }
        })?;'''),
 ("h-clean","C07","ok",CO,"    name.chars().filter(|c| !c.is_ascii_control()).collect()","    let mut out = name.to_string();\n    out.retain(|c| !c.is_ascii_control());\n    out"),
 ("h-clean2","C07","ok",CO,"    name.chars().filter(|c| !c.is_ascii_control()).collect()","    let mut out = String::with_capacity(name.len());\n    for c in name.chars() {\n        if !c.is_ascii_control() {\n            out.push(c);\n        }\n    }\n    out"),
 ("h-clean3","C07","ok",CO,"    name.chars().filter(|c| !c.is_ascii_control()).collect()","    name.replace(|c: char| c.is_ascii_control(), \"\")"),
 ("h-san","C07","ok",IO,"        let mut name = Self::demangle(name);\n\n        // Remove control characters such as \\n.\n        name.retain(|c| !c.is_ascii_control());\n\n        name","        common::remove_control_chars(&Self::demangle(name))"),
 ("h-if-m","C07","ok",SY,'''            writeln!(
                f,
                "PUBLIC {}{:x} {:x} {}",
                if self.is_multiple { "m " } else { "" },
                self.rva,
                self.parameter_size,
                name,
            )?;''','''            write!(f, "PUBLIC ")?;
            if self.is_multiple {
                write!(f, "m ")?;
            }
            writeln!(
                f,
                "{:x} {:x} {}",
                self.rva,
                self.parameter_size,
                name,
            )?;'''),
]

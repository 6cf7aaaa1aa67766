CO="src/collector.rs"; SY="src/symbol.rs"; OI="src/object_info.rs"
V=[
 # C10
 ("key-other","C10","bad",CO,"        self.syms.insert(\n            fun.address as u32,","        self.syms.insert(\n            (fun.address as u32) & !1,"),
 ("rva-other","C10","bad",CO,"                rva: fun.address as u32,","                rva: (fun.address & 0x7fff_ffff) as u32,"),
 ("len-other","C10","bad",CO,"                len: fun.size as u32,","                len: (fun.size as u32).max(1),"),
 ("pub-len","C10","bad",CO,"                        len: sym.size as u32,","                        len: 0,"),
 ("pub-key","C10","bad",CO,"match self.syms.entry(sym.address as u32) {","match self.syms.entry(sym.address as u32 & 0xffff_fffe) {"),
 ("ph-len","C10","bad",CO,"                        len: size,","                        len: size + 1,"),
 ("ph-end","C10","bad",CO,"                        rva: function.begin_address,","                        rva: function.end_address,"),
 ("sec-off","C10","bad",SY,"let rva = header.sh_addr as u32;","let rva = header.sh_offset as u32;"),
 ("dummy-len","C10","bad",SY,"rva.checked_add(len.max(1))","rva.checked_add(len)"),
 ("dummy-first","C10","ok",SY,"rva.checked_add(len.max(1))","rva.checked_add(std::cmp::max(len, 1))"),
 ("merge-key","C10","bad",OI,"                    btree_map::Entry::Vacant(e) => {\n                        e.insert(sym.clone());","                    btree_map::Entry::Vacant(e) => {\n                        let mut s = sym.clone(); s.len = s.len.max(1); e.insert(s);"),
 ("merge-key2","C10","bad",OI,"            // Deal with a FUNC\n            match left.symbols.entry(*addr) {","            // Deal with a FUNC\n            match left.symbols.entry(addr.saturating_add(0x1000)) {"),
 ("rev","C10","bad",OI,"for (_, sym) in self.symbols.iter() {","for (_, sym) in self.symbols.iter().rev() {"),
 ("print-len","C10","bad",SY,"                self.rva,\n                self.len,","                self.rva,\n                self.len.max(1),"),
 ("remap-rva","C10","bad",SY,"        if let Some(file_remapping) = file_remapping {\n            for line in self.source","        if self.rva == 0 { self.rva = 1; }\n        if let Some(file_remapping) = file_remapping {\n            for line in self.source"),
 ("h-rva","C10 C11","ok",CO,"        if fun.address == 0 {\n            return;\n        }\n\n        if let Some(sym) = self.syms.get_mut(&(fun.address as u32)) {","        let rva = fun.address as u32;\n        if fun.address == 0 {\n            return;\n        }\n\n        if let Some(sym) = self.syms.get_mut(&rva) {",CO,"        self.syms.insert(\n            fun.address as u32,","        self.syms.insert(\n            rva,",CO,"                rva: fun.address as u32,","                rva,"),
 ("h-symrva","C10 C11","ok",OI,"match left.symbols.entry(*addr) {\n                btree_map::Entry::Occupied(mut e) => {\n                    let a_sym","match left.symbols.entry(sym.rva) {\n                btree_map::Entry::Occupied(mut e) => {\n                    let a_sym"),
 ("h-newsym","C10 C11","ok",CO,'''                    e.insert(Symbol {
                        name: name.clone(),
                        is_public: false,
                        is_multiple: false,
                        is_synthetic: true,
                        rva: function.begin_address,
                        len: size,
                        parameter_size: 0,
                        source: Lines::default(),
                    });''','''                    e.insert(Self::placeholder(&name, function.begin_address, size));''',CO,'''    fn demangle(name: &Name)''','''    fn placeholder(name: &str, rva: u32, len: u32) -> Symbol {
        Symbol {
            name: name.to_string(),
            is_synthetic: true,
            rva,
            len,
            ..Default::default()
        }
    }

    fn demangle(name: &Name)'''),
 # C11
 ("fun-replace","C11","bad",CO,"            if !sym.is_public {\n                sym.is_multiple = true;\n                return;","            if !sym.is_public && sym.len >= fun.size as u32 {\n                sym.is_multiple = true;\n                return;"),
 ("fun-nomult","C11","bad",CO,"                sym.is_multiple = true;\n                return;","                return;"),
 ("fun-zero","C11","bad",CO,"        if fun.address == 0 {\n            return;\n        }\n\n","        if fun.address == 0 && fun.size == 0 {\n            return;\n        }\n\n"),
 ("fun-nolines","C11","bad",CO,"        if fun.address == 0 {\n            return;\n        }\n\n","        if fun.address == 0 || fun.size == 0 {\n            return;\n        }\n\n"),
 ("pub-inside","C11","bad",CO,"            if self.syms.is_inside_symbol(sym.address as u32) {\n                continue;\n            }\n\n",""),
 ("pub-inside-win","C11","bad",CO,"            if self.syms.is_inside_symbol(sym.address as u32) {","            if self.platform != Platform::Win && self.syms.is_inside_symbol(sym.address as u32) {"),
 ("inside-le","C11","bad",SY,"rva - last.1.rva < last.1.len","rva - last.1.rva <= last.1.len"),
 ("inside-lt","C11","bad",SY,"rva - last.1.rva < last.1.len","rva - last.1.rva + 1 < last.1.len"),
 ("inside-incl","C11","bad",SY,"Excluded(rva)","Included(rva)"),
 ("inside-first","C11","bad",SY,".next_back();",".next();"),
 ("pub-nomult","C11","bad",CO,"                    if sym.is_public {\n                        sym.is_multiple = true;\n                    } else","                    if sym.is_public {\n                        sym.is_multiple = sym.len == 0;\n                    } else"),
 ("pub-noname","C11","bad",CO,"            if let Some(name) = sym.name() {\n                if should_skip_symbol(name) {\n                    continue;\n                }\n            }","            match sym.name() {\n                Some(name) if !should_skip_symbol(name) => {}\n                _ => continue,\n            }"),
 ("ph-over","C11","bad",CO,"                btree_map::Entry::Occupied(_) => {}\n                btree_map::Entry::Vacant(e) => {\n                    e.insert(Symbol {\n                        name: name.clone(),","                btree_map::Entry::Occupied(mut e) if e.get().is_public => {\n                    e.get_mut().is_public = false;\n                }\n                btree_map::Entry::Occupied(_) => {}\n                btree_map::Entry::Vacant(e) => {\n                    e.insert(Symbol {\n                        name: name.clone(),"),
 ("ph-inside","C11","bad",CO,"            if self.syms.is_inside_symbol(function.begin_address) {","            if size > 0x10 && self.syms.is_inside_symbol(function.begin_address) {"),
 ("sec-over","C11","bad",SY,"                    syms.entry(rva).or_insert(Symbol {\n                        name: symbol_name,","                    syms.insert(rva, Symbol {\n                        name: symbol_name,"),
 ("merge-synth","C11","bad",OI,"                        if sym.is_synthetic {\n                            // Do not replace an existing symbol with a synthetic one\n                            continue;\n                        }\n\n",""),
 ("merge-pubover","C11","bad",OI,"                        if e.get().is_synthetic {\n","                        if e.get().is_synthetic || e.get().source.lines.is_empty() {\n"),
 ("merge-func","C11","bad",OI,"if a_sym.is_public || a_sym.is_synthetic {","if a_sym.is_public && a_sym.is_synthetic {"),
 ("merge-func2","C11","bad",OI,"                    if !sym.is_synthetic {\n                        a_sym.is_multiple = true;\n                    }","                    if sym.is_synthetic {\n                        a_sym.is_multiple = true;\n                    }"),
 ("merge-inside","C11","bad",OI,"                if left.symbols.is_inside_symbol(*addr) {\n                    continue;\n                }\n",""),
 ("merge-inside-f","C11","bad",OI,"            // Deal with a FUNC\n","            if left.symbols.is_inside_symbol(*addr) {\n                continue;\n            }\n            // Deal with a FUNC\n"),
 ("order","C11","bad",OI,"        collector.collect_functions(&ds, &mut source, &mut inline_origins)?;\n\n","        collector.collect_publics(main_object);\n        collector.collect_functions(&ds, &mut source, &mut inline_origins)?;\n\n",OI,"        collector.collect_publics(main_object);\n\n        if let Some(buf)","        if let Some(buf)"),
 ("nopubs","C11","bad",OI,"        collector.collect_publics(main_object);\n","        if bin_type == Type::Stripped {\n            collector.collect_publics(main_object);\n        }\n"),
 ("retain","C11","bad",OI,"        let stack = get_stack_info","        collector.syms.retain(|_, s| s.len > 0 || s.is_public);\n        let stack = get_stack_info"),
 ("skip-fun","C11","bad",CO,"                Ok(fun) => {\n                    self.collect_function","                Ok(fun) if fun.lines.is_empty() && fun.size == 0 => {}\n                Ok(fun) => {\n                    self.collect_function"),
 ("h-flat","C11","ok",CO,'''            match fun {
                Ok(fun) => {
                    self.collect_function(&fun, source, inline_origins);
                }
                Err(e) => {
                    error!("Function collection: {e:?}");
                }
            }''','''            let fun = match fun {
                Ok(fun) => fun,
                Err(e) => {
                    error!("Function collection: {e:?}");
                    continue;
                }
            };
            self.collect_function(&fun, source, inline_origins);'''),
 ("h-inside","C11","ok",SY,'''        let last = self.range((Included(0), Excluded(rva))).next_back();
        last.is_some_and(|last| rva - last.1.rva < last.1.len)''','''        match self.range(..rva).next_back() {
            Some((start, sym)) => rva < start.saturating_add(sym.len),
            None => false,
        }'''),
 ("h-pubs","C11","ok",CO,'''            if let Some(name) = sym.name() {
                if should_skip_symbol(name) {
                    continue;
                }
            }
''','''            if sym.name().is_some_and(should_skip_symbol) {
                continue;
            }
'''),
 ("h-order","C11","ok",CO,'''            if self.syms.is_inside_symbol(sym.address as u32) {
                continue;
            }

            if let Some(name) = sym.name() {
                if should_skip_symbol(name) {
                    continue;
                }
            }
''','''            if let Some(name) = sym.name() {
                if should_skip_symbol(name) {
                    continue;
                }
            }

            if self.syms.is_inside_symbol(sym.address as u32) {
                continue;
            }
'''),
 ("h-contains","C11 C10","ok",CO,'''            match self.syms.entry(function.begin_address) {
                btree_map::Entry::Occupied(_) => {}
                btree_map::Entry::Vacant(e) => {
                    e.insert(Symbol {
                        name: name.clone(),
                        is_public: false,
                        is_multiple: false,
                        is_synthetic: true,
                        rva: function.begin_address,
                        len: size,
                        parameter_size: 0,
                        source: Lines::default(),
                    });
                }
            }''','''            self.syms.entry(function.begin_address).or_insert_with(|| Symbol {
                        name: name.clone(),
                        is_public: false,
                        is_multiple: false,
                        is_synthetic: true,
                        rva: function.begin_address,
                        len: size,
                        parameter_size: 0,
                        source: Lines::default(),
                    });'''),
 ("h-contains2","C11 C10","ok",CO,'''            match self.syms.entry(function.begin_address) {
                btree_map::Entry::Occupied(_) => {}
                btree_map::Entry::Vacant(e) => {
                    e.insert(Symbol {
                        name: name.clone(),
                        is_public: false,
                        is_multiple: false,
                        is_synthetic: true,
                        rva: function.begin_address,
                        len: size,
                        parameter_size: 0,
                        source: Lines::default(),
                    });
                }
            }''','''            if self.syms.contains_key(&function.begin_address) {
                continue;
            }
            self.syms.insert(function.begin_address, Symbol {
                        name: name.clone(),
                        is_public: false,
                        is_multiple: false,
                        is_synthetic: true,
                        rva: function.begin_address,
                        len: size,
                        parameter_size: 0,
                        source: Lines::default(),
                    });'''),
 ("h-sections","C11 C10","ok",SY,"            for header in elf.section_headers {\n                if header.is_executable() {","            for header in elf.section_headers.iter().filter(|h| h.is_executable()) {\n                {"),
 ("h-mergefn","C11 C10","ok",OI,'''                    sym.remap_lines(file_remapping.as_deref());
                    sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                    e.insert(sym.clone());''','''                    let mut new_sym = sym.clone();
                    new_sym.remap_lines(file_remapping.as_deref());
                    new_sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                    e.insert(new_sym);'''),
]

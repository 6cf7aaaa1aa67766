"""Refactorings of collector.rs: all the checks must stay quiet (cross.py)."""
C = "src/collector.rs"
ALL = "C11"
DEM = '''        match name.demangle(demangle_options()) {
            Some(demangled) => demangled,
            None => {
                let aname = name.as_str();
                warn!("Didn't manage to demangle {name:?}");
                aname.to_string()
            }
        }
'''
DEM2 = '''        match name.demangle(demangle_options()) {
            Some(demangled) => demangled,
            None => {
                warn!("Didn't manage to demangle {name}");
                name.to_string()
            }
        }
'''
HEADF = '''        if fun.address == 0 {
            return;
        }

        if let Some(sym) = self.syms.get_mut(&(fun.address as u32)) {
            if !sym.is_public {
                sym.is_multiple = true;
                return;
            }
        }
'''
INSF = '''        self.syms.insert(
            fun.address as u32,
            Symbol {
                name: Self::demangle(&fun.name),
                is_public: false,
                is_multiple: false,
                is_synthetic: false,
                rva: fun.address as u32,
                len: fun.size as u32,
                parameter_size: 0,
                source: lines,
            },
        );
    }
'''
LINES = '''        let mut lines = Lines::new();

        if self.collect_inlines {
            Self::collect_function_with_inlines_recursive(
                fun,
                &mut lines,
                source,
                inline_origins,
                0,
            );
        } else {
            Self::collect_function_without_inlines(fun, &mut lines, source);
        }

        // compute line length
        lines.finalize(fun.address as u32, fun.size as u32);

'''
NOINL = '''        let mut prev = None;
        for line in fun.lines.iter() {
            if line.line == 0 {
                // It's probably better to skip it to avoid to have some links in crash-stats pointing to line 0 in a file
                continue;
            }

            let file_id = source.get_id(fun.compilation_dir, &line.file);
            let line_info = (line.line, file_id);
            if prev.as_ref() != Some(&line_info) {
                lines.add_line(
                    line.address as u32,
                    line.line as u32,
                    source.get_true_id(file_id),
                );
                prev = Some(line_info);
            }
        }
'''
INLR = '''        for inlinee in &fun.inlinees {
            if inlinee.lines.is_empty() {
                continue;
            }

            let inline_origin_id = inline_origins.get_id(&inlinee.name);

            for line in &inlinee.lines {
                let start = line.address;
                let end = line.address.saturating_add(line.size.unwrap_or(1));
                inline_ranges.push((start..end, inline_origin_id));
            }
'''
EMITLINE = '''                if next_inline.is_none() || next_inline.as_ref().unwrap().0.start > current_address
                {
                    let line_info = (line_no, file_id);
'''
TAKE = '''                if next_inline.is_some() && next_inline.as_ref().unwrap().0.start < line_range_end {
                    let (inline_range, inline_origin_id) = next_inline.take().unwrap();
'''
FUNS = '''        for fun in ds.functions() {
            match fun {
                Ok(fun) => {
                    self.collect_function(&fun, source, inline_origins);
                }
                Err(e) => {
                    error!("Function collection: {e:?}");
                }
            }
        }
'''
OCC = '''                btree_map::Entry::Occupied(mut e) => {
                    let sym = e.get_mut();
                    if sym.is_public {
                        sym.is_multiple = true;
                    } else if let Some(parsed_win_name) = parsed_win_name {
                        // If we have both a symbol and a function at the same address, the function
                        // may not have parameters but the symbol's mangled name might.
                        if !sym.name.contains('(') {
                            // Get the name from the symbol.
                            sym.name = Self::demangle_str(&parsed_win_name.name);
                        }
                        if let Some(size) = parsed_win_name.param_size {
                            // Get the parameter size from the symbol.
                            sym.parameter_size = size;
                        }
                    }
                }
'''
VAC = '''                    let sym_name = match (&parsed_win_name, sym.name) {
                        (Some(name), _) => Self::demangle_str(&name.name),
                        (None, Some(name)) => Self::demangle_str(&name),
                        _ => "<name omitted>".to_string(),
                    };
                    let parameter_size = parsed_win_name
                        .and_then(|n| n.param_size)
                        .unwrap_or_default();
'''
SKIP = '''            if let Some(name) = sym.name() {
                if should_skip_symbol(name) {
                    continue;
                }
            }
'''
PLACE = '''            match self.syms.entry(function.begin_address) {
                btree_map::Entry::Occupied(_) => {}
                btree_map::Entry::Vacant(e) => {
                    e.insert(Symbol {
                        name: name.clone(),
                        is_public: false,
                        is_multiple: false,
                        is_synthetic: true,
                        rva: function.begin_address,
                        len: size,
                        parameter_size: 0,
                        source: Lines::default(),
                    });
                }
            }
'''
V = [
 ("c-dem-unwrap", ALL, "ok", C, DEM, '''        name.demangle(demangle_options()).unwrap_or_else(|| {
            warn!("Didn't manage to demangle {name:?}");
            name.as_str().to_string()
        })
'''),
 ("c-dem-shared", ALL, "ok", C, DEM, "        Self::demangle_or_keep(&name)\n", C, DEM2, "        Self::demangle_or_keep(&name)\n", C, "    fn demangle_str(name: &str) -> String {", '''    fn demangle_or_keep(name: &Name) -> String {
        if let Some(demangled) = name.demangle(demangle_options()) {
            return demangled;
        }
        warn!("Didn't manage to demangle {name:?}");
        name.as_str().to_string()
    }

    fn demangle_str(name: &str) -> String {'''),
 ("c-dem-match", ALL, "ok", C, '''        if let Language::C = name.language() {
            return name.as_str().to_string();
        }

''' + DEM, '''        match name.language() {
            Language::C => name.as_str().to_string(),
            _ => match name.demangle(demangle_options()) {
                Some(demangled) => demangled,
                None => {
                    warn!("Didn't manage to demangle {name:?}");
                    name.as_str().to_string()
                }
            },
        }
'''),
 ("c-demstr-match", ALL, "ok", C, '''        if lang == Language::Unknown {
            return name.to_string();
        }

''', '''        if matches!(lang, Language::Unknown) {
            return name.to_owned();
        }

'''),
 ("c-fun-rva", ALL, "ok", C, HEADF, '''        if fun.address == 0 {
            return;
        }

        let rva = fun.address as u32;
        let len = fun.size as u32;

        match self.syms.get_mut(&rva) {
            Some(sym) if !sym.is_public => {
                sym.is_multiple = true;
                return;
            }
            _ => {}
        }
''', C, "lines.finalize(fun.address as u32, fun.size as u32);", "lines.finalize(rva, len);", C, INSF, '''        let symbol = Symbol {
            name: Self::demangle(&fun.name),
            is_public: false,
            is_multiple: false,
            is_synthetic: false,
            rva,
            len,
            parameter_size: 0,
            source: lines,
        };
        self.syms.insert(rva, symbol);
    }
'''),
 ("c-fun-known", ALL, "ok", C, HEADF, '''        if fun.address == 0 || self.mark_known(fun.address as u32) {
            return;
        }
''', C, "    pub fn collect_function<'a>(", '''    /// Whether there is already a function at this address: it's then marked as multiple.
    fn mark_known(&mut self, rva: u32) -> bool {
        match self.syms.get_mut(&rva) {
            Some(sym) if !sym.is_public => {
                sym.is_multiple = true;
                true
            }
            _ => false,
        }
    }

    pub fn collect_function<'a>('''),
 ("c-fun-lines", ALL, "ok", C, LINES, "        let lines = self.collect_lines(fun, source, inline_origins);\n\n", C, "    fn collect_function_without_inlines(", '''    fn collect_lines<'a>(
        &self,
        fun: &Function<'a>,
        source: &mut SourceFiles,
        inline_origins: &mut InlineOrigins<'a>,
    ) -> Lines {
        let mut lines = Lines::new();
        if !self.collect_inlines {
            Self::collect_function_without_inlines(fun, &mut lines, source);
        } else {
            Self::collect_function_with_inlines_recursive(
                fun,
                &mut lines,
                source,
                inline_origins,
                0,
            );
        }
        lines.finalize(fun.address as u32, fun.size as u32);
        lines
    }

    fn collect_function_without_inlines('''),
 ("c-fun-nested", ALL, "ok", C, HEADF, '''        let addr = fun.address;
        if addr == 0 {
            return;
        }

        let known = self.syms.get_mut(&(addr as u32));
        if let Some(sym) = known.filter(|s| !s.is_public) {
            sym.is_multiple = true;
            return;
        }
'''),
 ("c-noinl-filter", ALL, "ok", C, NOINL, '''        let mut prev = None;
        for line in fun.lines.iter().filter(|line| line.line != 0) {
            let file_id = source.get_id(fun.compilation_dir, &line.file);
            let line_info = (line.line, file_id);
            if prev == Some(line_info) {
                continue;
            }
            let true_id = source.get_true_id(file_id);
            lines.add_line(line.address as u32, line.line as u32, true_id);
            prev = Some(line_info);
        }
'''),
 ("c-noinl-replace", ALL, "ok", C, NOINL, '''        let mut prev = None;
        for line in &fun.lines {
            if line.line == 0 {
                continue;
            }

            let file_id = source.get_id(fun.compilation_dir, &line.file);
            let line_info = Some((line.line, file_id));
            if line_info != prev {
                lines.add_line(
                    line.address as u32,
                    line.line as u32,
                    source.get_true_id(file_id),
                );
            }
            prev = line_info;
        }
'''),
 ("c-inl-extend", ALL, "ok", C, INLR, '''        for inlinee in fun.inlinees.iter().filter(|i| !i.lines.is_empty()) {
            let inline_origin_id = inline_origins.get_id(&inlinee.name);

            inline_ranges.extend(inlinee.lines.iter().map(|line| {
                let end = line.address.saturating_add(line.size.unwrap_or(1));
                (line.address..end, inline_origin_id)
            }));
'''),
 ("c-inl-end", ALL, "ok", C, "                let end = line.address.saturating_add(line.size.unwrap_or(1));\n", "                let end = Self::line_end(line);\n",
  C, "            let line_range_end = line.address.saturating_add(line.size.unwrap_or(1));\n", "            let line_range_end = Self::line_end(line);\n",
  C, "    fn collect_function_without_inlines(", '''    fn line_end(line: &symbolic::debuginfo::LineInfo) -> u64 {
        line.address.saturating_add(line.size.unwrap_or(1))
    }

    fn collect_function_without_inlines('''),
 ("c-inl-maporz", ALL, "ok", C, EMITLINE, '''                let covered = match &next_inline {
                    Some((range, _)) => range.start <= current_address,
                    None => false,
                };
                if !covered {
                    let line_info = (line_no, file_id);
'''),
 ("c-inl-isnoneor", ALL, "ok", C, EMITLINE, '''                if next_inline
                    .as_ref()
                    .map_or(true, |(range, _)| range.start > current_address)
                {
                    let line_info = (line_no, file_id);
'''),
 ("c-inl-takeif", ALL, "ok", C, TAKE, '''                let overlaps = next_inline
                    .as_ref()
                    .is_some_and(|(range, _)| range.start < line_range_end);
                if overlaps {
                    let (inline_range, inline_origin_id) = next_inline.take().unwrap();
'''),
 ("c-inl-matchtake", ALL, "ok", C, TAKE, '''                if let Some((inline_range, inline_origin_id)) =
                    next_inline.take_if(|(range, _)| range.start < line_range_end)
                {
'''),
 ("c-inl-site", ALL, "ok", C, '''                    let call_line_number = line_no;
                    let call_file_id = file_id;

                    lines.add_inline(
                        InlineSite {
                            inline_origin_id,
                            call_depth,
                            call_line_number,
                            call_file_id,
                        },
                        InlineAddressRange {
                            rva: inline_range.start as u32,
                            len: (inline_range.end - inline_range.start) as u32,
                        },
                    );
''', '''                    let site = InlineSite {
                        inline_origin_id,
                        call_depth,
                        call_line_number: line_no,
                        call_file_id: file_id,
                    };
                    let size = inline_range.end - inline_range.start;
                    let range = InlineAddressRange {
                        rva: inline_range.start as u32,
                        len: size as u32,
                    };
                    lines.add_inline(site, range);
'''),
 ("c-inl-forline", ALL, "ok", C, '''            while next_line.is_some() && next_line.as_ref().unwrap().address < current_address {
                next_line = line_iter.next();
            }
''', '''            while let Some(line) = next_line {
                if line.address >= current_address {
                    break;
                }
                next_line = line_iter.next();
            }
'''),
 ("c-inl-find", ALL, "ok", C, '''            // Advance the line iterator.
            next_line = line_iter.next();
''', "", C, '''            while next_line.is_some() && next_line.as_ref().unwrap().address < current_address {
                next_line = line_iter.next();
            }
''', '''            next_line = line_iter.find(|line| line.address >= current_address);
'''),
 ("c-inl-sortby", ALL, "ok", C, "inline_ranges.sort_unstable_by_key(|(range, _origin)| range.start);", "inline_ranges.sort_unstable_by(|(a, _), (b, _)| a.start.cmp(&b.start));"),
 ("c-inl-stable", ALL, "ok", C, "inline_ranges.sort_unstable_by_key(|(range, _origin)| range.start);", "inline_ranges.sort_by_key(|r| r.0.start);"),
 ("c-funs-iflet", ALL, "ok", C, FUNS, '''        for fun in ds.functions() {
            if let Err(e) = &fun {
                error!("Function collection: {e:?}");
            }
            if let Ok(fun) = fun {
                self.collect_function(&fun, source, inline_origins);
            }
        }
'''),
 ("c-funs-letelse", ALL, "ok", C, FUNS, '''        for fun in ds.functions() {
            let fun = match fun {
                Ok(fun) => fun,
                Err(e) => {
                    error!("Function collection: {e:?}");
                    continue;
                }
            };
            self.collect_function(&fun, source, inline_origins);
        }
'''),
 ("c-funs-foreach", ALL, "ok", C, FUNS, '''        ds.functions().for_each(|fun| match fun {
            Ok(fun) => self.collect_function(&fun, source, inline_origins),
            Err(e) => error!("Function collection: {e:?}"),
        });
'''),
 ("c-funs-filtermap", ALL, "ok", C, FUNS, '''        let functions = ds.functions().filter_map(|fun| {
            fun.inspect_err(|e| error!("Function collection: {e:?}"))
                .ok()
        });
        for fun in functions {
            self.collect_function(&fun, source, inline_origins);
        }
'''),
 ("c-pub-occfn", ALL, "ok", C, OCC, '''                btree_map::Entry::Occupied(mut e) => {
                    Self::complete(e.get_mut(), parsed_win_name);
                }
''', C, "    // This runs after collect_functions / collect_placeholder_functions.\n", '''    fn complete(sym: &mut Symbol, parsed_win_name: Option<ParsedWinFuncName>) {
        if sym.is_public {
            sym.is_multiple = true;
            return;
        }
        let Some(parsed) = parsed_win_name else {
            return;
        };
        if !sym.name.contains('(') {
            sym.name = Self::demangle_str(&parsed.name);
        }
        if let Some(size) = parsed.param_size {
            sym.parameter_size = size;
        }
    }

    // This runs after collect_functions / collect_placeholder_functions.
'''),
 ("c-pub-rva", ALL, "ok", C, "            if self.syms.is_inside_symbol(sym.address as u32) {\n                continue;\n            }\n\n" + SKIP, '''            let rva = sym.address as u32;
            let skipped = sym.name().is_some_and(should_skip_symbol);
            if skipped || self.syms.is_inside_symbol(rva) {
                continue;
            }
''', C, "match self.syms.entry(sym.address as u32) {", "match self.syms.entry(rva) {", C, "                        rva: sym.address as u32,\n", "                        rva,\n"),
 ("c-pub-skipmatch", ALL, "ok", C, SKIP, '''            match sym.name() {
                Some(name) if should_skip_symbol(name) => continue,
                _ => {}
            }
'''),
 ("c-pub-skipor", ALL, "ok", C, SKIP, '''            if sym.name().map(should_skip_symbol).unwrap_or(false) {
                continue;
            }
'''),
 ("c-pub-filter", ALL, "ok", C, "        for sym in o.symbols() {\n            if self.syms.is_inside_symbol(sym.address as u32) {\n                continue;\n            }\n\n" + SKIP,
  '''        let wanted = o
            .symbols()
            .filter(|sym| !sym.name().is_some_and(should_skip_symbol));
        for sym in wanted {
            if self.syms.is_inside_symbol(sym.address as u32) {
                continue;
            }

'''),
 ("c-pub-vac", ALL, "ok", C, VAC, '''                    let (sym_name, parameter_size) = match (parsed_win_name, sym.name) {
                        (Some(parsed), _) => (
                            Self::demangle_str(&parsed.name),
                            parsed.param_size.unwrap_or(0),
                        ),
                        (None, Some(name)) => (Self::demangle_str(&name), 0),
                        (None, None) => (String::from("<name omitted>"), 0),
                    };
'''),
 ("c-pub-get", ALL, "ok", C, '''            match self.syms.entry(sym.address as u32) {
''' + OCC + '''                btree_map::Entry::Vacant(e) => {
''' + VAC + '''                    e.insert(Symbol {
                        name: sym_name,
                        is_public: true,
                        is_multiple: false,
                        is_synthetic: false,
                        rva: sym.address as u32,
                        len: sym.size as u32,
                        parameter_size,
                        source: Lines::default(),
                    });
                }
            }
''', '''            if let Some(known) = self.syms.get_mut(&(sym.address as u32)) {
                if known.is_public {
                    known.is_multiple = true;
                } else if let Some(parsed_win_name) = parsed_win_name {
                    if !known.name.contains('(') {
                        known.name = Self::demangle_str(&parsed_win_name.name);
                    }
                    if let Some(size) = parsed_win_name.param_size {
                        known.parameter_size = size;
                    }
                }
                continue;
            }

            let sym_name = match (&parsed_win_name, sym.name) {
                (Some(name), _) => Self::demangle_str(&name.name),
                (None, Some(name)) => Self::demangle_str(&name),
                _ => "<name omitted>".to_string(),
            };
            let parameter_size = parsed_win_name
                .and_then(|n| n.param_size)
                .unwrap_or_default();
            self.syms.insert(
                sym.address as u32,
                Symbol {
                    name: sym_name,
                    is_public: true,
                    is_multiple: false,
                    is_synthetic: false,
                    rva: sym.address as u32,
                    len: sym.size as u32,
                    parameter_size,
                    source: Lines::default(),
                },
            );
'''),
 ("c-pub-winmatch", ALL, "ok", C, '''            let parsed_win_name = if self.platform == Platform::Win {
                sym.name().map(ParsedWinFuncName::parse_unknown)
            } else {
                None
            };
''', '''            let parsed_win_name = match self.platform {
                Platform::Win => sym.name().map(ParsedWinFuncName::parse_unknown),
                _ => None,
            };
'''),
 ("c-pub-winfilter", ALL, "ok", C, '''            let parsed_win_name = if self.platform == Platform::Win {
                sym.name().map(ParsedWinFuncName::parse_unknown)
            } else {
                None
            };
''', '''            let parsed_win_name = sym
                .name()
                .filter(|_| self.platform == Platform::Win)
                .map(ParsedWinFuncName::parse_unknown);
'''),
 ("c-place-contains", ALL, "ok", C, PLACE, '''            if self.syms.contains_key(&function.begin_address) {
                continue;
            }
            self.syms.insert(
                function.begin_address,
                Symbol {
                    name: name.clone(),
                    is_public: false,
                    is_multiple: false,
                    is_synthetic: true,
                    rva: function.begin_address,
                    len: size,
                    parameter_size: 0,
                    source: Lines::default(),
                },
            );
'''),
 ("c-place-orinsert", ALL, "ok", C, PLACE, '''            self.syms
                .entry(function.begin_address)
                .or_insert_with(|| Symbol {
                    name: name.clone(),
                    is_public: false,
                    is_multiple: false,
                    is_synthetic: true,
                    rva: function.begin_address,
                    len: size,
                    parameter_size: 0,
                    source: Lines::default(),
                });
'''),
 ("c-place-flatten", ALL, "ok", C, "exception_data.into_iter().filter_map(|result| result.ok())", "exception_data.into_iter().flatten()"),
 ("c-place-match", ALL, "ok", C, '''        for function in exception_data.into_iter().filter_map(|result| result.ok()) {
            let size''', '''        for function in exception_data {
            let Ok(function) = function else {
                continue;
            };
            let size'''),
 ("c-place-name", ALL, "ok", C, '''        let name = if module_name.is_empty() {
            String::from("<unknown>")
        } else {
            format!("<unknown in {module_name}>")
        };
''', '''        let name = match module_name {
            "" => "<unknown>".to_string(),
            _ => format!("<unknown in {}>", module_name),
        };
'''),
 ("c-place-letelse", ALL, "ok", C, '''            let size = match function.end_address.checked_sub(function.begin_address) {
                Some(size) => size,
                None => continue,
            };
''', '''            let Some(size) = function.end_address.checked_sub(function.begin_address) else {
                continue;
            };
'''),
]

# Refactorings of object_info.rs that change no behaviour: every check stays quiet.
O = "src/object_info.rs"
ALL = "C02 C06 C07 C08 C09 C10 C11 C15 C18 C19 C20 C23"
V = []
def ok(name, *e):
    V.append((name, ALL, "ok", O) + e[:2] + tuple(x for i in range(2, len(e), 2) for x in (O, e[i], e[i + 1])))

ok("enum-loop", """        for (n, file_name) in self.files.get_mapping().iter().enumerate() {
            writeln!(f, "FILE {n} {}", common::remove_control_chars(file_name))?;
        }
""", """        let mut n = 0;
        for file_name in self.files.get_mapping().iter() {
            writeln!(f, "FILE {} {}", n, common::remove_control_chars(file_name))?;
            n += 1;
        }
""")
ok("try-for-each", """        for (n, file_name) in self.files.get_mapping().iter().enumerate() {
            writeln!(f, "FILE {n} {}", common::remove_control_chars(file_name))?;
        }
""", """        self.files
            .get_mapping()
            .iter()
            .enumerate()
            .try_for_each(|(n, file_name)| {
                writeln!(f, "FILE {n} {}", common::remove_control_chars(file_name))
            })?;
""")
ok("zip-range", """        for (n, file_name) in self.files.get_mapping().iter().enumerate() {
""", """        for (n, file_name) in (0..).zip(self.files.get_mapping().iter()) {
            let n: usize = n;
""")
ok("origin-helper", """            let function_name = if function_name.trim().is_empty() {
                "<name omitted>"
            } else {
                function_name
            };
            writeln!(f, "INLINE_ORIGIN {n} {function_name}")?;
""", """            write_origin(f, n, function_name)?;
""", """fn get_stack_info(""", """fn write_origin(f: &mut Formatter<'_>, n: usize, name: &str) -> std::fmt::Result {
    let shown = match name.trim() {
        "" => "<name omitted>",
        _ => name,
    };
    writeln!(f, "INLINE_ORIGIN {} {}", n, shown)
}

fn get_stack_info(""")
ok("sym-values", """        for (_, sym) in self.symbols.iter() {
            write!(f, "{sym}")?;
        }

        write!(f, "{}", self.stack)?;

        Ok(())
""", """        for sym in self.symbols.values() {
            sym.fmt(f)?;
        }

        f.write_str(&self.stack)
""")
ok("sym-display-fmt", """        for (_, sym) in self.symbols.iter() {
            write!(f, "{sym}")?;
        }
""", """        for entry in self.symbols.iter() {
            write!(f, "{}", entry.1)?;
        }
""")
ok("info-if", """        if let Some(extra_info) = EXTRA_INFO.get() {
            for line in extra_info {
                writeln!(f, "INFO {line:}")?;
            }
        }
""", """        for line in EXTRA_INFO.get().into_iter().flatten() {
            writeln!(f, "INFO {}", line)?;
        }
""")
ok("stack-if", """    let result = match (pdb, pe) {
        (_, Some(pe)) if pe.has_unwind_info() => cfi_writer.process(pe),
        (Some(pdb), _) if pdb.has_unwind_info() => cfi_writer.process(pdb),
        _ => Ok(()),
    };

    if let Err(e) = result {
        error!("CFI: {e:?}");
    }
""", """    let source = pe
        .filter(|o| o.has_unwind_info())
        .or_else(|| pdb.filter(|o| o.has_unwind_info()));

    if let Some(o) = source {
        if let Err(e) = cfi_writer.process(o) {
            error!("CFI: {e:?}");
        }
    }
""")
ok("stack-find", """    let result = match (pdb, pe) {
        (_, Some(pe)) if pe.has_unwind_info() => cfi_writer.process(pe),
        (Some(pdb), _) if pdb.has_unwind_info() => cfi_writer.process(pdb),
        _ => Ok(()),
    };

    if let Err(e) = result {
        error!("CFI: {e:?}");
    }
""", """    for o in [pe, pdb].into_iter().flatten() {
        if o.has_unwind_info() {
            if let Err(e) = cfi_writer.process(o) {
                error!("CFI: {e:?}");
            }
            break;
        }
    }
""")
ok("stack-early", """    let result = match (pdb, pe) {
        (_, Some(pe)) if pe.has_unwind_info() => cfi_writer.process(pe),
        (Some(pdb), _) if pdb.has_unwind_info() => cfi_writer.process(pdb),
        _ => Ok(()),
    };
""", """    let mut result = Ok(());
    let pe_has_cfi = pe.is_some_and(|o| o.has_unwind_info());
    if pe_has_cfi {
        result = cfi_writer.process(pe.unwrap());
    } else if let Some(pdb) = pdb {
        if pdb.has_unwind_info() {
            result = cfi_writer.process(pdb);
        }
    }
""")
ok("expect", """    String::from_utf8(buf).unwrap()
""", """    String::from_utf8(buf).expect("the CFI writer only writes ASCII")
""")
ok("collector-new", """        let mut collector = Collector {
            platform,
            collect_inlines,
            syms: Symbols::default(),
        };

        let ds = main_object.debug_session()?;
""", """        let ds = main_object.debug_session()?;
        let mut collector = Collector {
            syms: Symbols::default(),
            collect_inlines,
            platform,
        };
""")
ok("id-string", """        let debug_id = format!("{}", main_object.debug_id().breakpad());
""", """        let debug_id = main_object.debug_id().breakpad().to_string();
""")
ok("code-match", """        let code_id = pe_object
            .and_then(|o| o.code_id())
            .or_else(|| main_object.code_id())
            .map(|c| c.as_str().to_string().to_uppercase());
""", """        let code_id = match pe_object.and_then(|o| o.code_id()) {
            Some(c) => Some(c),
            None => main_object.code_id(),
        };
        let code_id = code_id.map(|c| c.as_str().to_uppercase());
""")
ok("code-iflet", """        let code_id = pe_object
            .and_then(|o| o.code_id())
            .or_else(|| main_object.code_id())
            .map(|c| c.as_str().to_string().to_uppercase());
""", """        let mut code_id = None;
        if let Some(pe) = pe_object {
            code_id = pe.code_id();
        }
        if code_id.is_none() {
            code_id = main_object.code_id();
        }
        let code_id = code_id.map(|c| c.to_string().to_uppercase());
""")
ok("bin-type", """        let bin_type = if main_object.has_debug_info() {
            Type::DebugInfo
        } else {
            Type::Stripped
        };
""", """        let bin_type = match main_object.has_debug_info() {
            false => Type::Stripped,
            true => Type::DebugInfo,
        };
""")
ok("placeholders-helper", """        if let Object::Pe(pe) = &main_object {
            if let Some(exception_data) = pe.exception_data() {
                collector.collect_placeholder_functions(
                    exception_data,
                    pe_file_name.unwrap_or(main_file_name),
                );
            }
        }
""", """        let exception_data = match main_object {
            Object::Pe(pe) => pe.exception_data(),
            _ => None,
        };
        if let Some(exception_data) = exception_data {
            let name = pe_file_name.unwrap_or(main_file_name);
            collector.collect_placeholder_functions(exception_data, name);
        }
""")
ok("mini-helper", """        if let Some(buf) = super::symbol::get_compressed_minidebuginfo(main_object) {
            if let Ok(o) = Object::parse(&buf) {
                collector.collect_publics(&o);
            }
        }
""", """        let minidebuginfo = super::symbol::get_compressed_minidebuginfo(main_object);
        if let Some(Ok(o)) = minidebuginfo.as_deref().map(Object::parse) {
            collector.collect_publics(&o);
        }
""")
ok("order-stack", """        let stack = get_stack_info(Some(main_object), pe_object);
        let symbols = super::symbol::add_executable_section_symbols(
            collector.syms,
            main_file_name,
            main_object,
        );
""", """        let symbols = super::symbol::add_executable_section_symbols(
            collector.syms,
            main_file_name,
            main_object,
        );
        let stack = get_stack_info(Some(main_object), pe_object);
""")
ok("file-name", """        let file_name = match (&main_object, &pe_file_name) {
            (Object::Elf(elf), _) => elf.name().unwrap_or(main_file_name),
            (Object::MachO(macho), _) => macho.name().unwrap_or(main_file_name),
            _ => main_file_name,
        };
""", """        let own_name = match main_object {
            Object::Elf(elf) => elf.name(),
            Object::MachO(macho) => macho.name(),
            _ => None,
        };
        let file_name = own_name.unwrap_or(main_file_name);
""")
ok("result-let", """        Ok(Self {
            symbols,
            files: source.get_mapping(),
            inline_origins: inline_origins.get_list(),
            file_name: Self::file_name_only(file_name).to_string(),
            pe_name: pe_file_name.map(ToOwned::to_owned),
            cpu,
""", """        let files = source.get_mapping();
        let inline_origins = inline_origins.get_list();
        let file_name = String::from(Self::file_name_only(file_name));
        let pe_name = pe_file_name.map(|n| n.to_string());

        Ok(Self {
            symbols,
            files,
            inline_origins,
            file_name,
            pe_name,
            cpu,
""")
ok("canon", """        if (object.file_format() == FileFormat::Pe) && object.has_debug_info() {
            // PE objects don't have debug information, unless it's been built
            // with MingW in which case it will have DWARF debug info.
            false
        } else {
            platform.is_target()
        }
""", """        let mingw = object.file_format() == FileFormat::Pe && object.has_debug_info();
        !mingw && platform.is_target()
""")
ok("name-only", """        file_name.rsplit('/').next().unwrap_or(file_name)
""", """        match file_name.rfind('/') {
            Some(pos) => &file_name[pos + 1..],
            None => file_name,
        }
""")
ok("name-only2", """        file_name.rsplit('/').next().unwrap_or(file_name)
""", """        file_name.rsplit_once('/').map_or(file_name, |(_, name)| name)
""")
ok("ensure-if", """        anyhow::ensure!(
            left.debug_id == right.debug_id,
            "The files don't have the same debug id: {} and {}",
            left.debug_id,
            right.debug_id
        );
""", """        if left.debug_id != right.debug_id {
            anyhow::bail!(
                "The files don't have the same debug id: {} and {}",
                left.debug_id,
                right.debug_id
            );
        }
""")
ok("swap-if", """        let (mut left, mut right) = if left.symbols.len() > right.symbols.len() {
            (left, right)
        } else {
            (right, left)
        };
""", """        let mut left = left;
        let mut right = right;
        if left.symbols.len() <= right.symbols.len() {
            std::mem::swap(&mut left, &mut right);
        }
""")
ok("swap-inner", """        // Just to avoid to iterate on the bigger
        let (mut left, mut right) = if left.symbols.len() > right.symbols.len() {
            (left, right)
        } else {
            (right, left)
        };
""", """        if right.symbols.len() >= left.symbols.len() {
            Self::merge_ordered(right, left)
        } else {
            Self::merge_ordered(left, right)
        }
    }

    fn merge_ordered(mut left: ObjectInfo, mut right: ObjectInfo) -> common::Result<ObjectInfo> {
""")
ok("stack-take", """        if left.stack.is_empty() {
            std::mem::swap(&mut left.stack, &mut right.stack);
        } else if !right.stack.is_empty() {
            if *left.stack.as_bytes().last().unwrap() != b'\\n' {
                left.stack.push('\\n');
            }
            left.stack.push_str(&right.stack);
        }
""", """        if left.stack.is_empty() {
            left.stack = std::mem::take(&mut right.stack);
        } else if !right.stack.is_empty() {
            if !left.stack.ends_with('\\n') {
                left.stack.push('\\n');
            }
            left.stack += &right.stack;
        }
""")
ok("stack-helper", """        if left.stack.is_empty() {
            std::mem::swap(&mut left.stack, &mut right.stack);
        } else if !right.stack.is_empty() {
            if *left.stack.as_bytes().last().unwrap() != b'\\n' {
                left.stack.push('\\n');
            }
            left.stack.push_str(&right.stack);
        }
""", """        left.stack = Self::merge_stacks(
            std::mem::take(&mut left.stack),
            std::mem::take(&mut right.stack),
        );
""", """    pub fn dump<W: Write>""", """    fn merge_stacks(mut first: String, second: String) -> String {
        if first.is_empty() {
            return second;
        }
        if !second.is_empty() {
            if !first.ends_with('\\n') {
                first.push('\\n');
            }
            first.push_str(&second);
        }
        first
    }

    pub fn dump<W: Write>""")
ok("stack-format", """            if *left.stack.as_bytes().last().unwrap() != b'\\n' {
                left.stack.push('\\n');
            }
            left.stack.push_str(&right.stack);
""", """            let sep = if left.stack.ends_with('\\n') { "" } else { "\\n" };
            left.stack = format!("{}{}{}", left.stack, sep, right.stack);
""")
ok("remap-let", """        let file_remapping = left.files.merge(&mut right.files);
        let inline_origin_remapping =
            merge_inline_origins(&mut left.inline_origins, right.inline_origins);

        for (addr, sym) in right.symbols.iter_mut() {
""", """        let inline_origin_remapping =
            merge_inline_origins(&mut left.inline_origins, std::mem::take(&mut right.inline_origins));
        let file_remapping = left.files.merge(&mut right.files);

        for (addr, sym) in &mut right.symbols {
""")
ok("remap-fn", """                        sym.remap_lines(file_remapping.as_deref());
                        sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                        std::mem::swap(a_sym, sym);
""", """                        renumber(sym);
                        std::mem::swap(a_sym, sym);
""", """                    sym.remap_lines(file_remapping.as_deref());
                    sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                    e.insert(sym.clone());
""", """                    renumber(sym);
                    e.insert(sym.clone());
""", """        for (addr, sym) in right.symbols.iter_mut() {
""", """        let renumber = |sym: &mut super::symbol::Symbol| {
            sym.remap_lines(file_remapping.as_deref());
            sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
        };

        for (addr, sym) in right.symbols.iter_mut() {
""")
ok("pub-else", """                if left.symbols.is_inside_symbol(*addr) {
                    continue;
                }

                match left.symbols.entry(*addr) {
                    btree_map::Entry::Occupied(mut e) => {
                        if sym.is_synthetic {
                            // Do not replace an existing symbol with a synthetic one
                            continue;
                        }

                        if e.get().is_synthetic {
                            // Always replace a synthetic symbol
                            e.insert(sym.clone());
                        } else if e.get().name != sym.name {
                            // We already have one so just discard this one
                            e.get_mut().is_multiple = true;
                        }
                    }
                    btree_map::Entry::Vacant(e) => {
                        e.insert(sym.clone());
                    }
                }
                continue;
""", """                if !left.symbols.is_inside_symbol(*addr) {
                    if let Some(known) = left.symbols.get_mut(addr) {
                        match (sym.is_synthetic, known.is_synthetic) {
                            // Do not replace an existing symbol with a synthetic one
                            (true, _) => {}
                            (false, true) => *known = sym.clone(),
                            (false, false) => {
                                known.is_multiple |= known.name != sym.name;
                            }
                        }
                    } else {
                        left.symbols.insert(*addr, sym.clone());
                    }
                }
                continue;
""")
ok("func-else", """            if sym.is_public {
                // No line info so just put the sym in the map
                if left.symbols.is_inside_symbol(*addr) {
                    continue;
                }
""", """            let addr = *addr;
            let addr = &addr;
            if sym.is_public {
                // No line info so just put the sym in the map
                let inside = left.symbols.is_inside_symbol(*addr);
                if inside {
                    continue;
                }
""")
ok("func-take", """                        std::mem::swap(a_sym, sym);
                    }

                    if !sym.is_synthetic {
                        a_sym.is_multiple = true;
                    }
""", """                        let old = std::mem::replace(a_sym, sym.clone());
                        *sym = old;
                    }

                    let was_synthetic = sym.is_synthetic;
                    if !was_synthetic {
                        a_sym.is_multiple = true;
                    }
""")
ok("code-is-none", """        if left.code_id.is_none() && right.code_id.is_some() {
            left.code_id = right.code_id;
            left.pe_name = right.pe_name;
        }
""", """        if left.code_id.is_none() {
            if let Some(code_id) = right.code_id {
                left.code_id = Some(code_id);
                left.pe_name = right.pe_name;
            }
        }
""")
ok("name-matches", """        if right.bin_type == Type::Stripped {
            left.file_name = right.file_name;
        }

        Ok(left)
""", """        let file_name = match right.bin_type {
            Type::Stripped => right.file_name,
            Type::DebugInfo => left.file_name,
        };

        Ok(ObjectInfo { file_name, ..left })
""")
ok("dump-string", """        write!(writer, "{self}")?;
        writer.flush()?;
        Ok(())
""", """        writer.write_fmt(format_args!("{}", self))?;
        Ok(writer.flush()?)
""")
ok("dump-string2", """        write!(writer, "{self}")?;
        writer.flush()?;
        Ok(())
""", """        let text = self.to_string();
        writer.write_all(text.as_bytes())?;
        writer.flush()?;
        Ok(())
""")
ok("has-id", """        self.debug_id.bytes().any(|c| c != b'0')
""", """        !self.debug_id.chars().all(|c| c == '0')
""")
ok("has-id2", """        self.debug_id.bytes().any(|c| c != b'0')
""", """        !self.debug_id.trim_start_matches('0').is_empty()
""")
ok("has-stack", """        !self.stack.is_empty()
""", """        self.stack.len() > 0
""")
V = [v for v in V if v[0] not in ("stack-if", "stack-find")]  # lifetimes forbid them

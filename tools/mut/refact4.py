# Refactorings of symbol.rs, line.rs, source.rs, inline_origins.rs, platform.rs and common.rs that change no behaviour.
ALL = "C07 C08 C09 C10 C11 C12 C19 C20 C23"
V = []
def mkok(O):
    def ok(name, *e):
        V.append((name, ALL, "ok", O) + e[:2] + tuple(x for i in range(2, len(e), 2) for x in (O, e[i], e[i + 1])))
    return ok

ok = mkok("src/symbol.rs")
ok("inside-match", """        let last = self.range((Included(0), Excluded(rva))).next_back();
        last.is_some_and(|last| rva - last.1.rva < last.1.len)
""", """        match self.range((Included(0), Excluded(rva))).next_back() {
            Some((_, sym)) => rva - sym.rva < sym.len,
            None => false,
        }
""")
ok("inside-range", """        let last = self.range((Included(0), Excluded(rva))).next_back();
        last.is_some_and(|last| rva - last.1.rva < last.1.len)
""", """        if let Some((start, sym)) = self.range(..rva).next_back() {
            return rva - start < sym.len;
        }
        false
""", "use std::ops::Bound::{Excluded, Included};\n", "")
ok("inside-last", """        let last = self.range((Included(0), Excluded(rva))).next_back();
        last.is_some_and(|last| rva - last.1.rva < last.1.len)
""", """        self.range(0..rva)
            .last()
            .map_or(false, |(_, sym)| sym.len > rva - sym.rva)
""", "use std::ops::Bound::{Excluded, Included};\n", "")
ok("marker-let", """        if self.is_public {
            writeln!(
                f,
                "PUBLIC {}{:x} {:x} {}",
                if self.is_multiple { "m " } else { "" },
""", """        let marker = if self.is_multiple { "m " } else { "" };
        if self.is_public {
            writeln!(
                f,
                "PUBLIC {}{:x} {:x} {}",
                marker,
""", """                "FUNC {}{:x} {:x} {:x} {}",
                if self.is_multiple { "m " } else { "" },
""", """                "FUNC {marker}{:x} {:x} {:x} {}",
""")
ok("public-early", """            )?;
        } else {
            writeln!(
                f,
                "FUNC {}{:x} {:x} {:x} {}",
                if self.is_multiple { "m " } else { "" },
                self.rva,
                self.len,
                self.parameter_size,
                name,
            )?;

            write!(f, "{}", self.source)?;
        }

        Ok(())
""", """            )?;
            return Ok(());
        }
        f.write_str("FUNC ")?;
        if self.is_multiple {
            f.write_str("m ")?;
        }
        writeln!(f, "{:x} {:x} {:x} {}", self.rva, self.len, self.parameter_size, name)?;
        self.source.fmt(f)
""")
ok("name-cow", """        let name = common::remove_control_chars(&self.name);
        // The name isn't optional in a record
        let name = if name.trim().is_empty() {
            "<name omitted>"
        } else {
            &name
        };
""", """        let mut name = common::remove_control_chars(&self.name);
        // The name isn't optional in a record
        if name.trim().is_empty() {
            name = "<name omitted>".to_string();
        }
""")
ok("remap-for", """            for line in self.source.lines.iter_mut() {
                line.file_id = file_remapping[line.file_id as usize];
            }
""", """            self.source
                .lines
                .iter_mut()
                .for_each(|line| line.file_id = file_remapping[line.file_id as usize]);
""")
ok("remap-early", """        if let Some(file_remapping) = file_remapping {
            for line in self.source.lines.iter_mut() {
                line.file_id = file_remapping[line.file_id as usize];
            }
        }
    }

""", """        let Some(file_remapping) = file_remapping else {
            return;
        };
        for line in &mut self.source.lines {
            let old = line.file_id as usize;
            line.file_id = file_remapping[old];
        }
    }

""")
ok("inl-loop", """        let inlines = std::mem::take(&mut self.source.inlines);
        self.source.inlines = inlines
            .into_iter()
            .map(|(mut inline_site, address_ranges)| {
                if let Some(file_remapping) = file_remapping {
                    inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
                }
                inline_site.inline_origin_id =
                    inline_origin_remapping[inline_site.inline_origin_id as usize];
                (inline_site, address_ranges)
            })
            .collect();
""", """        let inlines = std::mem::take(&mut self.source.inlines);
        for (mut site, ranges) in inlines {
            if let Some(files) = file_remapping {
                site.call_file_id = files[site.call_file_id as usize];
            }
            site.inline_origin_id = inline_origin_remapping[site.inline_origin_id as usize];
            self.source.inlines.insert(site, ranges);
        }
""")
ok("inl-new-site", """            .map(|(mut inline_site, address_ranges)| {
                if let Some(file_remapping) = file_remapping {
                    inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
                }
                inline_site.inline_origin_id =
                    inline_origin_remapping[inline_site.inline_origin_id as usize];
                (inline_site, address_ranges)
            })
""", """            .map(|(site, address_ranges)| {
                let call_file_id = match file_remapping {
                    Some(files) => files[site.call_file_id as usize],
                    None => site.call_file_id,
                };
                let inline_origin_id = inline_origin_remapping[site.inline_origin_id as usize];
                let site = crate::line::InlineSite {
                    inline_origin_id,
                    call_file_id,
                    ..site
                };
                (site, address_ranges)
            })
""")
ok("exec-filter", """            for header in elf.section_headers {
                if header.is_executable() {
                    let name = if name.is_empty() { "unknown" } else { name };
                    let section_name = elf.shdr_strtab.get_at(header.sh_name).unwrap_or("unknown");
                    let symbol_name = format!("<{section_name} ELF section in {name}>");
                    let rva = header.sh_addr as u32;
                    syms.entry(rva).or_insert(Symbol {
                        name: symbol_name,
                        is_public: true,
                        is_multiple: false,
                        is_synthetic: true,
                        rva,
                        len: 0,
                        parameter_size: 0,
                        source: Lines::new(),
                    });
                }
            }
""", """            let name = if name.is_empty() { "unknown" } else { name };
            for header in elf.section_headers.iter().filter(|h| h.is_executable()) {
                let rva = header.sh_addr as u32;
                syms.entry(rva).or_insert_with(|| {
                    let section = elf.shdr_strtab.get_at(header.sh_name).unwrap_or("unknown");
                    Symbol {
                        name: format!("<{section} ELF section in {name}>"),
                        is_public: true,
                        is_synthetic: true,
                        rva,
                        source: Lines::new(),
                        ..Default::default()
                    }
                });
            }
""")
ok("exec-contains", """                    syms.entry(rva).or_insert(Symbol {
                        name: symbol_name,
                        is_public: true,
                        is_multiple: false,
                        is_synthetic: true,
                        rva,
                        len: 0,
                        parameter_size: 0,
                        source: Lines::new(),
                    });
""", """                    if !syms.contains_key(&rva) {
                        let sym = Symbol {
                            name: symbol_name,
                            is_public: true,
                            is_multiple: false,
                            is_synthetic: true,
                            rva,
                            len: 0,
                            parameter_size: 0,
                            source: Lines::new(),
                        };
                        syms.insert(rva, sym);
                    }
""")
ok("synthetic-helper", """                    syms.entry(rva).or_insert(Symbol {
                        name: symbol_name,
                        is_public: true,
                        is_multiple: false,
                        is_synthetic: true,
                        rva,
                        len: 0,
                        parameter_size: 0,
                        source: Lines::new(),
                    });
""", """                    syms.entry(rva)
                        .or_insert_with(|| synthetic_public(symbol_name, rva));
""", """    syms.entry(rva).or_insert(Symbol {
        name,
        is_public: true,
        is_multiple: false,
        is_synthetic: true,
        rva,
        len: 0,
        parameter_size: 0,
        source: Lines::new(),
    });

    syms
}
""", """    syms.entry(rva)
        .or_insert_with(|| synthetic_public(name, rva));

    syms
}

fn synthetic_public(name: String, rva: u32) -> Symbol {
    Symbol {
        name,
        is_public: true,
        is_multiple: false,
        is_synthetic: true,
        rva,
        len: 0,
        parameter_size: 0,
        source: Lines::new(),
    }
}
""")
ok("dummy-last", """    let (rva, len) = if let Some((_, last_sym)) = syms.iter().next_back() {
        (last_sym.rva, last_sym.len)
    } else {
        return syms;
    };

    let rva = match rva.checked_add(len.max(1)) {
        Some(rva) => rva,
        None => return syms,
    };
""", """    let end = syms
        .last_key_value()
        .and_then(|(_, last_sym)| last_sym.rva.checked_add(last_sym.len.max(1)));
    let Some(rva) = end else {
        return syms;
    };
""")
ok("dummy-values", """    let (rva, len) = if let Some((_, last_sym)) = syms.iter().next_back() {
        (last_sym.rva, last_sym.len)
    } else {
        return syms;
    };
""", """    let (rva, len) = match syms.values().next_back() {
        Some(last) => (last.rva, last.len),
        None => return syms,
    };
""")
ok("dummy-name", """    let name = if name.is_empty() {
        String::from("<unknown>")
    } else {
        format!("<unknown in {name}>")
    };
""", """    let name = match name {
        "" => "<unknown>".to_owned(),
        name => format!("<unknown in {}>", name),
    };
""")
ok("dummy-mut", """            syms = append_dummy_symbol_pe_pdb(syms, name);
        }
        _ => (),
    }
    syms
""", """            return append_dummy_symbol_pe_pdb(syms, name);
        }
        _ => {}
    }
    syms
""")
ok("mini-find", """        for header in elf.section_headers {
            if let Some(section_name) = elf.shdr_strtab.get_at(header.sh_name) {
                if section_name == ".gnu_debugdata" {
                    let (start, length) = (header.sh_offset as usize, header.sh_size as usize);
                    let mut buf: &[u8] = data.get(start..start.checked_add(length)?)?;
                    let mut out: Vec<u8> = Vec::new();
                    lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;
                    return Some(out);
                }
            }
        }
""", """        let header = elf
            .section_headers
            .iter()
            .find(|h| elf.shdr_strtab.get_at(h.sh_name) == Some(".gnu_debugdata"))?;
        let start = header.sh_offset as usize;
        let end = start.checked_add(header.sh_size as usize)?;
        let mut buf: &[u8] = data.get(start..end)?;
        let mut out: Vec<u8> = Vec::new();
        lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;
        return Some(out);
""")
ok("name-parse", """        if name.contains([':', '(']) {
            Self::name_only(name.to_string())
        } else {
            Self::parse_c_decorated(name)
        }
""", """        if !(name.contains(':') || name.contains('(')) {
            return Self::parse_c_decorated(name);
        }
        Self::name_only(name.to_owned())
""")
ok("skip-const", """    if let Some(name) = name.strip_prefix("__") {
        name.starts_with("real@") || name.starts_with("xmm@") || name.starts_with("ymm@")
    } else {
        false
    }
""", """    ["__real@", "__xmm@", "__ymm@"]
        .iter()
        .any(|prefix| name.starts_with(prefix))
""")

ok = mkok("src/line.rs")
ok("inl-write", """    for range in ranges {
        write!(f, " {:x} {:x}", range.rva, range.len)?;
    }
    writeln!(f)
""", """    for InlineAddressRange { rva, len } in ranges.iter() {
        write!(f, " {rva:x} {len:x}")?;
    }
    f.write_str("\\n")
""")
ok("sort-cached", """        let mut inlines: Vec<(&_, &_)> = self.inlines.iter().collect();
        inlines.sort_by_key(|(site, ranges)| (ranges.first().unwrap().rva, site.call_depth));
        for (site, ranges) in inlines {
            write_inline_record(site, ranges, f)?;
        }
""", """        let mut inlines = self.inlines.iter().collect::<Vec<_>>();
        inlines.sort_by_key(|(site, ranges)| (ranges[0].rva, site.call_depth));
        inlines
            .iter()
            .try_for_each(|(site, ranges)| write_inline_record(site, ranges, f))?;
""")
ok("sort-by", """        inlines.sort_by_key(|(site, ranges)| (ranges.first().unwrap().rva, site.call_depth));
""", """        inlines.sort_by(|(site1, ranges1), (site2, ranges2)| {
            ranges1[0]
                .rva
                .cmp(&ranges2[0].rva)
                .then(site1.call_depth.cmp(&site2.call_depth))
        });
""")
ok("lines-last", """        for line in &self.lines {
            write_line_record(line, f)?;
        }
        Ok(())
""", """        self.lines
            .iter()
            .try_for_each(|line| write_line_record(line, f))
""")
ok("add-line-flag", """        self.lines.push(Line {
            rva,
            num,
            len: 0,
            file_id,
        });

        // There are no guarantee that the rva are sorted
        // So we check each time we push an element and we'll sort if it's required
        self.are_lines_sorted = self.are_lines_sorted && self.last_line_rva <= rva;
        self.last_line_rva = rva;
""", """        if rva < self.last_line_rva {
            self.are_lines_sorted = false;
        }
        self.last_line_rva = rva;
        self.lines.push(Line {
            rva,
            len: 0,
            num,
            file_id,
        });
""")
ok("add-line-and", """        self.are_lines_sorted = self.are_lines_sorted && self.last_line_rva <= rva;
""", """        self.are_lines_sorted &= self.last_line_rva <= rva;
""")
ok("add-inline-def", """        self.inlines
            .entry(site)
            .or_insert_with(|| Vec::with_capacity(1))
            .push(address_range);
""", """        let ranges = self.inlines.entry(site).or_default();
        ranges.push(address_range);
""")
ok("len-index", """        let lens: Vec<u32> = self.lines.windows(2).map(|w| w[1].rva - w[0].rva).collect();

        // Cannot fail since self.lines isn't empty
        let (last, lines) = self.lines.split_last_mut().unwrap();

        lines
            .iter_mut()
            .zip(lens.iter())
            .for_each(|(line, len)| line.len = *len);
""", """        for i in 1..self.lines.len() {
            self.lines[i - 1].len = self.lines[i].rva - self.lines[i - 1].rva;
        }

        // Cannot fail since self.lines isn't empty
        let last = self.lines.last_mut().unwrap();
""")
ok("len-rev", """        let lens: Vec<u32> = self.lines.windows(2).map(|w| w[1].rva - w[0].rva).collect();

        // Cannot fail since self.lines isn't empty
        let (last, lines) = self.lines.split_last_mut().unwrap();

        lines
            .iter_mut()
            .zip(lens.iter())
            .for_each(|(line, len)| line.len = *len);
""", """        let lens: Vec<u32> = self
            .lines
            .iter()
            .zip(self.lines.iter().skip(1))
            .map(|(line, next)| next.rva - line.rva)
            .collect();

        let (last, lines) = self.lines.split_last_mut().expect("self.lines isn't empty");

        for (line, len) in lines.iter_mut().zip(lens) {
            line.len = len;
        }
""")
ok("end-sub", """        if let Some(function_end_rva) = sym_rva.checked_add(sym_len) {
            if last.rva < function_end_rva {
                last.len = function_end_rva - last.rva;
            }
        }
""", """        let len = sym_rva
            .checked_add(sym_len)
            .and_then(|end| end.checked_sub(last.rva));
        if let Some(len) = len {
            last.len = len;
        }
""")
ok("order-early", """        if !self.are_lines_sorted {
            // Sort the lines.
            self.lines.sort_by_key(|x| x.rva);
            self.are_lines_sorted = true;
        }
""", """        if !self.are_lines_sorted {
            self.lines.sort_by(|x, y| x.rva.cmp(&y.rva));
        }
        self.are_lines_sorted = true;
""")
ok("dedup-flag", """            ranges.dedup_by(|next, current| {
                if current.rva.checked_add(current.len) == Some(next.rva) {
                    current.len = current.len.saturating_add(next.len);
                    true
                } else {
                    false
                }
            })
""", """            ranges.dedup_by(|next, current| {
                let adjacent = current.rva.checked_add(current.len) == Some(next.rva);
                if adjacent {
                    current.len = current.len.saturating_add(next.len);
                }
                adjacent
            });
""")
ok("dedup-helper", """            ranges.dedup_by(|next, current| {
                if current.rva.checked_add(current.len) == Some(next.rva) {
                    current.len = current.len.saturating_add(next.len);
                    true
                } else {
                    false
                }
            })
        }
    }
""", """            ranges.dedup_by(|next, current| current.absorb(next));
        }
    }
""", """#[derive(Clone, Debug, Default)]
pub struct Lines {""", """impl InlineAddressRange {
    fn absorb(&mut self, next: &InlineAddressRange) -> bool {
        match self.rva.checked_add(self.len) {
            Some(end) if end == next.rva => {
                self.len = self.len.saturating_add(next.len);
                true
            }
            _ => false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Lines {""")
ok("dedup-manual", """            ranges.sort_by_key(|range| range.rva);
            ranges.dedup_by(|next, current| {
                if current.rva.checked_add(current.len) == Some(next.rva) {
                    current.len = current.len.saturating_add(next.len);
                    true
                } else {
                    false
                }
            })
""", """            ranges.sort_by_key(|range| range.rva);
            let mut merged: Vec<InlineAddressRange> = Vec::with_capacity(ranges.len());
            for next in ranges.drain(..) {
                match merged.last_mut() {
                    Some(current) if current.rva.checked_add(current.len) == Some(next.rva) => {
                        current.len = current.len.saturating_add(next.len);
                    }
                    _ => merged.push(next),
                }
            }
            *ranges = merged;
""")

ok = mkok("src/source.rs")
ok("pts-match", """        if let Ok(s) = String::from_utf8(name.to_vec()) {
            s
        } else {
            name.iter().map(|&c| c as char).collect()
        }
""", """        match std::str::from_utf8(name) {
            Ok(s) => s.to_string(),
            Err(_) => name.iter().map(|c| char::from(*c)).collect(),
        }
""")
ok("path-let", """        let mut dir = file.dir_str().to_string();
        let name = file.name_str();
        if !platform.is_absolute_path(&dir) && !compilation_dir.is_empty() {
            let comp_dir = Self::path_to_string(compilation_dir);
            dir = platform.join_paths(&comp_dir, &dir);
        };
        let path = platform.join_paths(&dir, &name);
""", """        let dir = file.dir_str();
        let dir = if compilation_dir.is_empty() || platform.is_absolute_path(&dir) {
            dir.into_owned()
        } else {
            platform.join_paths(&Self::path_to_string(compilation_dir), &dir)
        };
        let path = platform.join_paths(&dir, &file.name_str());
""")
ok("canon-early", """        if canonicalize {
            // Try to get the real path and in case we're on the machine where the files have been compiled
            // else fallback on the basic way to normalize a path
            let path = PathBuf::from(path);
            let path = fs::canonicalize(&path).unwrap_or_else(|_| utils::normalize_path(&path));
            path.to_string_lossy().to_string()
        } else {
            // Don't attempt to normalize the path if we're on a different platform.
            path
        }
""", """        if !canonicalize {
            // Don't attempt to normalize the path if we're on a different platform.
            return path;
        }

        let path = match fs::canonicalize(&path) {
            Ok(real) => real,
            Err(_) => utils::normalize_path(&path),
        };
        path.to_string_lossy().into_owned()
""", "use std::path::PathBuf;\n", "")
ok("id-get", """        match self.cache.entry(cache_key) {
            hash_map::Entry::Occupied(e) => *e.get(),
            hash_map::Entry::Vacant(e) => {
                let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
                let id = match self.ref_to_id.entry(path.clone()) {
""", """        if let Some(id) = self.cache.get(&cache_key) {
            return *id;
        }
        let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
        let id = match self.ref_to_id.entry(path.clone()) {
""", """                        id
                    }
                };
                e.insert(id);
                id
            }
        }
    }
""", """                        id
                    }
                };
        self.cache.insert(cache_key, id);
        id
    }
""")
ok("id-helper", """                let id = match self.ref_to_id.entry(path.clone()) {
                    hash_map::Entry::Occupied(e) => *e.get(),
                    hash_map::Entry::Vacant(e) => {
                        let id = self.fake_id_to_ref.len() as u32;
                        let new_path = if let Some(mapping) = self.mapping.as_ref() {
                            match mapping.map(&path) {
                                Ok(p) => p,
                                Err(e) => {
                                    error!("Mapping error: {e}");
                                    None
                                }
                            }
                        } else {
                            None
                        };
                        let path = new_path.unwrap_or(path);
                        e.insert(id);
                        self.fake_id_to_ref.push((None, path));
                        id
                    }
                };
""", """                let id = match self.ref_to_id.get(&path) {
                    Some(id) => *id,
                    None => {
                        let id = self.fake_id_to_ref.len() as u32;
                        let mapped = Self::mapped(self.mapping.as_deref(), &path);
                        self.fake_id_to_ref
                            .push((None, mapped.unwrap_or_else(|| path.clone())));
                        self.ref_to_id.insert(path, id);
                        id
                    }
                };
""", """    // Some file_ids are not consumed because""", """    fn mapped(mapping: Option<&PathMappings>, path: &str) -> Option<String> {
        mapping?.map(path).unwrap_or_else(|e| {
            error!("Mapping error: {e}");
            None
        })
    }

    // Some file_ids are not consumed because""")
ok("map-and-then", """                        let new_path = if let Some(mapping) = self.mapping.as_ref() {
                            match mapping.map(&path) {
                                Ok(p) => p,
                                Err(e) => {
                                    error!("Mapping error: {e}");
                                    None
                                }
                            }
                        } else {
                            None
                        };
                        let path = new_path.unwrap_or(path);
""", """                        let new_path = self.mapping.as_ref().and_then(|mapping| {
                            mapping
                                .map(&path)
                                .map_err(|e| error!("Mapping error: {e}"))
                                .ok()
                                .flatten()
                        });
                        let path = match new_path {
                            Some(new_path) => new_path,
                            None => path,
                        };
""")
ok("true-get-or", """        let (id, name) = &mut self.fake_id_to_ref[fake_id as usize];
        if let Some(id) = id {
            *id
        } else {
            let true_id = self.id_to_ref.len() as u32;
            *id = Some(true_id);
            self.id_to_ref.push(name.clone());
            true_id
        }
""", """        let entry = &mut self.fake_id_to_ref[fake_id as usize];
        if let Some(id) = entry.0 {
            return id;
        }
        let true_id = self.id_to_ref.len() as u32;
        self.id_to_ref.push(entry.1.clone());
        entry.0 = Some(true_id);
        true_id
""")
ok("true-insert-with", """        if let Some(id) = id {
            *id
        } else {
            let true_id = self.id_to_ref.len() as u32;
            *id = Some(true_id);
            self.id_to_ref.push(name.clone());
            true_id
        }
""", """        let id_to_ref = &mut self.id_to_ref;
        *id.get_or_insert_with(|| {
            let true_id = id_to_ref.len() as u32;
            id_to_ref.push(name.clone());
            true_id
        })
""")
ok("mapping-destruct", """        SourceMap {
            ref_to_id: self.ref_to_id,
            id_to_ref: self.id_to_ref,
        }
""", """        let Self {
            ref_to_id,
            id_to_ref,
            ..
        } = self;
        SourceMap {
            ref_to_id,
            id_to_ref,
        }
""")
ok("merge-take", """            std::mem::swap(&mut self.ref_to_id, &mut other.ref_to_id);
            std::mem::swap(&mut self.id_to_ref, &mut other.id_to_ref);
            return None;
""", """            *self = std::mem::take(other);
            return None;
""")
ok("merge-entry", """            if let Some(an_id) = self.ref_to_id.get(path) {
                // self has already this path so map the id to the existing one
                remapping[id] = *an_id;
            } else {
                let new_id = self.id_to_ref.len() as u32;
                remapping[id] = new_id;
                self.id_to_ref.push(other.id_to_ref[id].clone());
                self.ref_to_id.insert(path.clone(), new_id);
            }
""", """            let id_to_ref = &mut self.id_to_ref;
            let new_id = *self.ref_to_id.entry(path.clone()).or_insert_with(|| {
                let new_id = id_to_ref.len() as u32;
                id_to_ref.push(other.id_to_ref[id].clone());
                new_id
            });
            remapping[id] = new_id;
""")
ok("merge-match", """            if let Some(an_id) = self.ref_to_id.get(path) {
                // self has already this path so map the id to the existing one
                remapping[id] = *an_id;
            } else {
                let new_id = self.id_to_ref.len() as u32;
                remapping[id] = new_id;
                self.id_to_ref.push(other.id_to_ref[id].clone());
                self.ref_to_id.insert(path.clone(), new_id);
            }
""", """            remapping[id] = match self.ref_to_id.get(path).copied() {
                // self has already this path so map the id to the existing one
                Some(an_id) => an_id,
                None => {
                    let new_id = self.id_to_ref.len() as u32;
                    self.ref_to_id.insert(path.clone(), new_id);
                    self.id_to_ref.push(other.id_to_ref[id].clone());
                    new_id
                }
            };
""")
ok("merge-sort2", """        let mut other_ids: Vec<_> = other.ref_to_id.iter().collect();
        other_ids.sort_by_key(|(_, id)| **id);

        for (path, id) in other_ids {
            let id = *id as usize;
""", """        let mut other_ids: Vec<(usize, &String)> = other
            .ref_to_id
            .iter()
            .map(|(path, id)| (*id as usize, path))
            .collect();
        other_ids.sort();

        for (id, path) in other_ids {
""")

ok = mkok("src/inline_origins.rs")
ok("get-entry", """        if let Some(index) = self.index_for_mangled_name.get(name) {
            return *index;
        }

        let s = Self::demangle_and_sanitize(name);
        let index = self.demangled_names.len() as u32;
        self.demangled_names.push(s);
        self.index_for_mangled_name.insert(name.clone(), index);
        index
""", """        let names = &mut self.demangled_names;
        *self
            .index_for_mangled_name
            .entry(name.clone())
            .or_insert_with(|| {
                let index = names.len() as u32;
                names.push(Self::demangle_and_sanitize(name));
                index
            })
""")
ok("get-match", """        if let Some(index) = self.index_for_mangled_name.get(name) {
            return *index;
        }

        let s = Self::demangle_and_sanitize(name);
        let index = self.demangled_names.len() as u32;
        self.demangled_names.push(s);
        self.index_for_mangled_name.insert(name.clone(), index);
        index
""", """        match self.index_for_mangled_name.get(name) {
            Some(&index) => index,
            None => {
                self.demangled_names.push(Self::demangle_and_sanitize(name));
                let index = self.demangled_names.len() as u32 - 1;
                self.index_for_mangled_name.insert(name.clone(), index);
                index
            }
        }
""")
ok("sanitize", """        let mut name = Self::demangle(name);

        // Remove control characters such as \\n.
        name.retain(|c| !c.is_ascii_control());

        name
""", """        // Remove control characters such as \\n.
        common::remove_control_chars(&Self::demangle(name))
""")
ok("demangle-or", """        match name.demangle(common::demangle_options()) {
            Some(demangled) => demangled,
            None => {
                let aname = name.as_str();
                warn!("Didn't manage to demangle {name:?}");
                aname.to_string()
            }
        }
""", """        name.demangle(common::demangle_options()).unwrap_or_else(|| {
            warn!("Didn't manage to demangle {name:?}");
            name.as_str().to_string()
        })
""")
ok("demangle-lang", """        if let Language::C = name.language() {
            return name.as_str().to_string();
        }
""", """        if name.language() == Language::C {
            return name.to_string();
        }
""")
ok("merge-range", """    if left.is_empty() {
        let count = right.len() as u32;
        *left = right;
        return (0..count).collect();
    }
    // Just append the two vecs to each other. We don't bother with deduplication.
    let count = right.len() as u32;
    let offset = left.len() as u32;
    left.extend(right);
    (offset..(offset + count)).collect()
""", """    // Just append the two vecs to each other. We don't bother with deduplication.
    let offset = left.len() as u32;
    left.extend(right);
    (offset..left.len() as u32).collect()
""")
ok("merge-push", """    let count = right.len() as u32;
    let offset = left.len() as u32;
    left.extend(right);
    (offset..(offset + count)).collect()
""", """    let mut remapping = Vec::with_capacity(right.len());
    for name in right {
        remapping.push(left.len() as u32);
        left.push(name);
    }
    remapping
""")
ok("merge-append", """    let count = right.len() as u32;
    let offset = left.len() as u32;
    left.extend(right);
    (offset..(offset + count)).collect()
""", """    let mut right = right;
    let offset = left.len() as u32;
    let remapping = (0..right.len() as u32).map(|id| offset + id).collect();
    left.append(&mut right);
    remapping
""")

ok = mkok("src/platform.rs")
ok("win-abs", """                let first_fragment = match path.find(['/', '\\\\']) {
                    Some(first_fragment_len) => &path[..first_fragment_len],
                    None => path,
                };
                first_fragment.is_empty() || first_fragment.ends_with(':')
""", """                let first_fragment = path.split(['/', '\\\\']).next().unwrap_or(path);
                first_fragment.is_empty() || first_fragment.ends_with(':')
""")
ok("win-join", """                if left.starts_with('/') {
                    format!("{left}/{right}")
                } else {
                    format!("{left}\\\\{right}")
                }
""", """                let sep = if left.starts_with('/') { '/' } else { '\\\\' };
                format!("{left}{sep}{right}")
""")
ok("display", """        let p = match self {
            Self::Linux => "Linux",
            Self::Mac => "Mac",
            Self::Win => "windows",
        };
        write!(f, "{p}")
""", """        f.write_str(match self {
            Self::Linux => "Linux",
            Self::Mac => "Mac",
            Self::Win => "windows",
        })
""")
ok = mkok("src/common.rs")
ok("norm", """    let fixed = text.replace("`anonymous namespace'", "(anonymous namespace)");
    String::from(&fixed)
""", """    text.replace("`anonymous namespace'", "(anonymous namespace)")
""")
ok("retain", """    name.chars().filter(|c| !c.is_ascii_control()).collect()
""", """    let mut name = name.to_string();
    name.retain(|c| !c.is_ascii_control());
    name
""")
ok("replace", """    name.chars().filter(|c| !c.is_ascii_control()).collect()
""", """    name.replace(|c: char| c.is_ascii_control(), "")
""")
ok("fix", """    let fixed = COMPILER_NNN.replace(name.as_str(), "");
    let fixed = normalize_anonymous_namespace(&fixed);

    Name::new(fixed, name.mangling(), name.language())
""", """    let stripped = COMPILER_NNN.replace(name.as_str(), "");
    Name::new(
        normalize_anonymous_namespace(stripped.as_ref()),
        name.mangling(),
        name.language(),
    )
""")

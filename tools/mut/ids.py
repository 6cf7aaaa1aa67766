CO="src/collector.rs"; SY="src/symbol.rs"; OI="src/object_info.rs"; SO="src/source.rs"; IO="src/inline_origins.rs"
V=[
 ("key-noname","C08","bad",SO,"            file.name_str().into_owned(),\n        );","            file.dir_str().into_owned(),\n        );"),
 ("key-nocomp","C08","bad",SO,"            compilation_dir.to_vec(),\n","            Vec::new(),\n"),
 ("id-truelen","C08","bad",SO,"let id = self.fake_id_to_ref.len() as u32;","let id = self.id_to_ref.len() as u32;"),
 ("id-late","C08","bad",SO,"let id = self.fake_id_to_ref.len() as u32;\n","let id = self.fake_id_to_ref.len() as u32 + 1;\n"),
 ("true-late","C08","bad",SO,"            self.id_to_ref.push(name.clone());\n            true_id","            self.id_to_ref.push(name.clone());\n            fake_id"),
 ("true-norec","C08","bad",SO,"            *id = Some(true_id);\n",""),
 ("map-key","C08","bad",SO,"            if let Some(an_id) = self.ref_to_id.get(path) {","            if let Some(an_id) = self.ref_to_id.get(&path.to_lowercase()) {"),
 ("map-len","C08","bad",SO,"                let new_id = self.id_to_ref.len() as u32;\n                remapping[id] = new_id;\n                self.id_to_ref.push(other.id_to_ref[id].clone());","                self.id_to_ref.push(other.id_to_ref[id].clone());\n                let new_id = self.id_to_ref.len() as u32;\n                remapping[id] = new_id;"),
 ("map-noins","C08","bad",SO,"                self.ref_to_id.insert(path.clone(), new_id);\n",""),
 ("map-pushpath","C08","bad",SO,"self.id_to_ref.push(other.id_to_ref[id].clone());","self.id_to_ref.push(path.clone());"),
 ("map-swap1","C08","bad",SO,"            std::mem::swap(&mut self.ref_to_id, &mut other.ref_to_id);\n",""),
 ("map-early","C08","bad",SO,"        if other.id_to_ref.is_empty() {","        if other.id_to_ref.len() <= 1 {"),
 ("map-skip","C08","bad",SO,"for (path, id) in other_ids {","for (path, id) in other_ids.into_iter().skip(1) {"),
 ("map-filter","C08","bad",SO,"for (path, id) in other_ids {","for (path, id) in other_ids.into_iter().filter(|(p, _)| !p.is_empty()) {"),
 ("remap-if","C08","bad",SY,"                line.file_id = file_remapping[line.file_id as usize];","                if line.num != 0 { line.file_id = file_remapping[line.file_id as usize]; }"),
 ("remap-first","C08","bad",SY,"for line in self.source.lines.iter_mut() {","for line in self.source.lines.iter_mut().skip(1) {"),
 ("remap-rva","C08","bad",SY,"file_remapping[line.file_id as usize];","file_remapping[line.num as usize];"),
 ("remap-inl-no","C08","bad",SY,"                    inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];","                    if inline_site.call_depth > 0 { inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize]; }"),
 ("remap-inl-arr","C08","bad",SY,"inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];","inline_site.call_file_id = inline_origin_remapping[inline_site.call_file_id as usize]; let _ = file_remapping;"),
 ("nor1","C08","bad",OI,"                        sym.remap_lines(file_remapping.as_deref());\n                        sym.remap_inlines","                        sym.remap_inlines"),
 ("nor2","C08 C09","bad",OI,"                    sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);\n                    e.insert","                    e.insert"),
 ("nor3","C08","bad",OI,"                    sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);\n                    e.insert","                    sym.remap_inlines(None, &inline_origin_remapping);\n                    e.insert"),
 ("nor4","C08","bad",OI,"                    sym.remap_lines(file_remapping.as_deref());\n                    sym.remap_inlines","                    if sym.len > 0 { sym.remap_lines(file_remapping.as_deref()); }\n                    sym.remap_inlines"),
 ("swapmerge","C08","bad",OI,"let file_remapping = left.files.merge(&mut right.files);","let file_remapping = right.files.merge(&mut left.files);"),
 ("line-comp","C08","bad",CO,"let file_id = source.get_id(fun.compilation_dir, &line.file);\n            let line_info","let file_id = source.get_id(b\"\", &line.file);\n            let line_info"),
 ("line-fake","C08","bad",CO,"                    source.get_true_id(file_id),","                    file_id,"),
 ("line-firstfile","C08","bad",CO,"let file_id = source.get_id(fun.compilation_dir, &line.file);\n            let line_info","let file_id = source.get_id(fun.compilation_dir, &fun.lines[0].file);\n            let line_info"),
 ("line-prevfile","C08","bad",CO,"            let mut current_address = line_range_start;","            let (file_id, _) = (last_file.replace(file_id).unwrap_or(file_id), 0);\n            let mut current_address = line_range_start;",CO,"        let mut prev_line_info = None;\n","        let mut prev_line_info = None;\n        let mut last_file = None;\n"),
 ("line-pending","C08","bad",CO,"            if line.line == 0 {\n","            let file_id = source.get_id(fun.compilation_dir, &line.file);\n            if line.line == 0 {\n",CO,"            let file_id = source.get_id(fun.compilation_dir, &line.file);\n            let line_info","            let line_info"),
 ("inl-depth","C08","ok",CO,"call_depth + 1,","call_depth.saturating_add(1),"),
 ("write-skip","C08","bad",OI,"for (n, file_name) in self.files.get_mapping().iter().enumerate() {","for (n, file_name) in self.files.get_mapping().iter().skip_while(|f| f.is_empty()).enumerate() {"),
 # C09
 ("o-norec","C09","bad",IO,"        self.index_for_mangled_name.insert(name.clone(), index);\n","        if index > 0 { self.index_for_mangled_name.insert(name.clone(), index); }\n"),
 ("o-late","C09","bad",IO,"        let index = self.demangled_names.len() as u32;\n        self.demangled_names.push(s);","        self.demangled_names.push(s);\n        let index = self.demangled_names.len() as u32;"),
 ("o-off","C09","bad",IO,"    let offset = left.len() as u32;\n    left.extend(right);","    left.extend(right);\n    let offset = left.len() as u32;"),
 ("o-count","C09","bad",IO,"    let count = right.len() as u32;\n    let offset","    let count = left.len() as u32;\n    let offset"),
 ("o-left","C09","bad",IO,"        *left = right;\n","        *left = right.into_iter().filter(|s| !s.is_empty()).collect();\n"),
 ("o-dedup","C09","bad",IO,"    left.extend(right);\n","    left.extend(right);\n    left.dedup();\n"),
 ("o-list","C09","bad",IO,"        self.demangled_names\n    }","        let mut v = self.demangled_names; v.sort(); v\n    }"),
 ("o-remapif","C09","bad",SY,"                inline_site.inline_origin_id =\n                    inline_origin_remapping[inline_site.inline_origin_id as usize];","                if file_remapping.is_some() { inline_site.inline_origin_id =\n                    inline_origin_remapping[inline_site.inline_origin_id as usize]; }"),
 ("o-parent","C09","bad",CO,"let inline_origin_id = inline_origins.get_id(&inlinee.name);","let inline_origin_id = inline_origins.get_id(&fun.name);"),
 ("o-depth","C09","bad",CO,"call_depth + 1,","call_depth,"),
 ("o-zip","C09","bad",CO,"                    next_inline = inline_iter.next();\n                } else","                    next_inline = inline_iter.next().map(|(r, _)| (r, inline_origin_id));\n                } else"),
 ("o-range","C09","bad",CO,"                            rva: inline_range.start as u32,","                            rva: current_address as u32,"),
 ("o-len","C09","bad",CO,"len: (inline_range.end - inline_range.start) as u32,","len: (line_range_end - inline_range.start) as u32,"),
 ("o-cur","C09","bad",CO,"let (inline_range, inline_origin_id) = next_inline.take().unwrap();","let (inline_range, inline_origin_id) = next_inline.take().unwrap();\n                    let inline_origin_id = inline_origin_id.max(1);"),
 ("o-skip","C09","bad",CO,"            if inlinee.lines.is_empty() {","            if inlinee.lines.len() < 2 {"),
 ("o-writerev","C09","bad",OI,"for (n, function_name) in self.inline_origins.iter().enumerate() {","for (n, function_name) in self.inline_origins.iter().rev().enumerate() {"),
 # refactorings
 ("r-getid-if","C08","ok",SO,'''        match self.cache.entry(cache_key) {
            hash_map::Entry::Occupied(e) => *e.get(),
            hash_map::Entry::Vacant(e) => {
                let path''','''        if let Some(id) = self.cache.get(&cache_key) {
            return *id;
        }
        {
            {
                let path''',SO,'''                e.insert(id);
                id
            }
        }
    }

    // Some''','''                self.cache.insert(cache_key, id);
                id
            }
        }
    }

    // Some'''),
 ("r-getid-get","C08","ok",SO,'''                let id = match self.ref_to_id.entry(path.clone()) {
                    hash_map::Entry::Occupied(e) => *e.get(),
                    hash_map::Entry::Vacant(e) => {''','''                let id = match self.ref_to_id.get(&path) {
                    Some(e) => *e,
                    None => {''',SO,'''                        let path = new_path.unwrap_or(path);
                        e.insert(id);
                        self.fake_id_to_ref.push((None, path));''','''                        self.ref_to_id.insert(path.clone(), id);
                        let path = match new_path { Some(p) => p, None => path };
                        self.fake_id_to_ref.push((None, path));'''),
 ("r-map-helper","C08","ok",SO,'''                        let new_path = if let Some(mapping) = self.mapping.as_ref() {
                            match mapping.map(&path) {
                                Ok(p) => p,
                                Err(e) => {
                                    error!("Mapping error: {e}");
                                    None
                                }
                            }
                        } else {
                            None
                        };
                        let path = new_path.unwrap_or(path);''','''                        let path = Self::mapped(self.mapping.as_deref(), path);''',SO,'''    /// For a given compilation_dir, file return''','''    fn mapped(mapping: Option<&PathMappings>, path: String) -> String {
        let Some(mapping) = mapping else {
            return path;
        };
        match mapping.map(&path) {
            Ok(Some(p)) => p,
            Ok(None) => path,
            Err(e) => {
                error!("Mapping error: {e}");
                path
            }
        }
    }

    /// For a given compilation_dir, file return'''),
 ("r-true","C08","ok",SO,'''        let (id, name) = &mut self.fake_id_to_ref[fake_id as usize];
        if let Some(id) = id {
            *id
        } else {
            let true_id = self.id_to_ref.len() as u32;
            *id = Some(true_id);
            self.id_to_ref.push(name.clone());
            true_id
        }''','''        let entry = &mut self.fake_id_to_ref[fake_id as usize];
        match entry.0 {
            Some(id) => id,
            None => {
                let true_id = self.id_to_ref.len() as u32;
                self.id_to_ref.push(entry.1.clone());
                entry.0 = Some(true_id);
                true_id
            }
        }'''),
 ("r-true2","C08","ok",SO,'''        let (id, name) = &mut self.fake_id_to_ref[fake_id as usize];
        if let Some(id) = id {
            *id
        } else {
            let true_id = self.id_to_ref.len() as u32;
            *id = Some(true_id);
            self.id_to_ref.push(name.clone());
            true_id
        }''','''        let (id, name) = &mut self.fake_id_to_ref[fake_id as usize];
        let id_to_ref = &mut self.id_to_ref;
        *id.get_or_insert_with(|| {
            let true_id = id_to_ref.len() as u32;
            id_to_ref.push(name.clone());
            true_id
        })'''),
 ("r-merge-entry","C08","ok",SO,'''            if let Some(an_id) = self.ref_to_id.get(path) {
                // self has already this path so map the id to the existing one
                remapping[id] = *an_id;
            } else {
                let new_id = self.id_to_ref.len() as u32;
                remapping[id] = new_id;
                self.id_to_ref.push(other.id_to_ref[id].clone());
                self.ref_to_id.insert(path.clone(), new_id);
            }''','''            remapping[id] = match self.ref_to_id.entry(path.clone()) {
                hash_map::Entry::Occupied(e) => *e.get(),
                hash_map::Entry::Vacant(e) => {
                    let new_id = self.id_to_ref.len() as u32;
                    self.id_to_ref.push(other.id_to_ref[id].clone());
                    *e.insert(new_id)
                }
            };'''),
 ("r-merge-take","C08","ok",SO,'''            std::mem::swap(&mut self.ref_to_id, &mut other.ref_to_id);
            std::mem::swap(&mut self.id_to_ref, &mut other.id_to_ref);
''','''            self.ref_to_id = std::mem::take(&mut other.ref_to_id);
            self.id_to_ref = std::mem::take(&mut other.id_to_ref);
'''),
 ("r-merge-swapall","C08","ok",SO,'''            std::mem::swap(&mut self.ref_to_id, &mut other.ref_to_id);
            std::mem::swap(&mut self.id_to_ref, &mut other.id_to_ref);
''','''            std::mem::swap(self, other);
'''),
 ("r-remap-foreach","C08","ok",SY,'''            for line in self.source.lines.iter_mut() {
                line.file_id = file_remapping[line.file_id as usize];
            }''','''            self.source
                .lines
                .iter_mut()
                .for_each(|line| line.file_id = file_remapping[line.file_id as usize]);'''),
 ("r-remap-let","C08","ok",SY,'''        if let Some(file_remapping) = file_remapping {
            for line in self.source.lines.iter_mut() {
                line.file_id = file_remapping[line.file_id as usize];
            }
        }''','''        let Some(file_remapping) = file_remapping else {
            return;
        };
        for line in &mut self.source.lines {
            let old = line.file_id as usize;
            line.file_id = file_remapping[old];
        }'''),
 ("r-inl-loop","C08 C09","ok",SY,'''        let inlines = std::mem::take(&mut self.source.inlines);
        self.source.inlines = inlines
            .into_iter()
            .map(|(mut inline_site, address_ranges)| {
                if let Some(file_remapping) = file_remapping {
                    inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
                }
                inline_site.inline_origin_id =
                    inline_origin_remapping[inline_site.inline_origin_id as usize];
                (inline_site, address_ranges)
            })
            .collect();''','''        let inlines = std::mem::take(&mut self.source.inlines);
        for (mut inline_site, address_ranges) in inlines {
            if let Some(file_remapping) = file_remapping {
                inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
            }
            inline_site.inline_origin_id =
                inline_origin_remapping[inline_site.inline_origin_id as usize];
            self.source.inlines.insert(inline_site, address_ranges);
        }'''),
 ("r-inl-struct","C08 C09","ok",SY,'''            .map(|(mut inline_site, address_ranges)| {
                if let Some(file_remapping) = file_remapping {
                    inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
                }
                inline_site.inline_origin_id =
                    inline_origin_remapping[inline_site.inline_origin_id as usize];
                (inline_site, address_ranges)''','''            .map(|(site, address_ranges)| {
                let call_file_id = match file_remapping {
                    Some(m) => m[site.call_file_id as usize],
                    None => site.call_file_id,
                };
                let inline_origin_id = inline_origin_remapping[site.inline_origin_id as usize];
                let site = crate::line::InlineSite { call_file_id, inline_origin_id, ..site };
                (site, address_ranges)'''),
 ("r-merge-once","C08 C09","ok",OI,'''                        sym.remap_lines(file_remapping.as_deref());
                        sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                        std''','''                        sym.remap_all(file_remapping.as_deref(), &inline_origin_remapping);
                        std''',SY,"    pub(super) fn remap_lines(","    pub(super) fn remap_all(&mut self, f: Option<&[u32]>, o: &[u32]) {\n        self.remap_lines(f);\n        self.remap_inlines(f, o);\n    }\n\n    pub(super) fn remap_lines("),
 ("r-remap-first","C08 C09","ok",OI,"            // Deal with a FUNC\n","            // Deal with a FUNC\n            sym.remap_lines(file_remapping.as_deref());\n            sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);\n",OI,'''                        sym.remap_lines(file_remapping.as_deref());
                        sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                        std''','''                        std''',OI,'''                    sym.remap_lines(file_remapping.as_deref());
                    sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                    e.''','''                    e.'''),
 ("r-line-helper","C08","ok",CO,'''            let file_id = source.get_id(fun.compilation_dir, &line.file);
            let file_id = source.get_true_id(file_id);
            let line_no''','''            let file_id = Self::file_of(source, fun, line);
            let line_no''',CO,'''    /// Translate the information in `fun` into''','''    fn file_of(source: &mut SourceFiles, fun: &Function<'_>, line: &symbolic::debuginfo::LineInfo<'_>) -> u32 {
        let id = source.get_id(fun.compilation_dir, &line.file);
        source.get_true_id(id)
    }

    /// Translate the information in `fun` into'''),
 ("r-line-filter","C08","ok",CO,'''        for line in fun.lines.iter() {
            if line.line == 0 {
                // It's probably better to skip it to avoid to have some links in crash-stats pointing to line 0 in a file
                continue;
            }
''','''        for line in fun.lines.iter().filter(|l| l.line != 0) {
'''),
 ("r-line-true","C08","ok",CO,'''            let file_id = source.get_id(fun.compilation_dir, &line.file);
            let line_info = (line.line, file_id);''','''            let file_id = source.get_id(fun.compilation_dir, &line.file);
            let file_id = source.get_true_id(file_id);
            let line_info = (line.line, file_id);''',CO,"                    source.get_true_id(file_id),","                    file_id,"),
 ("r-line-cont","C08","ok",CO,'''            if prev.as_ref() != Some(&line_info) {
                lines.add_line(
                    line.address as u32,
                    line.line as u32,
                    source.get_true_id(file_id),
                );
                prev = Some(line_info);
            }''','''            if prev == Some(line_info) {
                continue;
            }
            prev = Some(line_info);
            let file_id = source.get_true_id(file_id);
            lines.add_line(line.address as u32, line.line as u32, file_id);'''),
 ("r-inl-site","C08 C09","ok",CO,'''                    let call_line_number = line_no;
                    let call_file_id = file_id;

                    lines.add_inline(
                        InlineSite {
                            inline_origin_id,
                            call_depth,
                            call_line_number,
                            call_file_id,
                        },''','''                    let site = InlineSite {
                        inline_origin_id,
                        call_depth,
                        call_line_number: line_no,
                        call_file_id: file_id,
                    };
                    lines.add_inline(
                        site,'''),
 ("r-inl-iflet","C08 C09","ok",CO,'''                if next_inline.is_some() && next_inline.as_ref().unwrap().0.start < line_range_end {
                    let (inline_range, inline_origin_id) = next_inline.take().unwrap();
''','''                let covered = match &next_inline {
                    Some((range, _)) => range.start < line_range_end,
                    None => false,
                };
                if let Some((inline_range, inline_origin_id)) = next_inline.take_if(|_| covered) {
'''),
 ("r-inl-peek","C08 C09","ok",CO,'''            while next_line.is_some() && next_line.as_ref().unwrap().address < current_address {
                next_line = line_iter.next();
            }''','''            while let Some(line) = next_line {
                if line.address >= current_address {
                    break;
                }
                next_line = line_iter.next();
            }'''),
 ("r-o-entry","C09","ok",IO,'''        if let Some(index) = self.index_for_mangled_name.get(name) {
            return *index;
        }

        let s = Self::demangle_and_sanitize(name);
        let index = self.demangled_names.len() as u32;
        self.demangled_names.push(s);
        self.index_for_mangled_name.insert(name.clone(), index);
        index''','''        use std::collections::hash_map::Entry;
        match self.index_for_mangled_name.entry(name.clone()) {
            Entry::Occupied(e) => *e.get(),
            Entry::Vacant(e) => {
                let index = self.demangled_names.len() as u32;
                self.demangled_names.push(Self::demangle_and_sanitize(name));
                *e.insert(index)
            }
        }'''),
 ("r-o-orinsert","C09","ok",IO,'''        if let Some(index) = self.index_for_mangled_name.get(name) {
            return *index;
        }

        let s = Self::demangle_and_sanitize(name);
        let index = self.demangled_names.len() as u32;
        self.demangled_names.push(s);
        self.index_for_mangled_name.insert(name.clone(), index);
        index''','''        let names = &mut self.demangled_names;
        *self.index_for_mangled_name.entry(name.clone()).or_insert_with(|| {
            let index = names.len() as u32;
            names.push(Self::demangle_and_sanitize(name));
            index
        })'''),
 ("r-o-merge-short","C09","ok",IO,'''    if left.is_empty() {
        let count = right.len() as u32;
        *left = right;
        return (0..count).collect();
    }
''',""),
 ("r-o-merge-loop","C09","ok",IO,'''    let count = right.len() as u32;
    let offset = left.len() as u32;
    left.extend(right);
    (offset..(offset + count)).collect()''','''    let mut ids = Vec::with_capacity(right.len());
    for name in right {
        ids.push(left.len() as u32);
        left.push(name);
    }
    ids'''),
 ("r-o-merge-append","C09","ok",IO,'''    let count = right.len() as u32;
    let offset = left.len() as u32;
    left.extend(right);
    (offset..(offset + count)).collect()''','''    let offset = left.len() as u32;
    left.extend(right);
    (offset..left.len() as u32).collect()'''),
 ("r-o-inlinees","C09","ok",CO,'''        for inlinee in &fun.inlinees {
            if inlinee.lines.is_empty() {
                continue;
            }
''','''        for inlinee in fun.inlinees.iter().filter(|i| !i.lines.is_empty()) {
'''),
 ("r-o-extend","C09","ok",CO,'''            for line in &inlinee.lines {
                let start = line.address;
                let end = line.address.saturating_add(line.size.unwrap_or(1));
                inline_ranges.push((start..end, inline_origin_id));
            }
''','''            inline_ranges.extend(inlinee.lines.iter().map(|line| {
                let end = line.address.saturating_add(line.size.unwrap_or(1));
                (line.address..end, inline_origin_id)
            }));
'''),
]

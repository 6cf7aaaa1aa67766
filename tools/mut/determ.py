S, O, L, M, IO, Y, D, C, U = "src/source.rs", "src/object_info.rs", "src/line.rs", "src/mapping.rs", "src/inline_origins.rs", "src/symbol.rs", "src/dumper.rs", "src/collector.rs", "src/utils.rs"
SORT = "        other_ids.sort_by_key(|(_, id)| **id);\n"
LOOP = "        for (path, id) in other_ids {\n"
V = [
 ("unsorted","C06","bad",S,SORT,""),
 ("unsorted2","C06","bad",S,"        let mut other_ids: Vec<_> = other.ref_to_id.iter().collect();\n"+SORT,"",S,LOOP,"        for (path, id) in &other.ref_to_id {\n"),
 ("unsorted3","C06","bad",S,"        let mut other_ids: Vec<_> = other.ref_to_id.iter().collect();\n"+SORT,"",S,LOOP,"        for (path, id) in other.ref_to_id.drain() {\n            let (path, id) = (&path, &id);\n"),
 ("partial","C06","bad",S,"(|(_, id)| **id)","(|(path, _)| path.len())"),
 ("rev-after","C06","bad",S,SORT,"        let mut first: Vec<_> = other_ids.iter().take(2).cloned().collect();\n        first.extend(other_ids.iter().skip(2).cloned());\n        let other_ids = first;\n"),
 ("hash-inlines","C06","bad",L,"pub(crate) inlines: BTreeMap<InlineSite, Vec<InlineAddressRange>>,","pub(crate) inlines: std::collections::HashMap<InlineSite, Vec<InlineAddressRange>>,",L,"            inlines: BTreeMap::new(),","            inlines: std::collections::HashMap::new(),"),
 ("hash-publics","C06","bad",O,"        for (addr, sym) in right.symbols.iter_mut() {\n","        let mut by_addr: hashbrown::HashMap<u32, Symbol> = std::mem::take(&mut right.symbols).into_iter().collect();\n        for (addr, sym) in by_addr.iter_mut() {\n",O,"use std::fmt::{Display, Formatter};","use std::fmt::{Display, Formatter};\nuse crate::symbol::Symbol;"),
 ("ids-hash","C06","bad",S,"            id_to_ref: self.id_to_ref,\n        }\n    }\n}\n\nimpl SourceMap","            id_to_ref: if self.id_to_ref.len() == self.ref_to_id.len() { self.ref_to_id.keys().cloned().collect() } else { self.id_to_ref },\n            ref_to_id: Default::default(),\n        }\n    }\n}\n\nimpl SourceMap",S,"        SourceMap {\n            ref_to_id: self.ref_to_id,","        SourceMap {"),
 ("origins-hash","C06","bad",IO,"        self.demangled_names\n    }","        let mut v = self.demangled_names;\n        for (n, i) in self.index_for_mangled_name.iter() {\n            if v[*i as usize].is_empty() {\n                v.push(n.as_str().to_string());\n            }\n        }\n        v\n    }"),
 ("dedup-set","C06","bad",IO,"    left.extend(right);\n","    let right: std::collections::HashSet<String> = right.into_iter().collect();\n    left.extend(right);\n"),
 ("last-name","C06","bad",IO,"        let s = Self::demangle_and_sanitize(name);\n        let index","        let s = Self::demangle_and_sanitize(name);\n        let s = if s.is_empty() { self.index_for_mangled_name.keys().next().map_or(s, |n| n.as_str().to_string()) } else { s };\n        let index"),
 ("addr-key","C06","bad",S,"            file.name_str().into_owned(),","            format!(\"{:p}\", file.name_str().as_ptr()),"),
 ("addr-key2","C06","bad",S,"            compilation_dir.to_vec(),","            (compilation_dir.as_ptr() as usize).to_le_bytes().to_vec(),"),
 ("time","C06","bad",O,"        let debug_id = ","        let _epoch = std::time::SystemTime::now();\n        let debug_id = "),
 ("env-canon","C06","bad",S,"        if canonicalize {","        if canonicalize && std::env::var_os(\"DUMP_SYMS_RAW_PATHS\").is_none() {"),
 ("env-cwd","C06","bad",S,"        let path = platform.join_paths(&dir, &name);\n","        if dir.is_empty() {\n            if let Ok(d) = std::env::current_dir() {\n                dir = d.to_string_lossy().to_string();\n            }\n        }\n        let path = platform.join_paths(&dir, &name);\n"),
 ("static-count","C06","bad",S,"            let true_id = self.id_to_ref.len() as u32;","            static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n            let true_id = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);"),
 ("hash-name","C06","bad",C,"    fn demangle_str(name: &str) -> String {","    fn demangle_str(name: &str) -> String {\n        use std::hash::{BuildHasher, Hash, Hasher};\n        let mut h = std::collections::hash_map::RandomState::new().build_hasher();\n        name.hash(&mut h);\n        if h.finish() == 0 { return String::new(); }"),
 ("thread-name","C06","bad",C,"    fn demangle_str(name: &str) -> String {","    fn demangle_str(name: &str) -> String {\n        if std::thread::current().name() == Some(\"main\") && name.is_empty() { return \"main\".to_string(); }"),
 ("files-first","C06","bad",M,"        for (src, dest) in sources.iter().zip(destinations.iter()) {\n","        let pairs: HashMap<_, _> = sources.iter().zip(destinations.iter()).collect();\n        for (src, dest) in pairs {\n"),
 ("bundle-first","C06","bad",U,"                1 => {\n                    let entry","                1 | 2 => {\n                    let entry"),
 ("env-dumper","C06","bad",D,"    let arch = Arch::from_str(config.arch)?;\n    let results","    let arch = Arch::from_str(&std::env::var(\"DUMP_SYMS_ARCH\").unwrap_or_else(|_| config.arch.to_string()))?;\n    let results"),
 # --- unchanged behaviour
 ("sorted-by","C06","ok",S,"other_ids.sort_by_key(|(_, id)| **id);","other_ids.sort_by(|a, b| a.1.cmp(b.1));"),
 ("sorted-unst","C06","ok",S,"other_ids.sort_by_key(|(_, id)| **id);","other_ids.sort_unstable_by_key(|(_, id)| **id);"),
 ("btree","C06","ok",S,"        let mut other_ids: Vec<_> = other.ref_to_id.iter().collect();\n"+SORT,"        let other_ids: std::collections::BTreeMap<_, _> = other.ref_to_id.iter().map(|(p, id)| (*id, p)).collect();\n",S,LOOP,"        for (id, path) in &other_ids {\n",S,"self.ref_to_id.get(path)","self.ref_to_id.get(*path)",S,"self.ref_to_id.insert(path.clone(), new_id);","self.ref_to_id.insert((*path).clone(), new_id);"),
 ("helper","C06","ok",S,"        let mut other_ids: Vec<_> = other.ref_to_id.iter().collect();\n"+SORT,"        let mut other_ids = other.ids();\n"+SORT,S,"impl SourceMap {\n","impl SourceMap {\n    fn ids(&self) -> Vec<(&String, &u32)> {\n        self.ref_to_id.iter().collect()\n    }\n\n"),
 ("helper2","C06","ok",S,"        let mut other_ids: Vec<_> = other.ref_to_id.iter().collect();\n"+SORT,"        let other_ids = other.ids();\n",S,"impl SourceMap {\n","impl SourceMap {\n    fn ids(&self) -> Vec<(&String, &u32)> {\n        let mut v = Vec::with_capacity(self.ref_to_id.len());\n        v.extend(self.ref_to_id.iter());\n        v.sort_by_key(|(_, id)| **id);\n        v\n    }\n\n"),
 ("mapping-loop","C06","ok",M,"for (k, v) in vars {","for (k, v) in vars.iter() {"),
 ("count","C06","ok",IO,"        self.demangled_names\n    }","        log::debug!(\"{} names\", self.index_for_mangled_name.values().count());\n        self.demangled_names\n    }"),
 ("mod-vec","C06","ok",D,"        for (_, d) in results.drain() {\n","        let modules: Vec<_> = results.drain().map(|(_, d)| d).collect();\n        for d in modules {\n"),
 ("mod-values","C06","ok",D,"        for (_, d) in results.drain() {\n","        for d in std::mem::take(results).into_values() {\n"),
 ("set-check","C06","ok",O,"        // merge the CFIs\n","        let names: std::collections::HashSet<_> = left.symbols.values().map(|s| s.name.as_str()).collect();\n        log::debug!(\"{}\", names.len());\n        let _all = names.iter().all(|n| n.is_empty());\n        drop(names);\n        // merge the CFIs\n"),
 ("bundle-if","C06","ok",U,"            match entries.len() {\n                0 => panic!(\n                    \"Unable to find DWARF-bearing file in bundle: {}\",\n                    dwarf_path.to_str().unwrap()\n                ),\n                1 => {","            if entries.is_empty() {\n                panic!(\n                    \"Unable to find DWARF-bearing file in bundle: {}\",\n                    dwarf_path.to_str().unwrap()\n                );\n            }\n            match entries.len() {\n                1 => {"),
]

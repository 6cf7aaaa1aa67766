M, S = "src/mapping.rs", "src/source.rs"
LOOP = '''        let mut res = None;
        for mapping in self.mappings.iter() {
            let mapping = mapping.apply(file, file_str)?;
            if let Some(mapping) = mapping {
                res = Some(mapping);
                break;
            }
        }
'''
V = [
 ("last-wins","C21","bad",M,"                res = Some(mapping);\n                break;\n","                res = Some(mapping);\n"),
 ("rev","C21","bad",M,"for mapping in self.mappings.iter() {","for mapping in self.mappings.iter().rev() {"),
 ("skip-first","C21","bad",M,"for mapping in self.mappings.iter() {","for mapping in self.mappings.iter().skip(1) {"),
 ("take","C21","bad",M,"for mapping in self.mappings.iter() {","for mapping in self.mappings.iter().take(8) {"),
 ("cache-key","C21","bad",M,"cache.insert(file_str.to_string(), res.clone());","cache.insert(res.clone(), res.clone());"),
 ("cache-name","C21","bad",M,"cache.get(file_str)","cache.get(file_str.rsplit('/').next().unwrap())"),
 ("cache-val","C21","bad",M,"cache.insert(file_str.to_string(), res.clone());","cache.insert(file_str.to_string(), file_str.to_string());"),
 ("err-skip","C21","bad",M,"let mapping = mapping.apply(file, file_str)?;","let mapping = mapping.apply(file, file_str).unwrap_or(None);"),
 ("lower","C21","bad",M,"let mapping = mapping.apply(file, file_str)?;","let mapping = mapping.apply(file, &file_str.to_lowercase())?;"),
 ("files-and-re","C21","bad",M,"if self.files.is_empty() || self.files.contains(file_str) {","if self.files.is_empty() || !self.files.contains(file_str) {"),
 ("files-ignored","C21","bad",M,"if self.files.is_empty() || self.files.contains(file_str) {","if self.files.len() < 2 || self.files.contains(file_str) {"),
 ("files-empty","C21","bad",M,"if self.files.is_empty() || self.files.contains(file_str) {","if self.files.contains(file_str) || self.files.is_empty() && self.actions.len() < 9 {"),
 ("group-none","C21","bad",M,'''                            } else {
                                return Ok(None);
                            }''','''                            }'''),
 ("group-off","C21","bad",M,"caps.get(group)","caps.get(group + 1)"),
 ("group-zero","C21","bad",M,"caps.get(group)","caps.get(group.min(9))"),
 ("no-chunk","C21","bad",M,"buf.extend_from_slice(&self.mapping[action.start..action.end]);","if action.end > action.start + 1 { buf.extend_from_slice(&self.mapping[action.start..action.end]); }"),
 ("chunk-end","C21","bad",M,"&self.mapping[action.start..action.end]","&self.mapping[action.start..]"),
 ("dig-swap","C21","bad",M,"get_digest(file, uppercase)?","get_digest(file, !uppercase)?"),
 ("dig-case","C21","bad",M,'''if action == "DIGEST" {
                    ActionKind::Digest(true)''','''if action == "DIGEST" {
                    ActionKind::Digest(false)'''),
 ("dig-ci","C21","bad",M,'if action == "DIGEST" {','if action.eq_ignore_ascii_case("DIGEST") {'),
 ("var-copy","C21","bad",M,"ActionKind::MappingVar(val.clone())","ActionKind::MappingVar(val.trim().to_string())"),
 ("bail-skip","C21","bad",M,'anyhow::bail!("Invalid action {} in mapping string", action);','chunk_start = i + 1; continue;'),
 ("start","C21","bad",M,"                chunk_start = i + 1;\n","                chunk_start = i;\n"),
 ("start2","C21","bad",M,"                chunk_start = i + 1;\n","                chunk_start = chunk_end + 1;\n"),
 ("end","C21","bad",M,"                chunk_end = i;\n","                chunk_end = i + 1;\n"),
 ("end2","C21","bad",M,"                    end: chunk_end,","                    end: i,"),
 ("tail","C21","bad",M,"if chunk_start < mapping.len() {","if chunk_start < mapping.len() && actions.is_empty() {"),
 ("tail2","C21","bad",M,"if chunk_start < mapping.len() {","if chunk_start + 1 < mapping.len() {"),
 ("tail3","C21","bad",M,'''                start: chunk_start,
                end: mapping.len(),''','''                start: chunk_end,
                end: mapping.len(),'''),
 ("re-i","C21","bad",M,"let re = Regex::new(re)?;",'let re = Regex::new(&format!("(?i){re}"))?;'),
 ("files-drop","C21","bad",M,'''            re,
            actions,
            mapping,
            files,
        })''','''            re,
            actions,
            mapping,
            files: files.into_iter().filter(|f| !f.is_empty()).collect(),
        })'''),
 ("order-swap","C21","bad",M,'''        Self::get_mappings_from_file(&vars, file, &mut mappings)?;
        Self::get_mappings(&vars, sources, destinations, &mut mappings)?;''','''        Self::get_mappings(&vars, sources, destinations, &mut mappings)?;
        Self::get_mappings_from_file(&vars, file, &mut mappings)?;'''),
 ("nofiles-first","C21","bad",M,'''                    no_files.push(PathMappingGenerator::new(''','''                    out.push(PathMappingGenerator::new('''),
 ("nofiles-insert","C21","bad",M,"                out.push(m);","                out.insert(0, m);"),
 ("nofiles-rev","C21","bad",M,"for m in no_files.drain(..) {","for m in no_files.drain(..).rev() {"),
 ("nofiles-lost","C21","bad",M,"for m in no_files.drain(..) {","for m in no_files.drain(1..) {"),
 ("nofiles-cond","C21","bad",M,"                if files.is_empty() {","                if files.len() <= 1 {"),
 ("src-rev","C21","bad",M,"sources.iter().zip(destinations.iter())","sources.iter().zip(destinations.iter().rev())"),
 ("src-skip","C21","bad",M,"sources.iter().zip(destinations.iter())","sources.iter().zip(destinations.iter()).skip(1)"),
 ("src-cont","C21","bad",M,"sources.iter().zip(destinations.iter()) {","sources.iter().zip(destinations.iter()) {\n            if src.is_empty() { continue; }"),
 ("vars-nooverride","C21","bad",M,"mappings.variables.insert(k.to_string(), v.to_string());","mappings.variables.entry(k.to_string()).or_insert(v.to_string());"),
 ("vars-ignored","C21","bad",M,'''                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                } else {''','''                        &destination,
                        vars,
                        files,
                    )?);
                } else {'''),
 ("vars-split","C21","bad",M,"var.splitn(2, '=')","var.rsplitn(2, '=')"),
 ("vars-split3","C21","bad",M,"var.splitn(2, '=')","var.split('=')"),
 ("vars-ensure","C21","bad",M,'anyhow::ensure!(pair.len() == 2, "Invalid pair {}: must be var=value", var);','if pair.len() != 2 { continue; }'),
 ("pairs-ensure","C21","bad",M,"sources.as_ref().map_or(0, |v| v.len()) == destinations.as_ref().map_or(0, |v| v.len())","sources.as_ref().map_or(0, |v| v.len()) >= destinations.as_ref().map_or(0, |v| v.len())"),
 ("err-continue","C21","bad",M,'''            out.push(PathMappingGenerator::new(
                src,
                dest,
                vars,
                HashSet::default(),
            )?);''','''            if let Ok(m) = PathMappingGenerator::new(src, dest, vars, HashSet::default()) {
                out.push(m);
            }'''),
 # refactorings
 ("ok-while","C21","ok",M,"        for (i, c) in mapping.iter().enumerate() {\n            if *c == b'{' {","        for i in 0..mapping.len() {\n            let c = &mapping[i];\n            if *c == b'{' {"),
 ("ok-match","C21","ok",M,"            if *c == b'{' {\n                chunk_end = i;\n                open = true;\n            } else if *c == b'}' {\n                if !open {\n                    continue;\n                }","            if *c == b'{' {\n                open = true;\n                chunk_end = i;\n                continue;\n            }\n            if *c == b'}' && open {"),
 ("ok-findmap","C21","ok",M,LOOP,'''        let mut res = None;
        let mut it = self.mappings.iter();
        while let Some(mapping) = it.next() {
            res = mapping.apply(file, file_str)?;
            if res.is_some() {
                break;
            }
        }
'''),
 ("ok-ret","C21","ok",M,LOOP+'''
        if let Some(res) = res {
            let mut cache = self.cache.lock().unwrap();
            cache.insert(file_str.to_string(), res.clone());
            return Ok(Some(res));
        }
''','''        for mapping in &self.mappings {
            if let Some(res) = mapping.apply(file, file_str)? {
                let mut cache = self.cache.lock().unwrap();
                cache.insert(file_str.to_string(), res.clone());
                return Ok(Some(res));
            }
        }
'''),
 ("ok-extend","C21","ok",M,"            for m in no_files.drain(..) {\n                out.push(m);\n            }","            out.extend(no_files);"),
 ("ok-append","C21","ok",M,"            for m in no_files.drain(..) {\n                out.push(m);\n            }","            out.append(&mut no_files);"),
 ("ok-splitonce","C21","ok",M,'''                let pair = var.splitn(2, '=').collect::<Vec<_>>();
                anyhow::ensure!(pair.len() == 2, "Invalid pair {}: must be var=value", var);
                variables.insert(pair[0].to_string(), pair[1].to_string());''','''                let (k, v) = match var.split_once('=') {
                    Some(p) => p,
                    None => anyhow::bail!("Invalid pair {}: must be var=value", var),
                };
                variables.insert(k.to_string(), v.to_string());'''),
 ("ok-early","C21","ok",M,"        if self.files.is_empty() || self.files.contains(file_str) {\n            if let Some(caps) = self.re.captures(file_str) {","        if !self.files.is_empty() && !self.files.contains(file_str) {\n            return Ok(None);\n        }\n        {\n            if let Some(caps) = self.re.captures(file_str) {"),
 ("ok-string","C21","ok",M,"return Ok(Some(unsafe { String::from_utf8_unchecked(buf) }));","return Ok(Some(String::from_utf8(buf)?));"),
 ("ok-helper","C21","ok",M,'''                let action = if action == "DIGEST" {
                    ActionKind::Digest(true)
                } else if action == "digest" {
                    ActionKind::Digest(false)
                } else if let Some(val) = mapping_vars.get(action) {
                    ActionKind::MappingVar(val.clone())
                } else if let Ok(group) = action.parse::<usize>() {
                    ActionKind::Group(group)
                } else {
                    anyhow::bail!("Invalid action {} in mapping string", action);
                };''','''                let action = Self::kind(action, mapping_vars)?;''',M,'''    pub(crate) fn apply(&self, file: &Path''','''    fn kind(action: &str, mapping_vars: &HashMap<String, String>) -> common::Result<ActionKind> {
        match action {
            "DIGEST" => return Ok(ActionKind::Digest(true)),
            "digest" => return Ok(ActionKind::Digest(false)),
            _ => {}
        }
        if let Some(val) = mapping_vars.get(action) {
            return Ok(ActionKind::MappingVar(val.clone()));
        }
        match action.parse::<usize>() {
            Ok(group) => Ok(ActionKind::Group(group)),
            Err(_) => anyhow::bail!("Invalid action {} in mapping string", action),
        }
    }

    pub(crate) fn apply(&self, file: &Path'''),
 ("ok-onenew","C21","ok",M,'''                if files.is_empty() {
                    no_files.push(PathMappingGenerator::new(
                        &source,
                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                } else {
                    out.push(PathMappingGenerator::new(
                        &source,
                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                }''','''                let general = files.is_empty();
                let generator = PathMappingGenerator::new(
                    &source,
                    &destination,
                    &mappings.variables,
                    files,
                )?;
                if general {
                    no_files.push(generator);
                } else {
                    out.push(generator);
                }'''),
 ("ok-extendvars","C21","ok",M,'''            for (k, v) in vars {
                mappings.variables.insert(k.to_string(), v.to_string());
            }''','''            mappings.variables.extend(vars.iter().map(|(k, v)| (k.clone(), v.clone())));'''),
 ("ok-and","C21","ok",M,"            if let Some(cached) = cache.get(file_str) {\n                return Ok(Some(cached.to_string()));\n            }","            let cached = cache.get(file_str).cloned();\n            if cached.is_some() {\n                return Ok(cached);\n            }"),
 ("ok-idx","C21","ok",M,"        for (src, dest) in sources.iter().zip(destinations.iter()) {","        for i in 0..sources.len() {\n            let (src, dest) = (sources[i], destinations[i]);"),
 ("ok-collect","C21","ok",M,'''        for (src, dest) in sources.iter().zip(destinations.iter()) {
            out.push(PathMappingGenerator::new(
                src,
                dest,
                vars,
                HashSet::default(),
            )?);
        }
''','''        for pair in sources.iter().zip(destinations.iter()) {
            let generator = PathMappingGenerator::new(pair.0, pair.1, vars, HashSet::default())?;
            out.push(generator);
        }
'''),
]

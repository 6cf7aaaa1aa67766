# Refactorings of mapping.rs, cache.rs and utils.rs that change no behaviour.
ALL = "C03 C06 C13 C14 C17 C20 C21 C22 C08 C19"
V = []
def mkok(O):
    def ok(name, *e):
        V.append((name, ALL, "ok", O) + e[:2] + tuple(x for i in range(2, len(e), 2) for x in (O, e[i], e[i + 1])))
    return ok

ok = mkok("src/mapping.rs")
ok("m-new-q", """        match serde_json::from_slice::<Self>(&data) {
            Err(e) => Err(e.into()),
            Ok(m) => Ok(m),
        }
""", """        let mappings = serde_json::from_slice(&data)?;
        Ok(mappings)
""")
ok("m-digest", """    let data = utils::read(file)?;
    let sha = Sha512::digest(data);
    Ok(if uppercase {
        format!("{sha:X}")
    } else {
        format!("{sha:x}")
    })
""", """    let sha = utils::read(file).map(Sha512::digest)?;
    if uppercase {
        return Ok(format!("{sha:X}"));
    }
    Ok(format!("{sha:x}"))
""")
ok("m-digest-match", """    Ok(if uppercase {
        format!("{sha:X}")
    } else {
        format!("{sha:x}")
    })
""", """    let digest = match uppercase {
        true => format!("{:X}", sha),
        false => format!("{:x}", sha),
    };
    Ok(digest)
""")
ok("m-gen-match", """                let action = if action == "DIGEST" {
                    ActionKind::Digest(true)
                } else if action == "digest" {
                    ActionKind::Digest(false)
                } else if let Some(val) = mapping_vars.get(action) {
                    ActionKind::MappingVar(val.clone())
                } else if let Ok(group) = action.parse::<usize>() {
                    ActionKind::Group(group)
                } else {
                    anyhow::bail!("Invalid action {} in mapping string", action);
                };
""", """                let action = match action {
                    "DIGEST" => ActionKind::Digest(true),
                    "digest" => ActionKind::Digest(false),
                    name => match (mapping_vars.get(name), name.parse::<usize>()) {
                        (Some(val), _) => ActionKind::MappingVar(val.clone()),
                        (None, Ok(group)) => ActionKind::Group(group),
                        (None, Err(_)) => {
                            anyhow::bail!("Invalid action {} in mapping string", name)
                        }
                    },
                };
""")
ok("m-gen-helper", """                let action = if action == "DIGEST" {
                    ActionKind::Digest(true)
                } else if action == "digest" {
                    ActionKind::Digest(false)
                } else if let Some(val) = mapping_vars.get(action) {
                    ActionKind::MappingVar(val.clone())
                } else if let Ok(group) = action.parse::<usize>() {
                    ActionKind::Group(group)
                } else {
                    anyhow::bail!("Invalid action {} in mapping string", action);
                };
                actions.push(Action {
                    kind: action,
""", """                let kind = Self::parse_action(action, mapping_vars)?;
                actions.push(Action {
                    kind,
""", """impl PathMappingGenerator {
    pub(crate) fn new(
""", """impl PathMappingGenerator {
    fn parse_action(
        action: &str,
        mapping_vars: &HashMap<String, String>,
    ) -> common::Result<ActionKind> {
        if action == "DIGEST" {
            return Ok(ActionKind::Digest(true));
        }
        if action == "digest" {
            return Ok(ActionKind::Digest(false));
        }
        if let Some(val) = mapping_vars.get(action) {
            return Ok(ActionKind::MappingVar(val.to_owned()));
        }
        match action.parse::<usize>() {
            Ok(group) => Ok(ActionKind::Group(group)),
            Err(_) => anyhow::bail!("Invalid action {} in mapping string", action),
        }
    }

    pub(crate) fn new(
""")
ok("m-gen-loop", """        for (i, c) in mapping.iter().enumerate() {
            if *c == b'{' {
                chunk_end = i;
                open = true;
            } else if *c == b'}' {
                if !open {
                    continue;
                }
""", """        for i in 0..mapping.len() {
            let c = mapping[i];
            if c == b'{' {
                open = true;
                chunk_end = i;
            } else if c == b'}' && open {
""")
ok("m-gen-matchc", """        for (i, c) in mapping.iter().enumerate() {
            if *c == b'{' {
                chunk_end = i;
                open = true;
            } else if *c == b'}' {
                if !open {
                    continue;
                }
""", """        for (i, &c) in mapping.iter().enumerate() {
            if c == b'{' {
                chunk_end = i;
                open = true;
                continue;
            }
            if c != b'}' || !open {
                continue;
            }
            {
""")
ok("m-apply-early", """        if self.files.is_empty() || self.files.contains(file_str) {
            if let Some(caps) = self.re.captures(file_str) {
                let mut buf = Vec::with_capacity(self.mapping.len() * 3);
                for action in self.actions.iter() {
                    buf.extend_from_slice(&self.mapping[action.start..action.end]);
                    match action.kind {
                        ActionKind::Group(group) => {
                            if let Some(group) = caps.get(group) {
                                let group = group.as_str();

                                if cfg!(windows) {
                                    let group = group.replace('\\\\', "/");
                                    buf.extend_from_slice(group.as_bytes());
                                } else {
                                    buf.extend_from_slice(group.as_bytes());
                                }
                            } else {
                                return Ok(None);
                            }
                        }
                        ActionKind::MappingVar(ref val) => {
                            buf.extend_from_slice(val.as_bytes());
                        }
                        ActionKind::Digest(uppercase) => {
                            buf.extend_from_slice(get_digest(file, uppercase)?.as_bytes());
                        }
                        ActionKind::None => {}
                    }
                }
                return Ok(Some(unsafe { String::from_utf8_unchecked(buf) }));
            }
        }
        Ok(None)
""", """        if !self.files.is_empty() && !self.files.contains(file_str) {
            return Ok(None);
        }
        let caps = match self.re.captures(file_str) {
            Some(caps) => caps,
            None => return Ok(None),
        };

        let mut buf = Vec::with_capacity(self.mapping.len() * 3);
        for action in &self.actions {
            buf.extend_from_slice(&self.mapping[action.start..action.end]);
            match &action.kind {
                ActionKind::Group(group) => {
                    let group = match caps.get(*group) {
                        Some(group) => group.as_str(),
                        None => return Ok(None),
                    };
                    if cfg!(windows) {
                        buf.extend_from_slice(group.replace('\\\\', "/").as_bytes());
                    } else {
                        buf.extend_from_slice(group.as_bytes());
                    }
                }
                ActionKind::MappingVar(val) => buf.extend_from_slice(val.as_bytes()),
                ActionKind::Digest(uppercase) => {
                    let digest = get_digest(file, *uppercase)?;
                    buf.extend_from_slice(digest.as_bytes());
                }
                ActionKind::None => (),
            }
        }
        Ok(Some(unsafe { String::from_utf8_unchecked(buf) }))
""")
ok("m-apply-safe", """                return Ok(Some(unsafe { String::from_utf8_unchecked(buf) }));
""", """                return Ok(Some(String::from_utf8(buf)?));
""")
ok("m-apply-helper", """                        ActionKind::Group(group) => {
                            if let Some(group) = caps.get(group) {
                                let group = group.as_str();

                                if cfg!(windows) {
                                    let group = group.replace('\\\\', "/");
                                    buf.extend_from_slice(group.as_bytes());
                                } else {
                                    buf.extend_from_slice(group.as_bytes());
                                }
                            } else {
                                return Ok(None);
                            }
                        }
""", """                        ActionKind::Group(group) => match caps.get(group) {
                            Some(group) => Self::push_group(&mut buf, group.as_str()),
                            None => return Ok(None),
                        },
""", """    pub(crate) fn apply(""", """    fn push_group(buf: &mut Vec<u8>, group: &str) {
        if cfg!(windows) {
            buf.extend(group.replace('\\\\', "/").bytes());
        } else {
            buf.extend(group.bytes());
        }
    }

    pub(crate) fn apply(""")
ok("m-new-order", """        Ok(if mappings.is_empty() {
            None
        } else {
            Some(PathMappings {
                mappings,
                cache: Mutex::new(HashMap::default()),
            })
        })
""", """        if mappings.is_empty() {
            return Ok(None);
        }

        let cache = Mutex::new(HashMap::default());
        Ok(Some(Self { mappings, cache }))
""")
ok("m-new-then", """        Ok(if mappings.is_empty() {
            None
        } else {
            Some(PathMappings {
                mappings,
                cache: Mutex::new(HashMap::default()),
            })
        })
""", """        Ok((!mappings.is_empty()).then(|| PathMappings {
            mappings,
            cache: Mutex::default(),
        }))
""")
ok("m-vars-once", """        let mut variables = HashMap::default();
        if let Some(vars) = vars {
            for var in vars {
                let pair = var.splitn(2, '=').collect::<Vec<_>>();
                anyhow::ensure!(pair.len() == 2, "Invalid pair {}: must be var=value", var);
                variables.insert(pair[0].to_string(), pair[1].to_string());
            }
        }
        Ok(variables)
""", """        let mut variables = HashMap::default();
        for var in vars.iter().flatten() {
            match var.split_once('=') {
                Some((name, value)) => {
                    variables.insert(name.to_string(), value.to_string());
                }
                None => anyhow::bail!("Invalid pair {}: must be var=value", var),
            }
        }
        Ok(variables)
""")
ok("m-vars-let", """        let mut variables = HashMap::default();
        if let Some(vars) = vars {
            for var in vars {
                let pair = var.splitn(2, '=').collect::<Vec<_>>();
                anyhow::ensure!(pair.len() == 2, "Invalid pair {}: must be var=value", var);
                variables.insert(pair[0].to_string(), pair[1].to_string());
            }
        }
        Ok(variables)
""", """        let vars = match vars {
            Some(vars) => vars,
            None => return Ok(HashMap::default()),
        };
        vars.iter()
            .map(|var| {
                let mut pair = var.splitn(2, '=');
                match (pair.next(), pair.next()) {
                    (Some(name), Some(value)) => Ok((name.to_string(), value.to_string())),
                    _ => Err(anyhow::anyhow!("Invalid pair {}: must be var=value", var)),
                }
            })
            .collect()
""")
ok("m-get-match", """        if sources.is_none() && destinations.is_none() {
            return Ok(());
        }

        anyhow::ensure!(
            sources.as_ref().map_or(0, |v| v.len()) == destinations.as_ref().map_or(0, |v| v.len()),
            "mapping-src and mapping-dest must have the same number of elements"
        );

        let sources = sources.as_ref().unwrap();
        let destinations = destinations.as_ref().unwrap();

        for (src, dest) in sources.iter().zip(destinations.iter()) {
            out.push(PathMappingGenerator::new(
                src,
                dest,
                vars,
                HashSet::default(),
            )?);
        }

        Ok(())
""", """        let (sources, destinations) = match (sources, destinations) {
            (None, None) => return Ok(()),
            (Some(sources), Some(destinations)) if sources.len() == destinations.len() => {
                (sources, destinations)
            }
            _ => anyhow::bail!("mapping-src and mapping-dest must have the same number of elements"),
        };

        for (i, src) in sources.iter().enumerate() {
            let generator =
                PathMappingGenerator::new(src, destinations[i], vars, HashSet::default())?;
            out.push(generator);
        }

        Ok(())
""")
ok("m-get-extend", """        for (src, dest) in sources.iter().zip(destinations.iter()) {
            out.push(PathMappingGenerator::new(
                src,
                dest,
                vars,
                HashSet::default(),
            )?);
        }

        Ok(())
""", """        let generators = sources
            .iter()
            .zip(destinations)
            .map(|(src, dest)| PathMappingGenerator::new(src, dest, vars, HashSet::new()))
            .collect::<common::Result<Vec<_>>>()?;
        out.extend(generators);

        Ok(())
""")
ok("m-file-extend", """            for m in no_files.drain(..) {
                out.push(m);
            }
""", """            out.append(&mut no_files);
""")
ok("m-file-extend2", """            for m in no_files.drain(..) {
                out.push(m);
            }
""", """            out.extend(no_files);
""")
ok("m-file-once", """                if files.is_empty() {
                    no_files.push(PathMappingGenerator::new(
                        &source,
                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                } else {
                    out.push(PathMappingGenerator::new(
                        &source,
                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                }
""", """                let general = files.is_empty();
                let generator = PathMappingGenerator::new(
                    &source,
                    &destination,
                    &mappings.variables,
                    files,
                )?;
                if general {
                    no_files.push(generator);
                } else {
                    out.push(generator);
                }
""")
ok("m-file-dest", """                if files.is_empty() {
                    no_files.push(PathMappingGenerator::new(
                        &source,
                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                } else {
                    out.push(PathMappingGenerator::new(
                        &source,
                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                }
""", """                let dest = if files.is_empty() {
                    &mut no_files
                } else {
                    &mut *out
                };
                dest.push(PathMappingGenerator::new(
                    &source,
                    &destination,
                    &mappings.variables,
                    files,
                )?);
""")
ok("m-file-partition", """            let mut mappings = Mappings::new(file)?;
            for (k, v) in vars {
                mappings.variables.insert(k.to_string(), v.to_string());
            }

            let mut no_files = Vec::new();

            for Mapping {
                source,
                destination,
                files,
            } in mappings.mappings.drain(..)
            {
                if files.is_empty() {
                    no_files.push(PathMappingGenerator::new(
                        &source,
                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                } else {
                    out.push(PathMappingGenerator::new(
                        &source,
                        &destination,
                        &mappings.variables,
                        files,
                    )?);
                }
            }

            for m in no_files.drain(..) {
                out.push(m);
            }
""", """            let Mappings {
                mut variables,
                mappings,
            } = Mappings::new(file)?;
            variables.extend(vars.iter().map(|(k, v)| (k.clone(), v.clone())));

            let mut no_files = Vec::new();
            for mapping in mappings {
                let is_general = mapping.files.is_empty();
                let generator = PathMappingGenerator::new(
                    &mapping.source,
                    &mapping.destination,
                    &variables,
                    mapping.files,
                )?;
                if is_general {
                    no_files.push(generator);
                } else {
                    out.push(generator);
                }
            }
            out.extend(no_files);
""")
ok("m-file-early", """        if let Some(file) = file {
            let mut mappings = Mappings::new(file)?;
""", """        let file = match file {
            Some(file) => *file,
            None => return Ok(()),
        };
        {
            let mut mappings = Mappings::new(file)?;
""")
ok("m-map-find", """        let mut res = None;
        for mapping in self.mappings.iter() {
            let mapping = mapping.apply(file, file_str)?;
            if let Some(mapping) = mapping {
                res = Some(mapping);
                break;
            }
        }

        if let Some(res) = res {
            let mut cache = self.cache.lock().unwrap();
            cache.insert(file_str.to_string(), res.clone());
            return Ok(Some(res));
        }
""", """        for mapping in &self.mappings {
            if let Some(res) = mapping.apply(file, file_str)? {
                self.cache
                    .lock()
                    .unwrap()
                    .insert(file_str.to_string(), res.clone());
                return Ok(Some(res));
            }
        }
""")
ok("m-map-findmap", """        let mut res = None;
        for mapping in self.mappings.iter() {
            let mapping = mapping.apply(file, file_str)?;
            if let Some(mapping) = mapping {
                res = Some(mapping);
                break;
            }
        }

        if let Some(res) = res {
""", """        let res = self
            .mappings
            .iter()
            .find_map(|mapping| mapping.apply(file, file_str).transpose())
            .transpose()?;

        if let Some(res) = res {
""")
ok("m-map-helper", """        let mut res = None;
        for mapping in self.mappings.iter() {
            let mapping = mapping.apply(file, file_str)?;
            if let Some(mapping) = mapping {
                res = Some(mapping);
                break;
            }
        }

        if let Some(res) = res {
""", """        if let Some(res) = self.first_match(file, file_str)? {
""", """    pub(crate) fn map<P""", """    fn first_match(&self, file: &Path, file_str: &str) -> common::Result<Option<String>> {
        for mapping in self.mappings.iter() {
            let res = mapping.apply(file, file_str)?;
            if res.is_some() {
                return Ok(res);
            }
        }
        Ok(None)
    }

    pub(crate) fn map<P""")
ok("m-map-cached", """        {
            let cache = self.cache.lock().unwrap();
            if let Some(cached) = cache.get(file_str) {
                return Ok(Some(cached.to_string()));
            }
        }
""", """        let cached = self.cache.lock().unwrap().get(file_str).cloned();
        if cached.is_some() {
            return Ok(cached);
        }
""")
ok("m-map-elsebranch", """        if let Some(res) = res {
            let mut cache = self.cache.lock().unwrap();
            cache.insert(file_str.to_string(), res.clone());
            return Ok(Some(res));
        }

        warn!("Cannot find a mapping for file {file_str}");

        Ok(None)
""", """        match &res {
            Some(res) => {
                let mut cache = self.cache.lock().unwrap();
                cache.insert(file_str.to_string(), res.clone());
            }
            None => warn!("Cannot find a mapping for file {file_str}"),
        }

        Ok(res)
""")
ok("m-map-nocache", """        if let Some(res) = res {
            let mut cache = self.cache.lock().unwrap();
            cache.insert(file_str.to_string(), res.clone());
            return Ok(Some(res));
        }
""", """        if let Some(res) = res {
            self.remember(file_str, &res);
            return Ok(Some(res));
        }
""", """    pub(crate) fn map<P""", """    fn remember(&self, file: &str, mapped: &str) {
        let mut cache = self.cache.lock().unwrap();
        cache
            .entry(file.to_string())
            .or_insert_with(|| mapped.to_string());
    }

    pub(crate) fn map<P""")
ok("m-map-letelse", """        let file_str = match file.to_str() {
            Some(f) => f,
            None => {
                warn!(
                    "The path {} is not a valid UTF-8 string so cannot find a mapping for it.",
                    file.to_string_lossy()
                );
                return Ok(None);
            }
        };
""", """        let Some(file_str) = file.to_str() else {
            warn!(
                "The path {} is not a valid UTF-8 string so cannot find a mapping for it.",
                file.display()
            );
            return Ok(None);
        };
""")

ok = mkok("src/cache.rs")
ok("k-job-parse", """        anyhow::ensure!(Url::parse(&url).is_ok(), "Invalid url: {}", url);
        Ok(Self { cache, url })
""", """        if Url::parse(&url).is_err() {
            anyhow::bail!("Invalid url: {}", url);
        }
        Ok(Job { cache, url })
""")
ok("k-correct", """    let home = match home_dir() {
        Some(h) => h,
        _ => return path.to_string(),
    };
    if let Some(stripped_pah) = path.strip_prefix('~') {
        format!("{}{}", home.to_str().unwrap(), stripped_pah)
    } else {
        path.to_string()
    }
""", """    match (path.strip_prefix('~'), home_dir()) {
        (Some(rest), Some(home)) => {
            let mut full = home.to_str().unwrap().to_string();
            full.push_str(rest);
            full
        }
        _ => path.to_owned(),
    }
""")
ok("k-srv-slice", """    let parts: Vec<_> = path.split('*').map(|p| p.trim()).collect();
    if parts.is_empty() || parts[0].to_lowercase() != "srv" {
        return None;
    }
    let server = match parts.len() {
        1 => SymbolServer {
            cache: None,
            server: DEFAULT_STORE.to_string(),
        },
        2 => SymbolServer {
            cache: None,
            server: parts[1].to_string(),
        },
        3 => SymbolServer {
            cache: Some(correct_path(parts[1])),
            server: parts[2].to_string(),
        },
        _ => return None,
    };

    Some(server)
""", """    let parts: Vec<_> = path.split('*').map(str::trim).collect();
    let (cache, server) = match parts.as_slice() {
        [srv, rest @ ..] if srv.to_lowercase() == "srv" => match rest {
            [] => (None, DEFAULT_STORE),
            [server] => (None, *server),
            [cache, server] => (Some(correct_path(cache)), *server),
            _ => return None,
        },
        _ => return None,
    };

    Some(SymbolServer {
        cache,
        server: server.to_string(),
    })
""")
ok("k-sympath", """    path.split([';', '\\n']).filter_map(parse_srv).collect()
""", """    let mut servers = Vec::new();
    for part in path.split(|c| c == ';' || c == '\\n') {
        if let Some(server) = parse_srv(part) {
            servers.push(server);
        }
    }
    servers
""")
ok("k-config-q", """    let home = match home_dir() {
        Some(h) => h,
        _ => return None,
    };

    let conf = home.join(".dump_syms").join("config");
    if !conf.exists() {
        return None;
    }

    let mut file = File::open(&conf)
        .unwrap_or_else(|_| panic!("Unable to open the file {}", conf.to_str().unwrap()));
    let mut buf = Vec::new();
    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", conf.to_str().unwrap()));

    let content = String::from_utf8(buf)
        .unwrap_or_else(|_| panic!("Not utf-8 data in the file {}", conf.to_str().unwrap()));
""", """    let conf = home_dir()?.join(".dump_syms").join("config");
    if !conf.exists() {
        return None;
    }

    let content = fs::read(&conf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", conf.to_str().unwrap()));
    let content = String::from_utf8(content)
        .unwrap_or_else(|_| panic!("Not utf-8 data in the file {}", conf.to_str().unwrap()));
""", "use std::io::{BufWriter, Read, Write};", "use std::io::{BufWriter, Write};")
ok("k-config-then", """    let servers = parse_sympath(s);
    if servers.is_empty() {
        None
    } else {
        Some(servers)
    }
""", """    Some(parse_sympath(s)).filter(|servers| !servers.is_empty())
""")
ok("k-get", """    symbol_server.map_or_else(read_config, read_config_from_str)
""", """    match symbol_server {
        Some(servers) => read_config_from_str(servers),
        None => read_config(),
    }
""")
ok("k-copy-let", """    let path = match path {
        Some(p) => p,
        _ => return true,
    };
""", """    let Some(path) = path else {
        return true;
    };
""")
ok("k-copy-genuine", """    if data.is_empty() || data.starts_with(b"Symbol Not Found") {
        return false;
    }

    let path""", """    if !is_genuine(data) {
        return false;
    }

    let path""", """fn copy_in_cache(""", """fn is_genuine(data: &[u8]) -> bool {
    !data.is_empty() && !data.starts_with(b"Symbol Not Found")
}

fn copy_in_cache(""")
ok("k-copy-mkdir", """    if let Some(parent) = path.parent() {
        if !parent.exists() {
            fs::create_dir_all(parent).unwrap_or_else(|_| {
                panic!(
                    "Unable to create cache directory {}",
                    parent.to_str().unwrap()
                )
            });
        }
    }
""", """    if let Some(parent) = path.parent() {
        if fs::create_dir_all(parent).is_err() {
            panic!(
                "Unable to create cache directory {}",
                parent.to_str().unwrap()
            );
        }
    }
""")
ok("k-copy-steps", """    output
        .write_all(data)
        .and_then(|_| output.flush())
        .and_then(|_| fs::rename(&tmp, &path))
        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));

    true
""", """    let failed = || -> ! { panic!("Cannot write file {}", path.to_str().unwrap()) };
    if output.write_all(data).is_err() {
        failed();
    }
    if output.flush().is_err() {
        failed();
    }
    if fs::rename(&tmp, &path).is_err() {
        failed();
    }

    true
""")
ok("k-copy-write", """    let output = File::create(&tmp)
        .unwrap_or_else(|_| panic!("Cannot open file {} for writing", tmp.to_str().unwrap()));
    let mut output = BufWriter::new(output);
    output
        .write_all(data)
        .and_then(|_| output.flush())
        .and_then(|_| fs::rename(&tmp, &path))
        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
""", """    fs::write(&tmp, data)
        .and_then(|()| fs::rename(&tmp, &path))
        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
""", "use std::io::{BufWriter, Read, Write};", "use std::io::Read;")
ok("k-copy-expect", """    output
        .write_all(data)
        .and_then(|_| output.flush())
        .and_then(|_| fs::rename(&tmp, &path))
        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
""", """    let written: std::io::Result<()> = (|| {
        output.write_all(data)?;
        output.flush()?;
        fs::rename(&tmp, &path)
    })();
    if written.is_err() {
        panic!("Cannot write file {}", path.to_str().unwrap());
    }
""")
ok("k-search-find", """    for cache in servers.iter().filter_map(|x| x.cache.as_ref()) {
        let path = PathBuf::from(cache).join(base).join(id).join(file_name);
        if path.exists() {
            return Some(path);
        }
    }
    None
""", """    servers
        .iter()
        .filter_map(|server| server.cache.as_deref())
        .map(|cache| Path::new(cache).join(base).join(id).join(file_name))
        .find(|path| path.exists())
""")
ok("k-search-loop", """    for cache in servers.iter().filter_map(|x| x.cache.as_ref()) {
        let path = PathBuf::from(cache).join(base).join(id).join(file_name);
        if path.exists() {
            return Some(path);
        }
    }
    None
""", """    for server in servers {
        if let Some(cache) = &server.cache {
            let mut path = PathBuf::from(cache);
            path.push(base);
            path.push(id);
            path.push(file_name);
            if path.exists() {
                return Some(path);
            }
        }
    }
    None
""")
ok("k-jobs-helper", """        let path = server
            .cache
            .as_ref()
            .map(|cache| PathBuf::from(cache).join(base).join(id).join(file_name));
        let job = Job::new(
            path.clone(),
            format!("{}/{}/{}/{}", server.server, file_name, id, file_name),
        )
        .unwrap_or_else(|e| panic!("{}", e));
        jobs.push(job);
        if !file_name.ends_with('_') {
            let mut compressed = file_name.to_string();
            compressed.pop();
            let job = Job::new(
                path,
                format!("{}/{}/{}/{}_", server.server, file_name, id, compressed),
            )
            .unwrap_or_else(|e| panic!("{}", e));
            jobs.push(job);
        }
""", """        let path = server
            .cache
            .as_ref()
            .map(|cache| cache_path(cache, id, base, file_name));
        let url = format!("{}/{}/{}", server.server, file_name, id);
        let new_job = |name: &str| {
            Job::new(path.clone(), format!("{url}/{name}")).unwrap_or_else(|e| panic!("{}", e))
        };
        jobs.push(new_job(file_name));
        if !file_name.ends_with('_') {
            let mut compressed = file_name.to_string();
            compressed.pop();
            compressed.push('_');
            jobs.push(new_job(&compressed));
        }
""", """        let path = PathBuf::from(cache).join(base).join(id).join(file_name);
        if path.exists() {
""", """        let path = cache_path(cache, id, base, file_name);
        if path.exists() {
""", """fn search_in_cache(""", """fn cache_path(cache: &str, id: &str, base: &Path, file_name: &str) -> PathBuf {
    PathBuf::from(cache).join(base).join(id).join(file_name)
}

fn search_in_cache(""")
ok("k-fetch-let", """    if let Some(job) = check_data(jobs) {
        let mut buf = Vec::new();
        let client = blocking::Client::new();
        let resp = client
            .get(&job.url)
            .header(USER_AGENT, DEFAULT_USER_AGENT)
            .send()
            .and_then(|resp| resp.error_for_status());
        if let Ok(mut resp) = resp {
            if resp.copy_to(&mut buf).is_err() {
                None
            } else if copy_in_cache(job.cache, &buf) {
                Some(buf)
            } else {
                None
            }
        } else {
            None
        }
    } else {
        None
    }
""", """    let job = check_data(jobs)?;
    let mut resp = blocking::Client::new()
        .get(&job.url)
        .header(USER_AGENT, DEFAULT_USER_AGENT)
        .send()
        .ok()?
        .error_for_status()
        .ok()?;

    let mut buf = Vec::new();
    resp.copy_to(&mut buf).ok()?;
    copy_in_cache(job.cache, &buf).then_some(buf)
""")
ok("k-fetch-bytes", """        let mut buf = Vec::new();
        let client = blocking::Client::new();
        let resp = client
            .get(&job.url)
            .header(USER_AGENT, DEFAULT_USER_AGENT)
            .send()
            .and_then(|resp| resp.error_for_status());
        if let Ok(mut resp) = resp {
            if resp.copy_to(&mut buf).is_err() {
                None
            } else if copy_in_cache(job.cache, &buf) {
                Some(buf)
            } else {
                None
            }
        } else {
            None
        }
""", """        let client = blocking::Client::new();
        let data = client
            .get(&job.url)
            .header(USER_AGENT, DEFAULT_USER_AGENT)
            .send()
            .and_then(|resp| resp.error_for_status())
            .and_then(|resp| resp.bytes());
        match data {
            Ok(data) if copy_in_cache(job.cache, &data) => Some(data.to_vec()),
            _ => None,
        }
""")
ok("k-fetch-status", """            .send()
            .and_then(|resp| resp.error_for_status());
        if let Ok(mut resp) = resp {
            if resp.copy_to(&mut buf).is_err() {
                None
            } else if""", """            .send();
        if let Ok(mut resp) = resp {
            if resp.status().is_client_error() || resp.status().is_server_error() {
                return None;
            }
            if resp.copy_to(&mut buf).is_err() {
                None
            } else if""")
ok("k-exists-early", """    if let Ok(res) = client
        .head(&job.url)
        .header(USER_AGENT, DEFAULT_USER_AGENT)
        .send()
        .await
    {
        if res.status() == 200 {
            let mut results = results.lock().unwrap();
            results.push(job);
        }
    }
""", """    let request = client
        .head(&job.url)
        .header(USER_AGENT, DEFAULT_USER_AGENT);
    match request.send().await {
        Ok(res) if res.status() == 200 => results.lock().unwrap().push(job),
        _ => {}
    }
""")
ok("k-check-first", """    let results = Arc::try_unwrap(results).unwrap().into_inner().unwrap();
    results.first().cloned()
""", """    let results = Arc::try_unwrap(results).unwrap().into_inner().unwrap();
    results.into_iter().next()
""")
ok("k-search-guard", """    if file_name.is_empty() {
        return (None, file_name);
    }

    let servers = match sym_servers {
        Some(s) => s,
        _ => return (None, file_name),
    };
""", """    let servers = match sym_servers {
        Some(servers) if !file_name.is_empty() => servers,
        _ => return (None, file_name),
    };
""")
ok("k-search-map", """    let jobs = get_jobs(servers, id, &base, &file_name);
    let buf = fetch_data(jobs);

    if let Some(buf) = buf {
        let path = PathBuf::from(&file_name);
        let buf = utils::read_cabinet(buf, path)
            .unwrap_or_else(|| panic!("Unable to read the file {} from the server", file_name));
        (Some(buf), file_name)
    } else {
        (None, file_name)
    }
""", """    let jobs = get_jobs(servers, id, &base, &file_name);
    let data = fetch_data(jobs).map(|buf| {
        utils::read_cabinet(buf, PathBuf::from(&file_name))
            .unwrap_or_else(|| panic!("Unable to read the file {} from the server", file_name))
    });
    (data, file_name)
""")

ok = mkok("src/utils.rs")
ok("u-read-helper", """    read_cabinet(buf, path.clone())
        .unwrap_or_else(|| panic!("Unable to read the cabinet file {}", path.to_str().unwrap()))
""", """    match read_cabinet(buf, path.clone()) {
        Some(data) => data,
        None => panic!("Unable to read the cabinet file {}", path.to_str().unwrap()),
    }
""")
ok("u-read-fs", """    let file_size = metadata.len() as usize;
    let mut file = File::open(&path)
        .unwrap_or_else(|_| panic!("Unable to open the file {}", path.to_str().unwrap()));

    let mut buf = Vec::with_capacity(file_size + 1);
    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));

    read_cabinet""", """    let buf = fs::read(&path)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));

    read_cabinet""", """    let (metadata, path) = get_mac_bundle(&metadata, &path)
        .unwrap_or_else(|| (metadata, PathBuf::from(path.as_ref())));
""", """    let path = match get_mac_bundle(&metadata, &path) {
        Some((_, path)) => path,
        None => path.as_ref().to_path_buf(),
    };
""")
ok("u-base-map", """    let mut path = PathBuf::from(file_name);
    if let Some(e) = path.extension() {
        let e = e.to_str().unwrap().to_lowercase();
        match e.as_str() {
            "pd_" => {
                path.set_extension("pdb");
            }
            "ex_" => {
                path.set_extension("exe");
            }
            "dl_" => {
                path.set_extension("dll");
            }
            _ => {}
        }

        path
    } else {
        path
    }
""", """    let path = PathBuf::from(file_name);
    let ext = match path.extension() {
        Some(e) => e.to_str().unwrap().to_lowercase(),
        None => return path,
    };
    match ext.as_str() {
        "pd_" => path.with_extension("pdb"),
        "ex_" => path.with_extension("exe"),
        "dl_" => path.with_extension("dll"),
        _ => path,
    }
""")
ok("u-base-table", """        let e = e.to_str().unwrap().to_lowercase();
        match e.as_str() {
            "pd_" => {
                path.set_extension("pdb");
            }
            "ex_" => {
                path.set_extension("exe");
            }
            "dl_" => {
                path.set_extension("dll");
            }
            _ => {}
        }
""", """        let full = match e.to_str().unwrap().to_lowercase().as_str() {
            "pd_" => Some("pdb"),
            "ex_" => Some("exe"),
            "dl_" => Some("dll"),
            _ => None,
        };
        if let Some(full) = full {
            path.set_extension(full);
        }
""")
ok("u-sym-join", """    let mut pb = get_base(file_name);

    pb.push(id);

    let sym_filename = match file_name.rsplit_once('.') {
        Some((basename, ext)) if ext.to_lowercase() == "pdb" => format!("{basename}.sym"),
        _ => format!("{file_name}.sym"),
    };
    pb.push(sym_filename);

    pb
""", """    let stem = match file_name.rsplit_once('.') {
        Some((basename, ext)) if ext.to_lowercase() == "pdb" => basename,
        _ => file_name,
    };

    get_base(file_name).join(id).join(format!("{stem}.sym"))
""")
ok("u-sym-strip", """    let sym_filename = match file_name.rsplit_once('.') {
        Some((basename, ext)) if ext.to_lowercase() == "pdb" => format!("{basename}.sym"),
        _ => format!("{file_name}.sym"),
    };
""", """    let mut sym_filename = file_name.to_string();
    if let Some((basename, ext)) = file_name.rsplit_once('.') {
        if ext.to_lowercase() == "pdb" {
            sym_filename = basename.to_string();
        }
    }
    sym_filename.push_str(".sym");
""")
ok("u-cab-q", """    let (file, size) = match get_cabinet_files(&cab, path) {
        Some(file) => file,
        _ => return None,
    };

    let mut buf = Vec::with_capacity(size + 1);
    let mut reader = match cab.read_file(&file) {
        Ok(reader) => reader,
        _ => return None,
    };

    if reader.read_to_end(&mut buf).is_err() {
        None
    } else {
        Some(buf)
    }
""", """    let (file, size) = get_cabinet_files(&cab, path)?;

    let mut data = Vec::with_capacity(size + 1);
    let mut reader = cab.read_file(&file).ok()?;
    reader.read_to_end(&mut data).ok()?;

    Some(data)
""")
ok("u-cab-find", """    for folder in cab.folder_entries() {
        for file in folder.file_entries() {
            let file_size = file.uncompressed_size() as usize;
            let path = PathBuf::from(file.name());
            if path.file_name() == Some(file_name) {
                return Some((file.name().to_string(), file_size));
            }
        }
    }
    None
""", """    cab.folder_entries()
        .flat_map(|folder| folder.file_entries())
        .find(|file| Path::new(file.name()).file_name() == Some(file_name))
        .map(|file| (file.name().to_string(), file.uncompressed_size() as usize))
""")
ok("u-cab-corr", """    if e.starts_with("pd") {
        path.with_extension("pdb")
    } else if e.starts_with("dl") {
        path.with_extension("dll")
    } else if e.starts_with("ex") {
        path.with_extension("exe")
    } else if e.starts_with("db") {
        path.with_extension("dbg")
    } else {
        path
    }
""", """    for ext in ["pdb", "dll", "exe", "dbg"] {
        if e.starts_with(&ext[..2]) {
            return path.with_extension(ext);
        }
    }
    path
""")
ok("u-norm-match", """    let mut ret = if let Some(c @ Component::Prefix(..)) = components.peek().cloned() {
        components.next();
        PathBuf::from(c.as_os_str())
    } else {
        PathBuf::new()
    };

    for component in components {
        match component {
            Component::Prefix(..) => unreachable!(),
            Component::RootDir => {
                ret.push(component.as_os_str());
            }
            Component::CurDir => {}
            Component::ParentDir => {
                ret.pop();
            }
            Component::Normal(c) => {
                ret.push(c);
            }
        }
    }
    ret
""", """    let mut ret = match components.peek() {
        Some(c @ Component::Prefix(..)) => {
            let prefix = PathBuf::from(c.as_os_str());
            components.next();
            prefix
        }
        _ => PathBuf::new(),
    };

    for component in components {
        match component {
            Component::Prefix(..) => unreachable!(),
            Component::CurDir => continue,
            Component::ParentDir => {
                ret.pop();
            }
            Component::RootDir | Component::Normal(_) => ret.push(component.as_os_str()),
        }
    }
    ret
""")
ok("u-filename", """    path.file_name().unwrap().to_str().unwrap().to_string()
""", """    let name = path.file_name().and_then(|name| name.to_str());
    name.unwrap().to_owned()
""")
ok("u-read", """    let file_size = fs::metadata(&path)?.len() as usize;
    let mut file = File::open(&path)
        .with_context(|| format!("Unable to open the file {}", path.as_ref().display()))?;

    let mut buf = Vec::with_capacity(file_size + 1);
    file.read_to_end(&mut buf)
        .with_context(|| format!("Unable to read the file {}", path.as_ref().display()))?;

    Ok(buf)
""", """    fs::read(&path)
        .with_context(|| format!("Unable to read the file {}", path.as_ref().display()))
""")
ok("u-bundle", """    if metadata.is_dir() {
        // We may""", """    if !metadata.is_dir() {
        return None;
    }
    {
        // We may""", """                path.as_ref().to_str().unwrap()
            )
        }
    } else {
        None
    }
}""", """                path.as_ref().to_str().unwrap()
            )
        }
    }
}""")

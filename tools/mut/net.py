CA="src/cache.rs"; WU="src/windows/utils.rs"; DU="src/dumper.rs"; UT="src/utils.rs"
TMP='''    static COUNTER: AtomicUsize = AtomicUsize::new(0);
    let tmp = path.with_extension(format!(
        "{}-{}.tmp",
        std::process::id(),
        COUNTER.fetch_add(1, Ordering::Relaxed)
    ));
'''
WRITE='''    let mut output = BufWriter::new(output);
    output
        .write_all(data)
        .and_then(|_| output.flush())
        .and_then(|_| fs::rename(&tmp, &path))
        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
'''
SEARCH='''    for cache in servers.iter().filter_map(|x| x.cache.as_ref()) {
        let path = PathBuf::from(cache).join(base).join(id).join(file_name);
        if path.exists() {
            return Some(path);
        }
    }
    None
'''
FETCH='''        let resp = client
            .get(&job.url)
            .header(USER_AGENT, DEFAULT_USER_AGENT)
            .send()
            .and_then(|resp| resp.error_for_status());
        if let Ok(mut resp) = resp {
            if resp.copy_to(&mut buf).is_err() {
                None
            } else if copy_in_cache(job.cache, &buf) {
                Some(buf)
            } else {
                None
            }
        } else {
            None
        }
'''
V=[
 ("cache-first-only","C13","bad",CA,SEARCH,'''    let cache = servers.iter().filter_map(|x| x.cache.as_ref()).next()?;
    let path = PathBuf::from(cache).join(base).join(id).join(file_name);
    path.exists().then_some(path)
'''),
 ("cache-take1","C13","bad",CA,"servers.iter().filter_map(|x| x.cache.as_ref())","servers.iter().take(1).filter_map(|x| x.cache.as_ref())"),
 ("cache-skip-local","C13","bad",CA,"filter_map(|x| x.cache.as_ref())","filter(|x| x.server.starts_with(\"http\")).filter_map(|x| x.cache.as_ref())"),
 ("cache-id-case","C13 C14","bad",CA,"let path = PathBuf::from(cache).join(base).join(id).join(file_name);\n        if","let path = PathBuf::from(cache).join(base).join(id.to_lowercase()).join(file_name);\n        if"),
 ("cache-store-base","C14","bad",CA,".map(|cache| PathBuf::from(cache).join(base).join(id).join(file_name));",".map(|cache| PathBuf::from(cache).join(file_name).join(id).join(file_name));"),
 ("cache-store-name","C14","bad",CA,".map(|cache| PathBuf::from(cache).join(base).join(id).join(file_name));",".map(|cache| PathBuf::from(cache).join(base).join(id).join(base));"),
 ("cache-after","C13","bad",CA,'''    // Start with the caches
    if let Some(path) = search_in_cache(servers, id, &base, &file_name) {
        return (Some(utils::read_file(path)), file_name);
    }
''','',CA,'''        (Some(buf), file_name)
    } else {
        (None, file_name)
''','''        (Some(buf), file_name)
    } else if let Some(path) = search_in_cache(servers, id, &base, &file_name) {
        (Some(utils::read_file(path)), file_name)
    } else {
        (None, file_name)
'''),
 ("default-server","C13","bad",CA,'''    let servers = match sym_servers {
        Some(s) => s,
        _ => return (None, file_name),
    };
''','''    let default = vec![SymbolServer { cache: None, server: DEFAULT_STORE.to_string() }];
    let servers = match sym_servers {
        Some(s) => s,
        _ => &default,
    };
'''),
 ("default-conf","C13","bad",CA,'''    if servers.is_empty() {
        None
    } else {''','''    if servers.is_empty() {
        Some(vec![SymbolServer { cache: None, server: DEFAULT_STORE.to_string() }])
    } else {'''),
 ("srv2-cache","C13","bad",CA,'''        2 => SymbolServer {
            cache: None,
            server: parts[1].to_string(),
        },''','''        2 => SymbolServer {
            cache: Some(correct_path(parts[1])),
            server: DEFAULT_STORE.to_string(),
        },'''),
 ("srv3-swap","C13","bad",CA,'''            cache: Some(correct_path(parts[1])),
            server: parts[2].to_string(),''','''            cache: Some(correct_path(parts[2])),
            server: parts[1].to_string(),'''),
 ("conf-merge","C13","bad",CA,"    symbol_server.map_or_else(read_config, read_config_from_str)","    read_config().or_else(|| symbol_server.and_then(read_config_from_str))"),
 ("url-upstream","C13","bad",CA,'''        if !file_name.ends_with('_') {
            let mut compressed''','''        jobs.push(Job::new(path.clone(), format!("{}/{}/{}/{}", DEFAULT_STORE, file_name, id, file_name)).unwrap_or_else(|e| panic!("{}", e)));
        if !file_name.ends_with('_') {
            let mut compressed'''),
 ("url-id","C13","bad",CA,'format!("{}/{}/{}/{}", server.server, file_name, id, file_name)','format!("{}/{}/{}", server.server, id, file_name)'),
 ("pdb-server-first","C13","bad",WU,'''        let pdb = pdb
            .filter(''','''        let pdb = if symbol_server.is_some() { None } else { pdb };
        let pdb = pdb
            .filter('''),
 ("pdb-nocwd","C13","bad",WU,'''    // We try in CWD
    let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
    pdb.push(pdb_filename);
    if pdb.is_file() {
        Some(utils::read_file(pdb))
    } else {
        None
    }''','''    None'''),
 ("pdb-nocab","C13","bad",WU,"for pdb in vec![pdb, pdb_cab].into_iter() {","for pdb in vec![pdb, pdb_cab].into_iter().take(1) {"),
 ("pdb-other-id","C13","bad",WU,"let debug_id = pe.debug_id().breakpad().to_string();","let debug_id = pe.code_id().map(|c| c.to_string()).unwrap_or_default();"),
 ("byid-always","C13","bad",DU,"if let Some(id) = config.debug_id.or(config.code_id) {",'if let Some(id) = config.debug_id.or(config.code_id).or(config.symbol_server.map(|_| "0")) {'),
 ("byid-unread","C13","bad",DU,"        let symbol_server = crate::cache::get_sym_servers(config.symbol_server);\n        let (buf","        let symbol_server = crate::cache::get_sym_servers(None);\n        let (buf"),
 ("pe-servers","C13","bad",DU,"    let symbol_server = crate::cache::get_sym_servers(symbol_server);\n    let res","    let symbol_server = crate::cache::get_sym_servers(Some(symbol_server.unwrap_or(\"srv\")));\n    let res"),
 ("extra-net","C13","bad",WU,"    let pe = PeObject::parse(buf)\n        .unwrap_or_else(|_| panic!(\"Unable to parse the PE","    if let Ok(r) = reqwest::blocking::get(\"https://example.org/version\") { log::info!(\"{}\", r.status()); }\n    let pe = PeObject::parse(buf)\n        .unwrap_or_else(|_| panic!(\"Unable to parse the PE"),
 # C14
 ("direct","C14","bad",CA,"File::create(&tmp)","File::create(&path)",CA,".and_then(|_| fs::rename(&tmp, &path))",""),
 ("pid-only","C14","bad",CA,'"{}-{}.tmp"','"{}.tmp"',CA,",\n        COUNTER.fetch_add(1, Ordering::Relaxed)",""),
 ("tmp-fixed","C14","bad",CA,'format!(\n        "{}-{}.tmp",\n        std::process::id(),\n        COUNTER.fetch_add(1, Ordering::Relaxed)\n    )','{ COUNTER.fetch_add(1, Ordering::Relaxed); "tmp" }'),
 ("noflush","C14","bad",CA,"        .and_then(|_| output.flush())\n",""),
 ("flush-after","C14","bad",CA,"        .and_then(|_| output.flush())\n        .and_then(|_| fs::rename(&tmp, &path))\n","        .and_then(|_| fs::rename(&tmp, &path))\n        .and_then(|_| output.flush())\n"),
 ("ignore-write","C14","bad",CA,"        .and_then(|_| output.flush())\n","        .or_else(|_| output.flush())\n"),
 ("ignore-write2","C14","bad",CA,WRITE,'''    let mut output = BufWriter::new(output);
    let _ = output.write_all(data);
    output.flush().and_then(|_| fs::rename(&tmp, &path))
        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
'''),
 ("copy","C14","bad",CA,"fs::rename(&tmp, &path)","fs::copy(&tmp, &path).map(|_| ())"),
 ("empty","C14","bad",CA,"data.is_empty() || data.starts_with","data.starts_with"),
 ("notfound","C14","bad",CA,'if data.is_empty() || data.starts_with(b"Symbol Not Found") {','if data.is_empty() {'),
 ("notfound2","C14","bad",CA,'data.starts_with(b"Symbol Not Found")','data == b"Symbol Not Found"'),
 ("notfound-late","C14","bad",CA,'''    if data.is_empty() || data.starts_with(b"Symbol Not Found") {
        return false;
    }
''','',CA,'''    true
}

fn search_in_cache''','''    !(data.is_empty() || data.starts_with(b"Symbol Not Found"))
}

fn search_in_cache'''),
 ("status","C14","bad",CA,"            .send()\n            .and_then(|resp| resp.error_for_status());","            .send();"),
 ("status-srv","C14","bad",CA,".and_then(|resp| resp.error_for_status());",".and_then(|resp| if resp.status().is_server_error() { resp.error_for_status() } else { Ok(resp) });"),
 ("partial","C14","bad",CA,'''            if resp.copy_to(&mut buf).is_err() {
                None
            } else if copy''','''            if resp.copy_to(&mut buf).is_err() && buf.is_empty() {
                None
            } else if copy'''),
 ("ret-anyway","C14","bad",CA,'''            } else if copy_in_cache(job.cache, &buf) {
                Some(buf)
            } else {
                None
            }''','''            } else {
                copy_in_cache(job.cache, &buf);
                Some(buf)
            }'''),
 ("retry-cache","C14","bad",CA,"            } else if copy_in_cache(job.cache, &buf) {","            } else if copy_in_cache(job.cache.map(|p| p.with_file_name(\"file\")), &buf) {"),
 ("stage-dir","C14","bad",CA,"        if path.exists() {\n            return Some(path);\n        }","        if path.exists() {\n            return Some(path);\n        }\n        let flat = PathBuf::from(cache).join(file_name);\n        if flat.exists() {\n            return Some(flat);\n        }"),
 # refactorings
 ("r-search-if","C13 C14","ok",CA,SEARCH,'''    for server in servers {
        if let Some(cache) = &server.cache {
            let mut path = PathBuf::from(cache);
            path.push(base);
            path.push(id);
            path.push(file_name);
            if path.exists() {
                return Some(path);
            }
        }
    }
    None
'''),
 ("r-search-find","C13 C14","ok",CA,SEARCH,'''    servers
        .iter()
        .filter_map(|x| x.cache.as_ref())
        .map(|cache| PathBuf::from(cache).join(base).join(id).join(file_name))
        .find(|path| path.exists())
'''),
 ("r-search-findmap","C13 C14","ok",CA,SEARCH,'''    servers.iter().find_map(|server| {
        let path = cache_path(server, id, base, file_name)?;
        path.exists().then_some(path)
    })
''',CA,'''        let path = server
            .cache
            .as_ref()
            .map(|cache| PathBuf::from(cache).join(base).join(id).join(file_name));
''','''        let path = cache_path(server, id, base, file_name);
''',CA,'''fn search_in_cache(''','''fn cache_path(server: &SymbolServer, id: &str, base: &Path, file_name: &str) -> Option<PathBuf> {
    let cache = server.cache.as_ref()?;
    Some(PathBuf::from(cache).join(base).join(id).join(file_name))
}

fn search_in_cache('''),
 ("r-jobs-iter","C13 C14","ok",CA,"    for server in servers.iter() {\n        let path","    servers.iter().for_each(|server| {\n        let path",CA,'''            jobs.push(job);
        }
    }

    jobs''','''            jobs.push(job);
        }
    });

    jobs'''),
 ("r-jobs-url","C13 C14","ok",CA,'''        let job = Job::new(
            path.clone(),
            format!("{}/{}/{}/{}", server.server, file_name, id, file_name),
        )''','''        let dir = format!("{}/{}/{}", server.server, file_name, id);
        let job = Job::new(path.clone(), format!("{dir}/{file_name}"))'''),
 ("r-compressed","C13 C14","ok",CA,'''            let mut compressed = file_name.to_string();
            compressed.pop();
''','''            let mut chars = file_name.chars();
            chars.next_back();
            let compressed = chars.as_str();
'''),
 ("r-write-q","C13 C14","ok",CA,WRITE,'''    let write = || -> std::io::Result<()> {
        let mut output = BufWriter::new(&output);
        output.write_all(data)?;
        output.flush()?;
        fs::rename(&tmp, &path)
    };
    write().unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
'''),
 ("r-write-file","C13 C14","ok",CA,WRITE,'''    let mut output = output;
    if output.write_all(data).and_then(|_| output.sync_all()).is_err() {
        panic!("Cannot write file {}", path.to_str().unwrap());
    }
    drop(output);
    fs::rename(&tmp, &path)
        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
'''),
 ("r-guard","C13 C14","ok",CA,'''    if data.is_empty() || data.starts_with(b"Symbol Not Found") {
        return false;
    }
''','''    if !is_genuine(data) {
        return false;
    }
''',CA,"fn copy_in_cache(","fn is_genuine(data: &[u8]) -> bool {\n    !data.is_empty() && !data.starts_with(b\"Symbol Not Found\")\n}\n\nfn copy_in_cache("),
 ("r-fetch-q","C13 C14","ok",CA,"    if let Some(job) = check_data(jobs) {\n        let mut buf = Vec::new();","    let job = check_data(jobs)?;\n    {\n        let mut buf = Vec::new();",CA,FETCH+'''    } else {
        None
    }
''','''        let resp = client
            .get(&job.url)
            .header(USER_AGENT, DEFAULT_USER_AGENT)
            .send()
            .ok()?;
        let mut resp = resp.error_for_status().ok()?;
        resp.copy_to(&mut buf).ok()?;
        copy_in_cache(job.cache, &buf).then_some(buf)
    }
'''),
 ("r-search-match","C13 C14","ok",CA,'''    if let Some(buf) = buf {
        let path = PathBuf::from(&file_name);
        let buf = utils::read_cabinet(buf, path)
            .unwrap_or_else(|| panic!("Unable to read the file {} from the server", file_name));
        (Some(buf), file_name)
    } else {
        (None, file_name)
    }
''','''    let buf = buf.map(|buf| {
        utils::read_cabinet(buf, PathBuf::from(&file_name))
            .unwrap_or_else(|| panic!("Unable to read the file {} from the server", file_name))
    });
    (buf, file_name)
'''),
 ("r-servers-letelse","C13 C14","ok",CA,'''    let servers = match sym_servers {
        Some(s) => s,
        _ => return (None, file_name),
    };
''','''    let Some(servers) = sym_servers else {
        return (None, file_name);
    };
'''),
 ("r-getsym","C13","ok",CA,"    symbol_server.map_or_else(read_config, read_config_from_str)",'''    match symbol_server {
        Some(s) => read_config_from_str(s),
        None => read_config(),
    }'''),
 ("r-parse","C13","ok",CA,'''    let parts: Vec<_> = path.split('*').map(|p| p.trim()).collect();
    if parts.is_empty() || parts[0].to_lowercase() != "srv" {
        return None;
    }
    let server = match parts.len() {
        1 => SymbolServer {
            cache: None,
            server: DEFAULT_STORE.to_string(),
        },
        2 => SymbolServer {
            cache: None,
            server: parts[1].to_string(),
        },
        3 => SymbolServer {
            cache: Some(correct_path(parts[1])),
            server: parts[2].to_string(),
        },
        _ => return None,
    };

    Some(server)''','''    let parts: Vec<_> = path.split('*').map(|p| p.trim()).collect();
    if parts.is_empty() || parts[0].to_lowercase() != "srv" {
        return None;
    }
    let (cache, server) = match parts.len() {
        1 => (None, DEFAULT_STORE.to_string()),
        2 => (None, parts[1].to_string()),
        3 => (Some(correct_path(parts[1])), parts[2].to_string()),
        _ => return None,
    };

    Some(SymbolServer { cache, server })'''),
 ("r-parse-slice","C13","ok",CA,'''    if parts.is_empty() || parts[0].to_lowercase() != "srv" {
        return None;
    }
    let server = match parts.len() {
        1 => SymbolServer {
            cache: None,
            server: DEFAULT_STORE.to_string(),
        },
        2 => SymbolServer {
            cache: None,
            server: parts[1].to_string(),
        },
        3 => SymbolServer {
            cache: Some(correct_path(parts[1])),
            server: parts[2].to_string(),
        },
        _ => return None,
    };
''','''    if parts.is_empty() || parts[0].to_lowercase() != "srv" {
        return None;
    }
    let server = match &parts[1..] {
        [] => SymbolServer {
            cache: None,
            server: DEFAULT_STORE.to_string(),
        },
        [server] => SymbolServer {
            cache: None,
            server: server.to_string(),
        },
        [cache, server] => SymbolServer {
            cache: Some(correct_path(cache)),
            server: server.to_string(),
        },
        _ => return None,
    };
'''),
 ("r-pdb-find","C13","ok",WU,'''    for pdb in vec![pdb, pdb_cab].into_iter() {
        if pdb.is_file() {
            return Some(utils::read_file(pdb));
        }
    }
''','''    if let Some(pdb) = [pdb, pdb_cab].into_iter().find(|pdb| pdb.is_file()) {
        return Some(utils::read_file(pdb));
    }
'''),
 ("r-pdb-if","C13","ok",WU,'''    for pdb in vec![pdb, pdb_cab].into_iter() {
        if pdb.is_file() {
            return Some(utils::read_file(pdb));
        }
    }
''','''    if pdb.is_file() {
        return Some(utils::read_file(pdb));
    }
    if pdb_cab.is_file() {
        return Some(utils::read_file(pdb_cab));
    }
'''),
 ("r-pdb-guard","C13","ok",WU,'''        if pdb_name.is_empty() {
            log::warn!("Invalid pdb filename in PE file: \\"{pdb_filename}\\"");
            None
        } else if let Some(pdb_buf) = pdb {
            Some((pe, pdb_buf, pdb_name))
        } else {
            // Not here so try symbol server (or cache)
            let debug_id = pe.debug_id().breakpad().to_string();
            let (pdb, pdb_name) = cache::search_file(pdb_name, &debug_id, symbol_server);
            pdb.map(|pdb_buf| (pe, pdb_buf, pdb_name))
        }
''','''        if pdb_name.is_empty() {
            log::warn!("Invalid pdb filename in PE file: \\"{pdb_filename}\\"");
            return None;
        }
        let (pdb, pdb_name) = match pdb {
            Some(pdb) => (Some(pdb), pdb_name),
            None => cache::search_file(pdb_name, &pe.debug_id().breakpad().to_string(), symbol_server),
        };
        Some((pe, pdb?, pdb_name))
'''),
 ("r-byid-match","C13","ok",DU,'''    if let Some(id) = config.debug_id.or(config.code_id) {
        let symbol_server = crate::cache::get_sym_servers(config.symbol_server);
        let (buf, filename) = crate::cache::search_file(filename, id, symbol_server.as_ref());
        return if let Some(buf) = buf {
            Ok((buf, filename))
        } else {
            anyhow::bail!("Impossible to get file {} with id {}", filename, id)
        };
    }

    Ok((utils::read_file(path), filename))''','''    let id = match (config.debug_id, config.code_id) {
        (Some(id), _) => id,
        (None, Some(id)) => id,
        (None, None) => return Ok((utils::read_file(path), filename)),
    };
    let servers = crate::cache::get_sym_servers(config.symbol_server);
    match crate::cache::search_file(filename, id, servers.as_ref()) {
        (Some(buf), filename) => Ok((buf, filename)),
        (None, filename) => anyhow::bail!("Impossible to get file {} with id {}", filename, id),
    }'''),
]

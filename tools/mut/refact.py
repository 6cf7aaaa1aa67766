"""Refactorings of every file, written to look like what a maintainer would do: all the checks must stay quiet (cross.py)."""
D = "src/dumper.rs"
ALL = "C01"
WORKER = '''                let poison_sender = sender.clone();
                let res = panic::catch_unwind(AssertUnwindSafe(|| {
                    consumer(
                        arch,
                        sender,
                        receiver,
                        results,
                        counter,
                        num_jobs,
                        output,
                        check_cfi,
                        symbol_server,
                    )
                }));
                if !matches!(res, Ok(Ok(()))) {
                    // The job of this worker isn't done and won't be: release the other ones.
                    poison_queue(&poison_sender, num_jobs);
                }
                res.unwrap_or_else(|e| panic::resume_unwind(e))
'''
GET = '''                let path = PathBuf::from(file);
                let filename = utils::get_filename(&path);
                let buf = utils::read_file(&path);

                let info = get_object_info(
                    buf,
                    &path,
                    &filename,
                    mapping,
                    arch,
                    symbol_server.as_deref(),
                    collect_inlines,
                )?;

                // Without a debug id nothing says that two files belong to the same module
                let key = if info.has_debug_id() {
                    info.get_debug_id().to_string()
                } else {
                    path.to_string_lossy().to_string()
                };
'''
MERGE = '''                let mut results = results.lock().unwrap();
                let info = if let Some(prev) = results.remove(&key) {
                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
                        poison_queue(&sender, num_threads);
                    })?
                } else {
                    info
                };
                results.insert(key, info);
'''
HEAD = '''    while let Ok(job) = receiver.recv() {
        if job.is_none() {
            return Ok(());
        }

        let JobItem {
            file,
            typ,
            mapping,
            collect_inlines,
        } = job.unwrap();
'''
DUMPARM = '''            JobType::Dump(d) => {
                self::store(&output, check_cfi, d)?;
                continue;
            }
        }
'''
CNT = '''        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
            // it was the last file: so we just have to add jobs to dump & store
            // and then poison the queue
            let mut results = results.lock().unwrap();
            send_store_jobs(
                &sender,
                &mut results,
                num_threads,
                output.clone(),
                check_cfi,
                collect_inlines,
            )?;
        }
'''
SEND = '''    if results.len() == 1 {
        let (_, d) = results.drain().take(1).next().unwrap();
        self::store(&output, check_cfi, d)?;
    } else {
        for (_, d) in results.drain() {
            sender
                .send(Some(JobItem {
                    file: "".to_string(),
                    typ: JobType::Dump(d),
                    mapping: None,
                    collect_inlines,
                }))
                .unwrap();
        }
    }
'''
STORE = '''    if let Some(store) = store {
        fs::create_dir_all(store.parent().unwrap())?;

        let fo = FileOutput::Path(store);
        let output = get_writer_for_sym(&fo);
        object_info.dump(output)?;

        info!("Store symbols at {fo}");
    }

    if let Some(file) = foutput {
        let writer = get_writer_for_sym(file);
        object_info.dump(writer)?;

        info!("Write symbols at {file}");
    }
    Ok(())
}
'''
STOREM = '''    let (foutput, store) = match output {
        Output::File(fo) => (Some(fo), None),
        Output::Store(store) => (None, sym_store_path(store)?),
        Output::FileAndStore {
            file,
            store_directory,
        } => (Some(file), sym_store_path(store_directory)?),
    };

'''
JOIN = '''    let mut res = Ok(());
    for receiver in receivers {
        if let Err(e) = receiver.join().unwrap() {
            error!("{e}");
            res = res.and(Err(e));
        }
    }

    res
}'''
MAPS = '''PathMappings::new(
        &config.mapping_var,
        &config.mapping_src,
        &config.mapping_dest,
        &config.mapping_file,
    )?
    .map(Arc::new);
'''
V = [
 ("d-letsome", ALL, "ok", D, HEAD, '''    while let Ok(Some(job)) = receiver.recv() {
        let JobItem {
            file,
            typ,
            mapping,
            collect_inlines,
        } = job;
'''),
 ("d-match-recv", ALL, "ok", D, HEAD, '''    loop {
        let job = match receiver.recv() {
            Ok(Some(job)) => job,
            Ok(None) => return Ok(()),
            Err(_) => break,
        };

        let JobItem {
            file,
            typ,
            mapping,
            collect_inlines,
        } = job;
'''),
 ("d-iter-recv", ALL, "ok", D, HEAD, '''    for job in receiver.iter() {
        let Some(job) = job else {
            return Ok(());
        };
        let JobItem {
            file,
            typ,
            mapping,
            collect_inlines,
        } = job;
'''),
 ("d-process-fn", ALL, "ok", D, GET, '''                let (key, info) = process_file(
                    file,
                    mapping,
                    arch,
                    symbol_server.as_deref(),
                    collect_inlines,
                )?;
''', D, "#[allow(clippy::too_many_arguments)]\nfn consumer(", '''fn process_file(
    file: String,
    mapping: Option<Arc<PathMappings>>,
    arch: Arch,
    symbol_server: Option<&str>,
    collect_inlines: bool,
) -> common::Result<(String, ObjectInfo)> {
    let path = PathBuf::from(file);
    let filename = utils::get_filename(&path);
    let info = get_object_info(
        utils::read_file(&path),
        &path,
        &filename,
        mapping,
        arch,
        symbol_server,
        collect_inlines,
    )?;
    let key = if info.has_debug_id() {
        info.get_debug_id().to_string()
    } else {
        path.to_string_lossy().to_string()
    };
    Ok((key, info))
}

#[allow(clippy::too_many_arguments)]
fn consumer('''),
 ("d-merge-fn", ALL, "ok", D, MERGE, '''                add_result(&results, key, info)
                    .inspect_err(|_e| poison_queue(&sender, num_threads))?;
''', D, "#[allow(clippy::too_many_arguments)]\nfn consumer(", '''fn add_result(
    results: &Mutex<HashMap<String, ObjectInfo>>,
    key: String,
    info: ObjectInfo,
) -> common::Result<()> {
    let mut results = results.lock().unwrap();
    let info = match results.remove(&key) {
        Some(prev) => ObjectInfo::merge(info, prev)?,
        None => info,
    };
    results.insert(key, info);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn consumer('''),
 ("d-merge-match", ALL, "ok", D, MERGE, '''                let mut results = results.lock().unwrap();
                let merged = match results.remove(&key) {
                    Some(prev) => match ObjectInfo::merge(info, prev) {
                        Ok(merged) => merged,
                        Err(e) => {
                            poison_queue(&sender, num_threads);
                            return Err(e);
                        }
                    },
                    None => info,
                };
                results.insert(key, merged);
                drop(results);
'''),
 ("d-merge-nopoison", ALL, "ok", D, MERGE, '''                let mut results = results.lock().unwrap();
                let info = if let Some(prev) = results.remove(&key) {
                    // the worker releases the other ones when it fails
                    ObjectInfo::merge(info, prev)?
                } else {
                    info
                };
                results.insert(key, info);
'''),
 ("d-dump-first", ALL, "ok", D, "        match typ {\n            JobType::Get => {\n" + GET + "\n" + MERGE + "            }\n" + DUMPARM, '''        if let JobType::Dump(d) = typ {
            self::store(&output, check_cfi, d)?;
            continue;
        }

''' + GET + "{" + MERGE + "}"),
 ("d-cnt-continue", ALL, "ok", D, CNT, '''        if counter.fetch_sub(1, Ordering::SeqCst) != 1 {
            continue;
        }

        // it was the last file
        let mut results = results.lock().unwrap();
        send_store_jobs(
            &sender,
            &mut results,
            num_threads,
            output.clone(),
            check_cfi,
            collect_inlines,
        )?;
'''),
 ("d-cnt-let", ALL, "ok", D, CNT, '''        let remaining = counter.fetch_sub(1, Ordering::SeqCst) - 1;
        if remaining == 0 {
            let mut results = results.lock().unwrap();
            send_store_jobs(
                &sender,
                &mut results,
                num_threads,
                output.clone(),
                check_cfi,
                collect_inlines,
            )?;
        }
'''),
 ("d-cnt-inarm", ALL, "ok", D, "                results.insert(key, info);\n            }\n" + DUMPARM + "\n" + CNT, '''                results.insert(key, info);
                drop(results);
                if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
                    send_store_jobs(
                        &sender,
                        &mut all.lock().unwrap(),
                        num_threads,
                        output.clone(),
                        check_cfi,
                        collect_inlines,
                    )?;
                }
            }
            JobType::Dump(d) => self::store(&output, check_cfi, d)?,
        }
''', D, "                let mut results = results.lock().unwrap();\n                let info = if", "                let all = &results;\n                let mut results = results.lock().unwrap();\n                let info = if"),
 ("d-send-take", ALL, "ok", D, SEND, '''    let results = std::mem::take(results);
    if results.len() == 1 {
        for d in results.into_values() {
            self::store(&output, check_cfi, d)?;
        }
    } else {
        results.into_values().for_each(|d| {
            let job = JobItem {
                file: String::new(),
                typ: JobType::Dump(d),
                mapping: None,
                collect_inlines,
            };
            sender.send(Some(job)).unwrap();
        });
    }
'''),
 ("d-send-single", ALL, "ok", D, SEND, '''    let single = results.len() == 1;
    for (_, d) in results.drain() {
        if single {
            self::store(&output, check_cfi, d)?;
        } else {
            sender.send(Some(JobItem::dump(d, collect_inlines))).unwrap();
        }
    }
''', D, "fn send_store_jobs(", '''impl JobItem {
    fn dump(info: ObjectInfo, collect_inlines: bool) -> Self {
        Self {
            file: String::new(),
            typ: JobType::Dump(info),
            mapping: None,
            collect_inlines,
        }
    }
}

fn send_store_jobs('''),
 ("d-poison-foreach", ALL, "ok", D, '''    for _ in 0..num_threads {
        sender.send(None).unwrap();
    }
''', "    (0..num_threads).for_each(|_| sender.send(None).unwrap());\n"),
 ("d-poison-repeat", ALL, "ok", D, '''    for _ in 0..num_threads {
        sender.send(None).unwrap();
    }
''', '''    let mut left = num_threads;
    while left > 0 {
        sender.send(None).expect("the receivers are gone");
        left -= 1;
    }
'''),
 ("d-poison-up", ALL, "ok", D, '''    for _ in 0..num_threads {
        sender.send(None).unwrap();
    }
''', '''    let mut sent = 0;
    while sent < num_threads {
        sender.send(None).unwrap();
        sent += 1;
    }
'''),
 ("d-poison-up2", ALL, "ok", D, '''    for _ in 0..num_threads {
        sender.send(None).unwrap();
    }
''', '''    let mut sent = 0;
    loop {
        if sent == num_threads {
            break;
        }
        sender.send(None).unwrap();
        sent += 1;
    }
'''),
 ("d-poison-short", ALL, "bad", D, '''    for _ in 0..num_threads {
        sender.send(None).unwrap();
    }
''', '''    let mut sent = 1;
    while sent < num_threads {
        sender.send(None).unwrap();
        sent += 1;
    }
'''),
 ("d-poison-short2", ALL, "bad", D, '''    for _ in 0..num_threads {
        sender.send(None).unwrap();
    }
''', '''    let mut left = num_threads;
    while left > 1 {
        sender.send(None).unwrap();
        left -= 1;
    }
'''),
 ("d-files-idx", ALL, "ok", D, "    for f in filenames {\n", "    for i in 0..filenames.len() {\n        let f = filenames[i];\n"),
 ("d-files-while", ALL, "ok", D, "    for f in filenames {\n        sender", "    let mut rest = filenames.iter();\n    while let Some(f) = rest.next() {\n        sender"),
 ("d-worker-fn", ALL, "ok", D, ".spawn(move || {\n" + WORKER + "            })", '''.spawn(move || {
                run_worker(
                    arch,
                    sender,
                    receiver,
                    results,
                    counter,
                    num_jobs,
                    output,
                    check_cfi,
                    symbol_server,
                )
            })''', D, "pub fn several_files(", '''#[allow(clippy::too_many_arguments)]
fn run_worker(
    arch: Arch,
    sender: Sender<Option<JobItem>>,
    receiver: Receiver<Option<JobItem>>,
    results: Arc<Mutex<HashMap<String, ObjectInfo>>>,
    counter: Arc<AtomicUsize>,
    num_jobs: usize,
    output: Output,
    check_cfi: bool,
    symbol_server: Option<String>,
) -> common::Result<()> {
    let poison_sender = sender.clone();
    let res = panic::catch_unwind(AssertUnwindSafe(|| {
        consumer(
            arch,
            sender,
            receiver,
            results,
            counter,
            num_jobs,
            output,
            check_cfi,
            symbol_server,
        )
    }));
    match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => {
            poison_queue(&poison_sender, num_jobs);
            Err(e)
        }
        Err(e) => {
            poison_queue(&poison_sender, num_jobs);
            panic::resume_unwind(e)
        }
    }
}

pub fn several_files('''),
 ("d-worker-ifelse", ALL, "ok", D, WORKER.split("                if !matches!")[1].join(["                if !matches!", ""]), '''                let done = match &res {
                    Ok(r) => r.is_ok(),
                    Err(_) => false,
                };
                if !done {
                    poison_queue(&poison_sender, num_jobs);
                }
                match res {
                    Ok(r) => r,
                    Err(e) => panic::resume_unwind(e),
                }
'''),
 ("d-join-collect", ALL, "ok", D, JOIN, '''    let outcomes: Vec<common::Result<()>> = receivers
        .into_iter()
        .map(|t| t.join().unwrap())
        .collect();
    for outcome in &outcomes {
        if let Err(e) = outcome {
            error!("{e}");
        }
    }

    outcomes.into_iter().collect()
}'''),
 ("d-join-first", ALL, "ok", D, JOIN, '''    let mut first_error = None;
    for receiver in receivers {
        if let Err(e) = receiver.join().unwrap() {
            error!("{e}");
            first_error.get_or_insert(e);
        }
    }

    match first_error {
        Some(e) => Err(e),
        None => Ok(()),
    }
}'''),
 ("d-join-fold", ALL, "ok", D, JOIN, '''    receivers.into_iter().fold(Ok(()), |res, t| {
        let r = t.join().unwrap();
        if let Err(e) = &r {
            error!("{e}");
        }
        res.and(r)
    })
}'''),
 ("d-join-match", ALL, "ok", D, JOIN, '''    let mut res = Ok(());
    for receiver in receivers {
        match receiver.join().unwrap() {
            Ok(()) => {}
            Err(e) => {
                error!("{e}");
                if res.is_ok() {
                    res = Err(e);
                }
            }
        }
    }

    res
}'''),
 ("d-mapping-fn", ALL, "ok", D, "    let path_mappings = " + MAPS, "    let path_mappings = load_mappings(config)?;\n", D, "    let file_mapping = " + MAPS, "    let file_mapping = load_mappings(config)?;\n",
  D, "pub fn single_file(", '''fn load_mappings(config: &Config) -> common::Result<Option<Arc<PathMappings>>> {
    let mappings = PathMappings::new(
        &config.mapping_var,
        &config.mapping_src,
        &config.mapping_dest,
        &config.mapping_file,
    )?;
    Ok(mappings.map(Arc::new))
}

pub fn single_file('''),
 ("d-store-fn", ALL, "ok", D, STORE, '''    if let Some(store) = store {
        fs::create_dir_all(store.parent().unwrap())?;
        dump_to(&object_info, &FileOutput::Path(store), "Store")?;
    }

    foutput.map_or(Ok(()), |file| dump_to(&object_info, file, "Write"))
}

fn dump_to(object_info: &ObjectInfo, output: &FileOutput, what: &str) -> common::Result<()> {
    object_info.dump(get_writer_for_sym(output))?;
    info!("{what} symbols at {output}");
    Ok(())
}
'''),
 ("d-store-arms", ALL, "ok", D, STOREM + STORE, '''    let to_store = |dir: &Path| -> common::Result<()> {
        if let Some(path) = sym_store_path(dir)? {
            fs::create_dir_all(path.parent().unwrap())?;
            let fo = FileOutput::Path(path);
            object_info.dump(get_writer_for_sym(&fo))?;
            info!("Store symbols at {fo}");
        }
        Ok(())
    };
    let to_file = |fo: &FileOutput| -> common::Result<()> {
        object_info.dump(get_writer_for_sym(fo))?;
        info!("Write symbols at {fo}");
        Ok(())
    };

    match output {
        Output::File(fo) => to_file(fo),
        Output::Store(dir) => to_store(dir),
        Output::FileAndStore {
            file,
            store_directory,
        } => {
            to_store(store_directory)?;
            to_file(file)
        }
    }
}
'''),
 ("d-store-cfi", ALL, "ok", D, '''    anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");
''', '''    if check_cfi && !object_info.has_stack() {
        return Err(anyhow::anyhow!("No CFI data"));
    }
'''),
 ("d-store-pathfn", ALL, "ok", D, '''        let mut pb = PathBuf::new();
        pb.push(dir);
        pb.push(utils::get_path_for_sym(name, object_info.get_debug_id()));
        Ok(Some(pb))
''', '''        let relative = utils::get_path_for_sym(name, object_info.get_debug_id());
        Ok(Some(dir.join(relative)))
'''),
 ("d-writer-match", ALL, "ok", D, '''            let output = std::fs::File::create(path)
                .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.display()));
            Box::new(output)
''', '''            match std::fs::File::create(path) {
                Ok(file) => Box::new(file),
                Err(_) => panic!("Cannot open file {} for writing", path.display()),
            }
'''),
 ("d-getobj-early", ALL, "ok", D, '''            if let Ok(pdb_info) = get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            ) {
                pdb_info
            } else {
                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
            }
''', '''            get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            )
            .or_else(|_| get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines))?
'''),
 ("d-getobj-noq", ALL, "ok", D, "    let object_info = match peek(&buf, true /* check for fat binary */) {", "    let format = peek(&buf, true /* check for fat binary */);\n    let object_info = match format {"),
 ("d-pepdb-letelse", ALL, "ok", D, '''    if let Some((pe, pdb_buf, pdb_name)) = res {
        let pdb = PdbObject::parse(&pdb_buf)?;
        let pdb = ObjectInfo::from_pdb(
            pdb,
            &pdb_name,
            Some(filename),
            Some(pe),
            mapping,
            emit_inlines,
        )?;
        Ok(pdb)
    } else {
        anyhow::bail!("No pdb file found")
    }
''', '''    let Some((pe, pdb_buf, pdb_name)) = res else {
        anyhow::bail!("No pdb file found");
    };

    let pdb = PdbObject::parse(&pdb_buf)?;
    let info = ObjectInfo::from_pdb(
        pdb,
        &pdb_name,
        Some(filename),
        Some(pe),
        mapping,
        emit_inlines,
    )?;
    Ok(info)
'''),
 ("d-fromid", ALL, "ok", D, '''    if let Some(id) = config.debug_id.or(config.code_id) {
        let symbol_server = crate::cache::get_sym_servers(config.symbol_server);
        let (buf, filename) = crate::cache::search_file(filename, id, symbol_server.as_ref());
        return if let Some(buf) = buf {
            Ok((buf, filename))
        } else {
            anyhow::bail!("Impossible to get file {} with id {}", filename, id)
        };
    }

    Ok((utils::read_file(path), filename))
''', '''    let id = match config.debug_id.or(config.code_id) {
        Some(id) => id,
        None => return Ok((utils::read_file(path), filename)),
    };
    let symbol_server = crate::cache::get_sym_servers(config.symbol_server);
    match crate::cache::search_file(filename, id, symbol_server.as_ref()) {
        (Some(buf), filename) => Ok((buf, filename)),
        (None, filename) => {
            anyhow::bail!("Impossible to get file {} with id {}", filename, id)
        }
    }
'''),
 ("d-pdbinfo", ALL, "ok", D, '''    let (pe_name, pe_buf) = match windows::utils::find_pe_for_pdb(path, &pdb.debug_id()) {
        Some((pe_name, pe_buf)) => (Some(pe_name), Some(pe_buf)),
        None => (None, None),
    };
    let pe = pe_buf.as_deref().map(|buf| PeObject::parse(buf).unwrap());

    ObjectInfo::from_pdb(
        pdb,
        filename,
        pe_name.as_deref(),
        pe,
        mapping,
        collect_inlines,
    )
''', '''    let found = windows::utils::find_pe_for_pdb(path, &pdb.debug_id());
    let pe = found
        .as_ref()
        .map(|(_, pe_buf)| PeObject::parse(pe_buf).unwrap());
    let pe_name = found.as_ref().map(|(pe_name, _)| pe_name.as_str());

    ObjectInfo::from_pdb(pdb, filename, pe_name, pe, mapping, collect_inlines)
'''),
 ("d-jobs-chain", ALL, "ok", D, '''    for f in filenames {
        sender
            .send(Some(JobItem {
                file: f.to_string(),
                typ: JobType::Get,
                mapping: file_mapping.clone(),
                collect_inlines: config.emit_inlines,
            }))
            .unwrap();
    }
''', '''    filenames
        .iter()
        .map(|f| JobItem {
            file: f.to_string(),
            typ: JobType::Get,
            mapping: file_mapping.clone(),
            collect_inlines: config.emit_inlines,
        })
        .for_each(|job| sender.send(Some(job)).unwrap());
'''),
 ("d-spawn-map", ALL, "ok", D, "    let mut receivers = Vec::with_capacity(num_jobs);\n    for i in 0..num_jobs {", "    let spawn_worker = |i: usize| {", D, '''            .unwrap();

        receivers.push(t);
    }
''', '''            .unwrap();

        t
    };
    let receivers: Vec<_> = (0..num_jobs).map(spawn_worker).collect();
'''),
 ("d-numjobs", ALL, "ok", D, "config.num_jobs.max(1).min(filenames.len())", "std::cmp::min(std::cmp::max(1, config.num_jobs), filenames.len())"),
 ("d-ownedserver", ALL, "ok", D, "config.symbol_server.map(ToOwned::to_owned)", "config.symbol_server.map(String::from)"),
]

D = "src/dumper.rs"
COUNT = "        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {"
V = [
 ("bounded", "C01", "bad", D, "let (sender, receiver) = unbounded();", "let (sender, receiver) = crossbeam::channel::bounded(num_jobs + 1);"),
 ("no-poison", "C01", "bad", D, "    poison_queue(sender, num_threads);\n    Ok(())", "    Ok(())"),
 ("poison-one-less", "C01", "bad", D, "    for _ in 0..num_threads {\n        sender.send(None)", "    for _ in 1..num_threads {\n        sender.send(None)"),
 ("store-first-return", "C01", "bad", D, "        self::store(&output, check_cfi, d)?;\n    } else {", "        self::store(&output, check_cfi, d)?;\n        return Ok(());\n    } else {"),
 ("count-dump", "C01", "bad", D, "                self::store(&output, check_cfi, d)?;\n                continue;\n", "                self::store(&output, check_cfi, d)?;\n"),
 ("count-two", "C01", "bad", D, "AtomicUsize::new(filenames.len())", "AtomicUsize::new(num_jobs)"),
 ("count-zero", "C01", "bad", D, "fetch_sub(1, Ordering::SeqCst) == 1", "fetch_sub(1, Ordering::SeqCst) == 0"),
 ("racy-count", "C01", "bad", D, COUNT, "        counter.fetch_sub(1, Ordering::SeqCst);\n        if counter.load(Ordering::SeqCst) == 0 {"),
 ("count-before-insert", "C02", "bad", D, "                let mut results = results.lock().unwrap();\n                let info = if let", "                let last = counter.fetch_sub(1, Ordering::SeqCst) == 1;\n                let mut results = results.lock().unwrap();\n                let info = if let",
     D, COUNT, "        if counter.load(Ordering::SeqCst) == 0 {"),
 ("two-sections", "C02", "bad", D, "                let mut results = results.lock().unwrap();\n                let info = if let Some(prev) = results.remove(&key) {", "                let prev = results.lock().unwrap().remove(&key);\n                let info = if let Some(prev) = prev {",
     D, "                results.insert(key, info);", "                results.lock().unwrap().insert(key, info);"),
 ("insert-no-merge", "C02", "bad", D, "                results.insert(key, info);", "                results.entry(key).or_insert(info);",
     D, "let Some(prev) = results.remove(&key) {", "let Some(prev) = results.remove(\"\") {"),
 ("drop-prev", "C02", "bad", D, "                    ObjectInfo::merge(info, prev).inspect_err(|_e| {\n                        poison_queue(&sender, num_threads);\n                    })?", "                    if prev.has_stack() { ObjectInfo::merge(info, prev)? } else { info }"),
 ("merge-self", "C02", "bad", D, "                    ObjectInfo::merge(info, prev).inspect_err(|_e| {\n                        poison_queue(&sender, num_threads);\n                    })?\n                } else {\n                    info\n                };", "                    match ObjectInfo::merge(info, prev) { Ok(x) => x, Err(_) => { continue } }\n                } else {\n                    info\n                };"),
 ("drain-filter", "C02", "bad", D, "for (_, d) in results.drain() {", "for (_, d) in results.drain().filter(|(_, d)| d.has_stack()) {"),
 ("poison-first", "C02", "bad", D, "    if results.len() == 1 {", "    poison_queue(sender, num_threads);\n    if results.len() == 1 {"),
 ("len-ge-1", "C02", "bad", D, "results.len() == 1", "results.len() >= 1"),
 ("skip-file", "C01 C02", "bad", D, "    for f in filenames {\n", "    for f in filenames {\n        if f.is_empty() { continue; }\n"),
 ("lock-twice", "C01", "bad", D, "                results.insert(key, info);", "                results.insert(key, info);\n                let keep = results;\n                if counter.load(Ordering::SeqCst) == 1 { poison_queue(&sender, 0); }\n                if counter.fetch_sub(1, Ordering::SeqCst) == 1 { let mut r = self_lock(&all).unwrap(); send_store_jobs(&sender, &mut r, num_threads, output.clone(), check_cfi, collect_inlines)?; }\n                drop(keep);\n                continue;",
     D, "                let mut results = results.lock().unwrap();\n                let info = if let", "                let all = results.clone();\n                let mut results = results.lock().unwrap();\n                let info = if let",
     D, "fn poison_queue", "fn self_lock(m: &Arc<Mutex<HashMap<String, ObjectInfo>>>) -> std::sync::LockResult<std::sync::MutexGuard<'_, HashMap<String, ObjectInfo>>> { m.lock() }\nfn poison_queue"),
 ("key-path", "C02", "ok", D, "let key = if info.has_debug_id()", "let key = if !info.get_debug_id().is_empty() && info.has_debug_id()"),
 ("stack-lost", "C02", "bad", "src/object_info.rs", "        } else if !right.stack.is_empty() {", "        } else if !right.stack.is_empty() && left.stack.len() < right.stack.len() {"),
 ("entry-ok", "C02 C01", "ok", D, "                let info = if let Some(prev) = results.remove(&key) {\n                    ObjectInfo::merge(info, prev).inspect_err(|_e| {\n                        poison_queue(&sender, num_threads);\n                    })?\n                } else {\n                    info\n                };\n                results.insert(key, info);",
     "                let merged = match results.remove(&key) {\n                    Some(prev) => ObjectInfo::merge(info, prev)?,\n                    None => info,\n                };\n                results.insert(key, merged);"),
 ("helper-ok", "C02 C01", "ok", D, "                let info = if let Some(prev) = results.remove(&key) {\n                    ObjectInfo::merge(info, prev).inspect_err(|_e| {\n                        poison_queue(&sender, num_threads);\n                    })?\n                } else {\n                    info\n                };\n                results.insert(key, info);",
     "                record(&mut results, key, info)?;", D, "fn poison_queue", "fn record(results: &mut HashMap<String, ObjectInfo>, key: String, info: ObjectInfo) -> common::Result<()> {\n    let info = match results.remove(&key) {\n        Some(prev) => ObjectInfo::merge(info, prev)?,\n        None => info,\n    };\n    results.insert(key, info);\n    Ok(())\n}\n\nfn poison_queue"),
 ("drain-one-ok", "C02 C01", "ok", D, "        let (_, d) = results.drain().take(1).next().unwrap();", "        let (_, d) = results.drain().next().unwrap();"),
 ("poison-loop-ok", "C02 C01", "ok", D, "    for _ in 0..num_threads {\n        sender.send(None).unwrap();\n    }", "    (0..num_threads).for_each(|_| sender.send(None).unwrap());"),
 ("loop-ok", "C02 C01", "ok", D, "    while let Ok(job) = receiver.recv() {\n        if job.is_none() {\n            return Ok(());\n        }\n", "    loop {\n        let job = match receiver.recv() {\n            Ok(j) => j,\n            Err(_) => break,\n        };\n        if job.is_none() {\n            return Ok(());\n        }\n"),
 ("letelse-ok", "C02 C01", "ok", D, "    while let Ok(job) = receiver.recv() {\n        if job.is_none() {\n            return Ok(());\n        }\n", "    while let Ok(Some(job)) = receiver.recv() {\n",
     D, "        } = job.unwrap();", "        } = job;"),
 ("getfn-ok", "C02 C01 C04 C05", "ok", D, "    let mut res = Ok(());\n    for receiver in receivers {\n        if let Err(e) = receiver.join().unwrap() {\n            error!(\"{e}\");\n            res = res.and(Err(e));\n        }\n    }\n\n    res", "    let mut first = None;\n    for receiver in receivers {\n        match receiver.join().unwrap() {\n            Ok(()) => {}\n            Err(e) => {\n                error!(\"{e}\");\n                first.get_or_insert(e);\n            }\n        }\n    }\n    match first {\n        None => Ok(()),\n        Some(e) => Err(e),\n    }"),
]

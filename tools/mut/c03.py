D="src/dumper.rs"
V = [
 ("pe-fallback-mapping", "C03", "bad", D, "    )?\n    .map(Arc::new);\n    let arch = Arch::from_str(config.arch)?;\n    let object_info", "    )\n    .unwrap_or(None)\n    .map(Arc::new);\n    let arch = Arch::from_str(config.arch)?;\n    let object_info"),
 ("arch-default", "C03", "bad", D, "    let arch = Arch::from_str(config.arch)?;\n    let results", "    let arch = Arch::from_str(config.arch).unwrap_or_default();\n    let results"),
 ("join-ignored", "C03", "bad", D, "        if let Err(e) = receiver.join().unwrap() {", "        if let Ok(Err(e)) = receiver.join() {"),
 ("res-lost", "C03", "bad", D, "            res = res.and(Err(e));", "            res = res.or(Err(e));"),
 ("res-any-ok", "C03", "ok", D, "            res = res.and(Err(e));", "            res = Err(e);"),
 ("first-worker-only", "C03", "bad", D, "    for receiver in receivers {\n", "    for receiver in receivers.into_iter().take(1) {\n"),
 ("try-fold-ok", "C03", "ok", D, "    let mut res = Ok(());\n    for receiver in receivers {\n        if let Err(e) = receiver.join().unwrap() {\n            error!(\"{e}\");\n            res = res.and(Err(e));\n        }\n    }\n\n    res", "    let mut first = None;\n    for receiver in receivers {\n        let done = receiver.join().unwrap();\n        if let Err(e) = done {\n            error!(\"{e}\");\n            first.get_or_insert(e);\n        }\n    }\n\n    match first {\n        Some(e) => Err(e),\n        None => Ok(()),\n    }"),
 ("panic-swallowed", "C03", "bad", D, "                res.unwrap_or_else(|e| panic::resume_unwind(e))", "                res.unwrap_or(Ok(()))"),
 ("merge-fail-keep", "C03", "bad", D, "                    ObjectInfo::merge(info, prev).inspect_err(|_e| {\n                        poison_queue(&sender, num_threads);\n                    })?", "                    match ObjectInfo::merge(info, prev) {\n                        Ok(m) => m,\n                        Err(e) => {\n                            error!(\"{e}\");\n                            continue;\n                        }\n                    }"),
 ("exit-0", "C03", "bad", "src/main.rs", "        std::process::exit(1);", "        std::process::exit(0);"),
 ("no-exit", "C03", "bad", "src/main.rs", "        std::process::exit(1);", "        let _ = e;"),
 ("read-short", "C03", "bad", "src/utils.rs", "    file.read_to_end(&mut buf)\n        .unwrap_or_else(|_| panic!(\"Unable to read the file {}\", path.to_str().unwrap()));\n\n    read_cabinet", "    let _ = file.read_to_end(&mut buf);\n\n    read_cabinet"),
 ("cab-partial", "C03", "bad", "src/utils.rs", "    if reader.read_to_end(&mut buf).is_err() {\n        None\n    } else {\n        Some(buf)\n    }", "    let _ = reader.read_to_end(&mut buf);\n    if buf.is_empty() {\n        None\n    } else {\n        Some(buf)\n    }"),
 ("cab-match-ok", "C03", "ok", "src/utils.rs", "    if reader.read_to_end(&mut buf).is_err() {\n        None\n    } else {\n        Some(buf)\n    }", "    match reader.read_to_end(&mut buf) {\n        Ok(_) => Some(buf),\n        Err(_) => None,\n    }"),
 ("map-bad-skip", "C03", "bad", "src/mapping.rs", "            out.push(PathMappingGenerator::new(\n                src,\n                dest,\n                vars,\n                HashSet::default(),\n            )?);", "            if let Ok(m) = PathMappingGenerator::new(src, dest, vars, HashSet::default()) {\n                out.push(m);\n            }"),
 ("map-digest", "C03", "bad", "src/mapping.rs", "buf.extend_from_slice(get_digest(file, uppercase)?.as_bytes());", "buf.extend_from_slice(get_digest(file, uppercase).unwrap_or_default().as_bytes());"),
 ("mapping-json", "C03", "bad", "src/mapping.rs", "            Err(e) => Err(e.into()),", "            Err(e) => { warn!(\"{e}\"); Ok(Self::default()) }"),
 ("list-arch-ok", "C03", "bad", "src/mac.rs", "        .map(|o| o.map(|o| o.arch().name()))\n        .collect::<Result<Vec<_>, _>>()?;", "        .filter_map(|o| o.ok())\n        .map(|o| o.arch().name())\n        .collect::<Vec<_>>();"),
 ("list-several", "C03", "bad", "src/action.rs", "                    print_macho_architectures(&buf, filename)?;", "                    let _ = print_macho_architectures(&buf, filename);"),
 ("cache-partial", "C03", "bad", "src/cache.rs", "            if resp.copy_to(&mut buf).is_err() {\n                None\n            } else if", "            let _ = resp.copy_to(&mut buf);\n            if"),
 ("search-none", "C03", "bad", D, "            anyhow::bail!(\"Impossible to get file {} with id {}\", filename, id)", "            Ok((utils::read_file(path), filename))"),
 ("create-ok", "C03", "bad", D, "        fs::create_dir_all(store.parent().unwrap())?;", "        fs::create_dir_all(store.parent().unwrap()).ok();"),
 ("pe-ok-or-else", "C03", "ok", D, "            if let Ok(pdb_info) = get_pe_pdb_object_info(\n                &buf,\n                path,\n                filename,\n                file_mapping.clone(),\n                symbol_server,\n                emit_inlines,\n            ) {\n                pdb_info\n            } else {\n                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?\n            }", "            get_pe_pdb_object_info(\n                &buf,\n                path,\n                filename,\n                file_mapping.clone(),\n                symbol_server,\n                emit_inlines,\n            )\n            .or_else(|_| get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines))?"),
 ("main-match-ok", "C03", "ok", "src/main.rs", "    if let Err(e) = action.action(&filenames) {\n        eprintln!(\"{e}\");\n        std::process::exit(1);\n    }", "    let code = match action.action(&filenames) {\n        Ok(()) => 0,\n        Err(e) => {\n            eprintln!(\"{e}\");\n            1\n        }\n    };\n    if code != 0 {\n        std::process::exit(code);\n    }"),
 ("cab-notfound", "C03", "bad", "src/utils.rs", "        Some(file) => file,\n        _ => return None,", "        Some(file) => file,\n        _ => return Some(buf.clone()),"),
]
V += [
 ("coll-any-bad", "C03", "bad", "src/dumper.rs", """    let mut res = Ok(());
    for receiver in receivers {
        if let Err(e) = receiver.join().unwrap() {
            error!("{e}");
            res = res.and(Err(e));
        }
    }

    res
}""", """    let outcomes: Vec<common::Result<()>> = receivers
        .into_iter()
        .map(|t| t.join().unwrap())
        .collect();
    for outcome in &outcomes {
        if let Err(e) = outcome {
            error!("{e}");
        }
    }

    outcomes.into_iter().next().unwrap_or(Ok(()))
}"""),
 ("coll-last-bad", "C03", "bad", "src/dumper.rs", """    let mut res = Ok(());
    for receiver in receivers {
        if let Err(e) = receiver.join().unwrap() {
            error!("{e}");
            res = res.and(Err(e));
        }
    }

    res
}""", """    let mut res = Ok(());
    let outcomes: Vec<common::Result<()>> = receivers
        .into_iter()
        .map(|t| t.join().unwrap())
        .collect();
    for outcome in outcomes {
        if let Err(e) = &outcome {
            error!("{e}");
        }
        res = outcome;
    }
    res
}"""),
]

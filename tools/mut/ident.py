OI="src/object_info.rs"; DU="src/dumper.rs"; WU="src/windows/utils.rs"; PD="src/windows/pdb.rs"
KEY='''                let key = if info.has_debug_id() {
                    info.get_debug_id().to_string()
                } else {
                    path.to_string_lossy().to_string()
                };
'''
V=[
 ("merge-noensure","C18","bad",OI,"            left.debug_id == right.debug_id,","            left.debug_id == right.debug_id || left.code_id == right.code_id,"),
 ("merge-zero","C18","bad",OI,"            left.debug_id == right.debug_id,","            left.debug_id == right.debug_id || !left.has_debug_id(),"),
 ("merge-prefix","C18","bad",OI,"            left.debug_id == right.debug_id,","            left.debug_id[..left.debug_id.len() - 1] == right.debug_id[..right.debug_id.len() - 1],"),
 ("pe-name","C18","bad",OI,"            left.code_id = right.code_id;\n            left.pe_name = right.pe_name;","            left.code_id = right.code_id;"),
 ("code-always","C18","bad",OI,"        if left.code_id.is_none() && right.code_id.is_some() {","        if right.code_id.is_none() || left.code_id.is_none() {"),
 ("code-other","C18","bad",OI,"        if left.code_id.is_none() && right.code_id.is_some() {","        if left.code_id.is_none() && left.pe_name.is_some() {"),
 ("code-swap","C18","bad",OI,"            left.pe_name = right.pe_name;","            left.pe_name = left.pe_name.or(right.pe_name);"),
 ("name-dbg","C18","bad",OI,"        if right.bin_type == Type::Stripped {","        if right.bin_type != Type::Stripped {"),
 ("cpu-empty","C18","bad",OI,"        if right.bin_type == Type::Stripped {","        if left.cpu == \"unknown\" { left.cpu = \"x86\"; }\n        if right.bin_type == Type::Stripped {"),
 ("key-id","C18","bad",DU,KEY,"                let key = info.get_debug_id().to_string();\n"),
 ("key-name","C18","bad",DU,"                    path.to_string_lossy().to_string()\n                };","                    info.get_name().to_string()\n                };"),
 ("key-swapped","C18","bad",DU,"if info.has_debug_id() {","if !info.has_debug_id() {"),
 ("key-short","C18","bad",DU,"                    info.get_debug_id().to_string()\n                } else","                    info.get_debug_id()[..32].to_string()\n                } else"),
 ("has-any","C18","bad",OI,"self.debug_id.bytes().any(|c| c != b'0')","!self.debug_id.is_empty()"),
 ("has-all","C18","bad",OI,"self.debug_id.bytes().any(|c| c != b'0')","self.debug_id.bytes().any(|c| c == b'0')"),
 ("pe-anyid","C18","bad",WU,"if &pe.debug_id() == pdb_debug_id {","if &pe.debug_id() == pdb_debug_id || pe.debug_id().is_nil() {"),
 ("pe-uuid","C18","bad",WU,"if &pe.debug_id() == pdb_debug_id {","if pe.debug_id().uuid() == pdb_debug_id.uuid() {"),
 ("pe-last","C18","bad",WU,"    let mut path = path.to_path_buf();\n    for ext","    let mut path = path.to_path_buf();\n    let mut last = None;\n    for ext",WU,'''                if &pe.debug_id() == pdb_debug_id {
                    return Some((filename, buf));
                }
            }
        }
    }
    None''','''                if &pe.debug_id() == pdb_debug_id {
                    return Some((filename, buf));
                }
                last = Some((filename, buf));
            }
        }
    }
    last'''),
 ("pdb-nofilter","C18","bad",WU,'''        let pdb = pdb
            .filter(|buf| PdbObject::parse(buf).is_ok_and(|pdb| pdb.debug_id() == pe.debug_id()));
''',''),
 ("pdb-filter-ok","C18","bad",WU,"is_ok_and(|pdb| pdb.debug_id() == pe.debug_id())","is_ok_and(|pdb| !pdb.debug_id().is_nil() || pdb.debug_id() == pe.debug_id())"),
 ("pdb-fallback","C18","bad",WU,"            pdb.map(|pdb_buf| (pe, pdb_buf, pdb_name))\n        }","            pdb.or_else(|| try_to_find_pdb(path, &pdb_name)).map(|pdb_buf| (pe, pdb_buf, pdb_name))\n        }"),
 ("pair-name","C18","bad",DU,"        pe_name.as_deref(),\n        pe,","        Some(filename),\n        pe,"),
 ("pair-pe","C18","bad",DU,"            &pdb_name,\n            Some(filename),","            filename,\n            Some(&pdb_name),"),
 ("cpu-pe","C18","bad",OI,"main_object.arch().name()","pe_object.map_or(\"unknown\", |o| o.arch().name())"),
 ("code-lower","C18","bad",OI,".to_string().to_uppercase()",".to_string().to_lowercase()"),
 # refactorings
 ("r-ensure-if","C18","ok",OI,'''        anyhow::ensure!(
            left.debug_id == right.debug_id,
            "The files don't have the same debug id: {} and {}",
            left.debug_id,
            right.debug_id
        );
''','''        if left.debug_id != right.debug_id {
            anyhow::bail!(
                "The files don't have the same debug id: {} and {}",
                left.debug_id,
                right.debug_id
            );
        }
'''),
 ("r-swap","C18","ok",OI,'''        let (mut left, mut right) = if left.symbols.len() > right.symbols.len() {
            (left, right)
        } else {
            (right, left)
        };
''','''        let (mut left, mut right) = (left, right);
        if left.symbols.len() <= right.symbols.len() {
            std::mem::swap(&mut left, &mut right);
        }
'''),
 ("r-code-match","C18","ok",OI,'''        if left.code_id.is_none() && right.code_id.is_some() {
            left.code_id = right.code_id;
            left.pe_name = right.pe_name;
        }
''','''        if let (None, Some(code_id)) = (&left.code_id, right.code_id.take()) {
            left.code_id = Some(code_id);
            left.pe_name = right.pe_name.take();
        }
'''),
 ("r-key-fn","C18","ok",DU,KEY,"                let key = module_key(&info, &path);\n",DU,"#[allow(clippy::too_many_arguments)]\nfn consumer(",'''fn module_key(info: &ObjectInfo, path: &Path) -> String {
    if !info.has_debug_id() {
        return path.to_string_lossy().into_owned();
    }
    info.get_debug_id().to_owned()
}

#[allow(clippy::too_many_arguments)]
fn consumer('''),
 ("r-has-all","C18","ok",OI,"self.debug_id.bytes().any(|c| c != b'0')","!self.debug_id.chars().all(|c| c == '0')"),
 ("r-merge-match","C18","ok",DU,'''                let info = if let Some(prev) = results.remove(&key) {
                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
                        poison_queue(&sender, num_threads);
                    })?
                } else {
                    info
                };
                results.insert(key, info);
''','''                let merged = match results.remove(&key) {
                    None => info,
                    Some(prev) => ObjectInfo::merge(info, prev).inspect_err(|_e| {
                        poison_queue(&sender, num_threads);
                    })?,
                };
                results.insert(key, merged);
'''),
 ("r-findpe","C18","ok",WU,'''                if &pe.debug_id() == pdb_debug_id {
                    return Some((filename, buf));
                }
''','''                if pe.debug_id() != *pdb_debug_id {
                    continue;
                }
                return Some((filename, buf));
'''),
 ("r-findpe-early","C18","ok",WU,'''            if let Ok(pe) = PeObject::parse(&buf) {
                if ext.ends_with('_') {
                    path.set_extension(fix_extension(ext));
                }
                let filename = utils::get_filename(&path);
                if &pe.debug_id() == pdb_debug_id {
                    return Some((filename, buf));
                }
            }
''','''            let matches = PeObject::parse(&buf).is_ok_and(|pe| pe.debug_id() == *pdb_debug_id);
            if matches {
                if ext.ends_with('_') {
                    path.set_extension(fix_extension(ext));
                }
                return Some((utils::get_filename(&path), buf));
            }
'''),
 ("r-pair-match","C18","ok",DU,'''    let (pe_name, pe_buf) = match windows::utils::find_pe_for_pdb(path, &pdb.debug_id()) {
        Some((pe_name, pe_buf)) => (Some(pe_name), Some(pe_buf)),
        None => (None, None),
    };
    let pe = pe_buf.as_deref().map(|buf| PeObject::parse(buf).unwrap());
''','''    let (pe_name, pe_buf) = windows::utils::find_pe_for_pdb(path, &pdb.debug_id()).unzip();
    let pe = pe_buf.as_deref().map(|buf| PeObject::parse(buf).unwrap());
'''),
 ("r-pdb-match","C18","ok",WU,'''        let pdb = pdb
            .filter(|buf| PdbObject::parse(buf).is_ok_and(|pdb| pdb.debug_id() == pe.debug_id()));
''','''        let pdb = match pdb {
            Some(buf) if has_debug_id(&buf, pe.debug_id()) => Some(buf),
            _ => None,
        };
''',WU,"fn fix_extension","fn has_debug_id(buf: &[u8], id: DebugId) -> bool {\n    matches!(PdbObject::parse(buf), Ok(pdb) if pdb.debug_id() == id)\n}\n\nfn fix_extension"),
]

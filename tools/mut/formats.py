MA="src/main.rs"; DU="src/dumper.rs"; AC="src/action.rs"; OI="src/object_info.rs"; LI="src/linux.rs"; MC="src/mac.rs"; PD="src/windows/pdb.rs"; PL="src/platform.rs"
SEL='''        let object = if archive.object_count() == 1 {
            archive.object_by_index(0)?
        } else {
            archive
                .objects()
                .filter_map(|o| o.ok())
                .find(|o| o.arch() == arch)
        };
'''
NAME='''        let file_name = match (&main_object, &pe_file_name) {
            (Object::Elf(elf), _) => elf.name().unwrap_or(main_file_name),
            (Object::MachO(macho), _) => macho.name().unwrap_or(main_file_name),
            _ => main_file_name,
        };
'''
STK='''    let result = match (pdb, pe) {
        (_, Some(pe)) if pe.has_unwind_info() => cfi_writer.process(pe),
        (Some(pdb), _) if pdb.has_unwind_info() => cfi_writer.process(pdb),
        _ => Ok(()),
    };
'''
V=[
 ("nofat","C23","bad",DU,"peek(&buf, true /* check for fat binary */)","peek(&buf, false)"),
 ("elf-mac","C23","bad",DU,"Platform::Linux, file_mapping","Platform::Mac, file_mapping"),
 ("elf-wild","C23","bad",DU,"        FileFormat::Elf => {","        FileFormat::Elf | FileFormat::Wasm => {"),
 ("unknown-elf","C23","bad",DU,'        _ => anyhow::bail!("Unknown file format"),','        FileFormat::Unknown => anyhow::bail!("Unknown file format"),\n        _ => ObjectInfo::from_elf(&buf, filename, Platform::Linux, file_mapping, emit_inlines)?,'),
 ("macho-first","C23","bad",MC,SEL,'''        let object = if archive.object_count() == 1 {
            archive.object_by_index(0)?
        } else {
            let found = archive
                .objects()
                .filter_map(|o| o.ok())
                .find(|o| o.arch() == arch);
            match found {
                Some(o) => Some(o),
                None => archive.object_by_index(0)?,
            }
        };
'''),
 ("macho-any","C23","bad",MC,"o.arch() == arch","o.arch() == arch || o.arch().name() == \"arm64\""),
 ("macho-gt","C23","bad",MC,"archive.object_count() == 1","archive.object_count() >= 1"),
 ("macho-family","C23","bad",MC,"o.arch() == arch","o.arch().cpu_family() == arch.cpu_family()"),
 ("macho-idx","C23","bad",MC,"archive.object_by_index(0)?","archive.object_by_index(archive.object_count())?"),
 ("macho-plat","C23","bad",MC,"                Platform::Mac,","                Platform::Linux,"),
 ("pdb-plat","C23","bad",PD,"            pe_name,\n            Platform::Win,","            pe_name,\n            Platform::Linux,"),
 ("pe-name","C23","bad",PD,"let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();","let pdb_name = pe_name.to_string();"),
 ("pe-noname","C23","bad",PD,"            Some(pe_name),\n            Platform::Win","            None,\n            Platform::Win"),
 ("pe-nopdb","C23","bad",DU,'            if let Ok(pdb_info) = get_pe_pdb_object_info(','            if filename.ends_with(".sys") {\n                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?\n            } else if let Ok(pdb_info) = get_pe_pdb_object_info('),
 ("elf-noname","C23","bad",OI,"            (Object::Elf(elf), _) => elf.name().unwrap_or(main_file_name),\n",""),
 ("macho-noname","C23","bad",OI,"            (Object::MachO(macho), _) => macho.name().unwrap_or(main_file_name),\n",""),
 ("pe-as-name","C23","bad",OI,"            _ => main_file_name,\n        };","            (_, Some(pe)) => pe,\n            _ => main_file_name,\n        };"),
 ("fullname","C23","bad",OI,"file_name: Self::file_name_only(file_name).to_string()","file_name: file_name.to_string()"),
 ("stack-order","C23","bad",OI,STK,'''    let result = match (pdb, pe) {
        (Some(pdb), _) if pdb.has_unwind_info() => cfi_writer.process(pdb),
        (_, Some(pe)) if pe.has_unwind_info() => cfi_writer.process(pe),
        _ => Ok(()),
    };
'''),
 ("stack-nope","C23","bad",OI,"(_, Some(pe)) if pe.has_unwind_info() => cfi_writer.process(pe)","(None, Some(pe)) if pe.has_unwind_info() => cfi_writer.process(pe)"),
 ("stack-pe-always","C23","bad",OI,"(_, Some(pe)) if pe.has_unwind_info() => cfi_writer.process(pe)","(_, Some(pe)) => cfi_writer.process(pe)"),
 ("stack-none","C23","bad",OI,"get_stack_info(Some(main_object), pe_object)","get_stack_info(Some(main_object), None)"),
 ("type","C23","bad",OI,"if main_object.has_debug_info() {\n            Type::DebugInfo","if main_object.has_debug_info() || pe_object.is_some() {\n            Type::DebugInfo"),
 ("label","C23","bad",PL,'Self::Win => "windows"','Self::Win => "Windows"'),
 ("label-mac","C23","bad",PL,'Self::Mac => "Mac"','Self::Mac => "mac"'),
 ("list-first","C23","bad",MC,"        .objects()\n        .map(|o| o.map","        .objects()\n        .take(2)\n        .map(|o| o.map"),
 # refactorings
 ("r-sel","C23","ok",MC,SEL,'''        let object = match archive.object_count() {
            1 => archive.object_by_index(0)?,
            _ => {
                let mut found = None;
                for o in archive.objects().flatten() {
                    if o.arch() == arch {
                        found = Some(o);
                        break;
                    }
                }
                found
            }
        };
'''),
 ("r-sel2","C23","ok",MC,'''                .filter_map(|o| o.ok())
                .find(|o| o.arch() == arch)''','''                .filter_map(Result::ok)
                .find(|o| arch == o.arch())'''),
 ("r-sel3","C23","ok",MC,SEL,SEL.replace("let object = if","let object = if !archive.is_multi() && ").replace("!archive.is_multi() && ","") .replace("archive.object_count() == 1","1 == archive.object_count()")),
 ("r-name","C23","ok",OI,NAME,'''        let own_name = match main_object {
            Object::Elf(elf) => elf.name(),
            Object::MachO(macho) => macho.name(),
            _ => None,
        };
        let file_name = own_name.unwrap_or(main_file_name);
'''),
 ("r-last","C23","ok",OI,"        file_name.rsplit('/').next().unwrap_or(file_name)\n","        match file_name.rfind('/') {\n            Some(i) => &file_name[i + 1..],\n            None => file_name,\n        }\n"),
 ("r-last2","C23","ok",OI,"        file_name.rsplit('/').next().unwrap_or(file_name)\n","        file_name.rsplit_once('/').map_or(file_name, |(_, last)| last)\n"),
 ("r-stack2","C23","ok",OI,STK,'''    let mut result = Ok(());
    let pe_has_info = pe.map_or(false, |o| o.has_unwind_info());
    if pe_has_info {
        result = cfi_writer.process(pe.unwrap());
    } else if let Some(pdb) = pdb {
        if pdb.has_unwind_info() {
            result = cfi_writer.process(pdb);
        }
    }
'''),
 ("r-dispatch","C23","ok",DU,'''        FileFormat::Elf => {
            ObjectInfo::from_elf(&buf, filename, Platform::Linux, file_mapping, emit_inlines)?
        }
''','''        FileFormat::Elf => {
            return ObjectInfo::from_elf(
                &buf,
                filename,
                Platform::Linux,
                file_mapping,
                emit_inlines,
            );
        }
'''),
 ("r-pe","C23","ok",DU,'''            if let Ok(pdb_info) = get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            ) {
                pdb_info
            } else {
                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
            }
''','''            let pdb_info = get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            );
            match pdb_info {
                Ok(info) => info,
                Err(_) => get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?,
            }
'''),
 ("r-pe2","C23","ok",DU,'''            if let Ok(pdb_info) = get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            ) {
                pdb_info
            } else {
                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
            }
''','''            get_pe_pdb_object_info(
                &buf,
                path,
                filename,
                file_mapping.clone(),
                symbol_server,
                emit_inlines,
            )
            .or_else(|_| get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines))?
'''),
 ("r-label","C23","ok",PL,'''        let p = match self {
            Self::Linux => "Linux",
            Self::Mac => "Mac",
            Self::Win => "windows",
        };
        write!(f, "{p}")''','''        f.write_str(match self {
            Self::Linux => "Linux",
            Self::Mac => "Mac",
            Self::Win => "windows",
        })'''),
 ("r-list","C23","ok",MC,'''    let archs = archive
        .objects()
        .map(|o| o.map(|o| o.arch().name()))
        .collect::<Result<Vec<_>, _>>()?;
''','''    let mut archs = Vec::new();
    for object in archive.objects() {
        archs.push(object?.arch().name());
    }
'''),
 ("r-pename","C23","ok",PD,"let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();","let pdb_name = match pe.debug_file_name() {\n            Some(name) => name.to_string(),\n            None => pe_name.to_string(),\n        };"),
 ("r-type","C23","ok",OI,'''        let bin_type = if main_object.has_debug_info() {
            Type::DebugInfo
        } else {
            Type::Stripped
        };
''','''        let bin_type = Self::bin_type(main_object);
''',OI,"    fn file_name_only(",'''    fn bin_type(object: &Object) -> Type {
        match object.has_debug_info() {
            true => Type::DebugInfo,
            false => Type::Stripped,
        }
    }

    fn file_name_only('''),
]

V = [
 ("cfi-or", "C05", "bad", "src/dumper.rs", "!check_cfi || object_info.has_stack()", "check_cfi || object_info.has_stack()"),
 ("cfi-late", "C05", "bad", "src/dumper.rs", '    anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");\n', '',
    "src/dumper.rs", "        object_info.dump(writer)?;\n\n        info!(\"Write", '        anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");\n        object_info.dump(writer)?;\n\n        info!("Write'),
 ("cfi-mkdir-first", "C05", "bad", "src/dumper.rs", '    anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");\n', '    if let Output::Store(d) = output { fs::create_dir_all(d)?; }\n    anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");\n'),
 ("cfi-hasstack", "C05", "bad", "src/object_info.rs", "        !self.stack.is_empty()", "        !self.stack.is_empty() || self.bin_type == Type::Stripped"),
 ("cfi-helper-ok", "C05 C04", "ok", "src/dumper.rs", '    anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");\n', '    check_unwind(check_cfi, &object_info)?;\n',
    "src/dumper.rs", "fn store(output", "fn check_unwind(check: bool, info: &ObjectInfo) -> common::Result<()> {\n    if check && !info.has_stack() {\n        anyhow::bail!(\"No CFI data\");\n    }\n    Ok(())\n}\n\nfn store(output"),
 ("cfi-single-only", "C05", "bad", "src/dumper.rs", "            JobType::Dump(d) => {\n                self::store(&output, check_cfi, d)?;", "            JobType::Dump(d) => {\n                self::store(&output, false, d)?;"),
 ("flush-ignored", "C04 C03", "bad", "src/object_info.rs", "        writer.flush()?;", "        let _ = writer.flush();"),
 ("flush-gone", "C04", "bad", "src/object_info.rs", "        writer.flush()?;\n", ""),
 ("store-only", "C04", "bad", "src/dumper.rs", '        info!("Store symbols at {fo}");', '        info!("Store symbols at {fo}");\n        return Ok(());'),
 ("fileandstore-none", "C04", "bad", "src/dumper.rs", "        } => (Some(file), sym_store_path(store_directory)?),", "        } => (Some(file), sym_store_path(store_directory).unwrap_or(None)),"),
 ("stderr-stdout", "C04", "bad", "src/dumper.rs", "FileOutput::Stderr => Box::new(std::io::stderr().lock())", "FileOutput::Stderr => Box::new(std::io::stdout().lock())"),
 ("dump-errors-ignored", "C04 C03", "bad", "src/dumper.rs", "                self::store(&output, check_cfi, d)?;\n                continue;", "                if let Err(e) = self::store(&output, check_cfi, d) {\n                    error!(\"{e}\");\n                }\n                continue;"),
 ("store-match-ok", "C04 C05", "ok", "src/dumper.rs", "    if let Some(file) = foutput {\n        let writer = get_writer_for_sym(file);\n        object_info.dump(writer)?;\n", "    if let Some(file) = foutput {\n        write_to(&object_info, file)?;\n",
    "src/dumper.rs", "fn store(output", "fn write_to(info: &ObjectInfo, file: &FileOutput) -> common::Result<()> {\n    let mut writer = get_writer_for_sym(file);\n    info.dump(&mut writer)\n}\n\nfn store(output"),
]

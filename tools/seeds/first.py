PRE = '''
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=./target/debug/dump_syms
'''
S = [
 dict(id="s-drain-some", property="C02", needs="at least two modules in one run, one of which has no function with lines",
      breaks="modules without source files are dropped when the results are handed out",
      edits=[("src/dumper.rs", "        for (_, d) in results.drain() {", "        results.retain(|_, d| !d.is_bare());\n        for (_, d) in results.drain() {"),
             ("src/object_info.rs", "    pub fn get_name(&self)", "    pub fn is_bare(&self) -> bool {\n        self.files.get_mapping().is_empty() && self.stack.is_empty()\n    }\n\n    pub fn get_name(&self)")],
      demo=PRE + '''
cat > "$T/a.c" <<X
int f(int x) { return x; }
X
gcc -shared -fPIC -fno-asynchronous-unwind-tables -nostdlib -Wl,--build-id "$T/a.c" -o "$T/a.so" || exit 0
$B "$T/a.so" test_data/linux/basic.full -j 2 -s "$T/s" || exit 2
[ "$(find "$T/s" -name '*.sym' | wc -l)" = 2 ]
'''),
 dict(id="s-poison-few", property="C01", needs="three jobs or more and fewer modules than jobs",
      breaks="not every worker gets an end marker: the run never ends",
      edits=[("src/dumper.rs", "    if results.len() == 1 {", "    let needed = num_threads.min(results.len() + 1);\n    if results.len() == 1 {"),
             ("src/dumper.rs", "    poison_queue(sender, num_threads);\n    Ok(())", "    poison_queue(sender, needed);\n    Ok(())")],
      demo=PRE + '''
timeout 20 $B test_data/linux/basic.full test_data/linux/basic.stripped test_data/linux/basic.dbg -j 3 -o "$T/o.sym"
'''),
 dict(id="s-cfi-dump-job", property="C05", needs="several modules in one run, with --check-cfi, one without unwind information",
      breaks="the check isn't applied to the modules that are dumped by other workers",
      edits=[("src/dumper.rs", "            JobType::Dump(d) => {\n                self::store(&output, check_cfi, d)?;", "            JobType::Dump(d) => {\n                self::store(&output, check_cfi && collect_inlines, d)?;")],
      demo=PRE + '''
cat > "$T/a.c" <<X
int f(int x) { return x; }
X
gcc -shared -fPIC -fno-asynchronous-unwind-tables -nostdlib -Wl,--build-id "$T/a.c" -o "$T/a.so" || exit 0
$B "$T/a.so" test_data/linux/basic.full --check-cfi -j 2 -s "$T/s" && exit 1
[ "$(find "$T/s" -name 'a*.sym' | wc -l)" = 0 ]
'''),
 dict(id="s-file-and-store", property="C04", needs="--output and --store together, with a path for the output",
      breaks="the file isn't written when the symbols are stored too",
      edits=[("src/dumper.rs", "    if let Some(file) = foutput {", "    if let Some(file) = foutput.filter(|f| !stored || matches!(f, FileOutput::Stdout)) {"),
             ("src/dumper.rs", "    if let Some(store) = store {", "    let stored = store.is_some();\n    if let Some(store) = store {")],
      demo=PRE + '''
$B test_data/linux/basic.full -o "$T/o.sym" -s "$T/s" || exit 2
grep -q '^MODULE' "$T/o.sym"
'''),
]

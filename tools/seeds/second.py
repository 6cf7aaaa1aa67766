PRE = '''
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=$PWD/target/debug/dump_syms
'''
# Two shared objects with the same debug id
SAME = '''
ID=-Wl,--build-id=0x00112233445566778899aabbccddeeff00112233
'''
# A fat Mach-O file with two empty objects
FAT = r'''
python3 - "$T/fat" <<'X' || exit 0
import struct, sys
def obj(cpu, sub):
    uuid = bytes([cpu & 255]) * 16
    cmd = struct.pack("<II", 0x1b, 24) + uuid
    return struct.pack("<IiiIIIII", 0xfeedfacf, cpu, sub, 6, 1, len(cmd), 0, 0) + cmd
a, b = obj(0x01000007, 3), obj(0x0100000c, 0)
h = struct.pack(">II", 0xcafebabe, 2)
h += struct.pack(">iiIII", 0x01000007, 3, 4096, len(a), 12) + struct.pack(">iiIII", 0x0100000c, 0, 8192, len(b), 12)
f = h.ljust(4096, b"\0") + a
open(sys.argv[1], "wb").write(f.ljust(8192, b"\0") + b)
X
'''
S = [
 dict(id="s-early-id", property="C08", needs="two files of one module, and in the second one a source file which only has lines 0",
      breaks="ids are given to source files that have no FILE record: the ids of the merged lines are wrong or out of the table",
      edits=[("src/collector.rs", "            if line.line == 0 {\n", "            let file_id = source.get_id(fun.compilation_dir, &line.file);\n            if line.line == 0 {\n"),
             ("src/collector.rs", "            let file_id = source.get_id(fun.compilation_dir, &line.file);\n            let line_info = (line.line, file_id);", "            let line_info = (line.line, file_id);")],
      demo=PRE + SAME + r'''
cat > "$T/a.c" <<X
int f(int x) {
# 77 "/x/zero.c"
x *= 3;
# 20 "/x/two.c"
return x + 4; }
X
cat > "$T/b.c" <<X
int g(int x) { return x * 5; }
int h(int x) { return x * 6; }
int i(int x) { return x * 7; }
X
(cd "$T" && clang -g -fPIC -S a.c -o a0.s && sed 's/\(\.loc[[:space:]][0-9]*\) 77.*/\1 0 0/' a0.s > a.s && clang -c a.s -o a.o 2> /dev/null && gcc -shared -nostdlib $ID a.o -o a.so && gcc -g -shared -fPIC -nostdlib -Wl,-Ttext=0x20000 $ID b.c -o b.so) || exit 0
$B "$T/a.so" "$T/b.so" -j 1 -o "$T/o.sym" || exit 2
n=$(awk '$1=="FILE" && $3=="/x/two.c" {print $2}' "$T/o.sym")
[ -n "$n" ] && grep -qE "^[0-9a-f]+ [0-9a-f]+ 20 $n\$" "$T/o.sym"
'''),
 dict(id="s-origin-known", property="C09", needs="two files of one module, with inlines, where some inlined functions are the same",
      breaks="the names that are already known aren't added but they are still counted in the numbering",
      edits=[("src/inline_origins.rs", "    left.extend(right);", "    let known = left.len();\n    for name in right {\n        if !left[..known].contains(&name) {\n            left.push(name);\n        }\n    }")],
      demo=PRE + SAME + r'''
for n in a b; do
cat > "$T/$n.cpp" <<X
static inline __attribute__((always_inline)) int common(volatile int *p) { return *p * 3 + *p; }
static inline __attribute__((always_inline)) int only_$n(volatile int *p) { return *p * 5 - *p; }
int f_$n(volatile int *p) { return only_$n(p) + 1; }
int g_$n(volatile int *p) { return common(p) + 2; }
X
done
(cd "$T" && g++ -O1 -g -shared -fPIC -nostdlib $ID a.cpp -o a.so && g++ -O1 -g -shared -fPIC -nostdlib -Wl,-Ttext=0x20000 $ID b.cpp -o b.so) || exit 0
$B "$T/a.so" "$T/b.so" --inlines -j 1 -o "$T/o.sym" || exit 2
for n in a b; do
  id=$(awk -v n="only_$n" '$1=="FUNC" {on = index($0, " f_" substr(n, 6)) > 0} on && $1=="INLINE" {print $5; exit}' "$T/o.sym")
  [ -n "$id" ] || exit 0
  grep -q "^INLINE_ORIGIN $id only_$n" "$T/o.sym" || exit 1
done
'''),
 dict(id="s-line-order", property="C12", needs="a function whose lines aren't in address order and come from two files, with inlines",
      breaks="the lines are put in the order of the files first: the lengths are computed from lines that aren't the next ones",
      edits=[("src/line.rs", "            self.lines.sort_by_key(|x| x.rva);", "            // Keep the lines of a file together\n            self.lines.sort_by_key(|x| (x.file_id, x.rva));")],
      demo=PRE + r'''
cat > "$T/a.cpp" <<X
int f(volatile int *p) {
# 10 "/x/h.h"
  int r = *p;
# 3 "a.cpp"
  return r + g(p) + 2;
}
X
cat > "$T/a.cpp" <<X
# 10 "/x/h.h"
static inline __attribute__((always_inline)) int g(volatile int *p) {
  int r = *p;
  r *= *p + 3;
  return r;
}
# 1 "a.cpp"
int f(volatile int *p) {
  int x = *p;
  x += g(p);
  x *= *p;
  return x;
}
X
(cd "$T" && g++ -O0 -g -shared -fPIC -nostdlib a.cpp -o a.so) || exit 0
$B "$T/a.so" --inlines -o "$T/o.sym" || exit 2
awk '/^[0-9a-f]+ [0-9a-f]+ [0-9]+ [0-9]+$/ {a = $1; while (length(a) < 8) a = "0" a; if (a < p) exit 1; p = a}' "$T/o.sym"
'''),
 dict(id="s-clone-kept", property="C19", needs="a public symbol whose mangled name has a [clone ...] suffix and no dot",
      breaks="the suffixes are only removed when there is a dot in the name",
      edits=[("src/collector.rs", "        let name = Name::new(name, NameMangling::Mangled, lang);\n        let name = common::fix_symbol_name(&name);\n", "        let name = Name::new(name, NameMangling::Mangled, lang);\n        // Most of the names have nothing to fix\n        let name = if name.as_str().contains('.') {\n            common::fix_symbol_name(&name)\n        } else {\n            name\n        };\n")],
      demo=PRE + r'''
echo 'int foo(int x) { return x; }' > "$T/a.cpp"
(cd "$T" && g++ -c -fPIC a.cpp -o a.o && objcopy --redefine-sym '_Z3fooi=_Z3fooi [clone x]' a.o b.o && g++ -shared -nostdlib b.o -o a.so) || exit 0
$B "$T/a.so" -o "$T/o.sym" || exit 2
grep -qE '^PUBLIC .* foo\(int\)$' "$T/o.sym"
'''),
 dict(id="s-store-ext", property="C17", needs="a PDB whose extension isn't in lower case",
      breaks="the symbols are stored as X.PDB.sym where nobody looks for them",
      edits=[("src/utils.rs", '''if ext.to_lowercase() == "pdb" => format!''', '''if matches!(ext, "pdb" | "PDB_") => format!''')],
      demo=PRE + r'''
cp test_data/windows/dump_syms_regtest64.pdb "$T/X.PDB"
$B "$T/X.PDB" -s "$T/s" || exit 2
[ -n "$(find "$T/s/X.PDB" -name X.sym)" ]
'''),
 dict(id="s-pe-uuid", property="C18", needs="an executable next to the PDB, with the same GUID but another age (the PDB was updated)",
      breaks="the PE of another build is combined with the PDB",
      edits=[("src/windows/utils.rs", "                if &pe.debug_id() == pdb_debug_id {", "                if pe.debug_id().uuid() == pdb_debug_id.uuid() {")],
      demo=PRE + r'''
cp test_data/windows/dump_syms_regtest64.pdb "$T/x.pdb"
python3 - test_data/windows/dump_syms_regtest64.exe "$T/x.exe" <<'X' || exit 0
import sys
d = bytearray(open(sys.argv[1], "rb").read())
i = d.index(b"RSDS")
d[i + 20] += 7
open(sys.argv[2], "wb").write(d)
X
$B "$T/x.pdb" -o "$T/o.sym" || exit 2
! grep -q 'CODE_ID' "$T/o.sym"
'''),
 dict(id="s-first-cache", property="C13", needs="several servers, with the file in the cache of the second one",
      breaks="only the first cache is searched: a request is sent for a file that is available",
      edits=[("src/cache.rs", "    for cache in servers.iter().filter_map(|x| x.cache.as_ref()) {", "    let default = servers.iter().find_map(|x| x.cache.as_ref());\n    for cache in default {")],
      demo=PRE + r'''
ID=1234567890ABCDEF1234567890ABCDEF1
mkdir -p "$T/c1" "$T/c2/x.pdb/$ID"
cp test_data/windows/dump_syms_regtest64.pdb "$T/c2/x.pdb/$ID/x.pdb"
HOME="$T" timeout 60 $B x.pdb --debug-id $ID --symbol-server "srv*$T/c1*http://127.0.0.1:9/a;srv*$T/c2*http://127.0.0.1:9/b" -o "$T/o.sym" || exit 1
grep -q '^MODULE' "$T/o.sym"
'''),
 dict(id="s-not-found-page", property="C14", needs="a server that answers 200 with a not-found page that has something after the message",
      breaks="the page is stored in the cache as if it were the file",
      edits=[("src/cache.rs", '''data.starts_with(b"Symbol Not Found")''', '''data == b"Symbol Not Found"''')],
      demo=PRE + r'''
cat > "$T/srv.py" <<'X'
import http.server, sys
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        b = b"Symbol Not Found\r\n"
        self.send_response(200); self.send_header("Content-Length", str(len(b))); self.end_headers()
        if self.command == "GET": self.wfile.write(b)
    do_HEAD = do_GET
    def log_message(self, *a): pass
s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
open(sys.argv[1], "w").write(str(s.server_port))
s.serve_forever()
X
python3 "$T/srv.py" "$T/port" & P=$!
trap 'kill $P; rm -rf "$T"' EXIT
for i in $(seq 50); do [ -s "$T/port" ] && break; sleep 0.1; done
mkdir "$T/c"
HOME="$T" timeout 60 $B x.pdb --debug-id 1234567890ABCDEF1234567890ABCDEF1 --symbol-server "srv*$T/c*http://127.0.0.1:$(cat "$T/port")/a" -o "$T/o.sym" && exit 1
[ -z "$(find "$T/c" -type f)" ]
'''),
 dict(id="s-warn-stdout", property="C16", needs="path mappings that don't match some source file",
      breaks="a warning is written in the middle of the symbols on the standard output",
      edits=[("src/mapping.rs", '''        warn!("Cannot find a mapping for file {file_str}");''', '''        println!("Cannot find a mapping for file {file_str}");''')],
      demo=PRE + r'''
$B test_data/linux/basic.full --mapping-src '/nowhere/(.*)' --mapping-dest 'x{1}' > "$T/o.sym" || exit 2
head -1 "$T/o.sym" | grep -q '^MODULE'
'''),
 dict(id="s-map-name", property="C21", needs="two source files with the same name in different directories",
      breaks="the answer for a path is the one of the first file with that name",
      edits=[("src/mapping.rs", "            if let Some(cached) = cache.get(file_str) {", "            if let Some(cached) = cache.get(key) {"),
             ("src/mapping.rs", "        #[cfg(windows)]\n        let file_str = file_str.strip_prefix", "        let key = file_str.rsplit('/').next().unwrap_or(file_str);\n\n        #[cfg(windows)]\n        let file_str = file_str.strip_prefix"),
             ("src/mapping.rs", "            cache.insert(file_str.to_string(), res.clone());", "            cache.insert(key.to_string(), res.clone());")],
      demo=PRE + r'''
cat > "$T/a.c" <<X
# 1 "/x/one/util.c"
int f(int x) { return x; }
# 1 "/x/two/util.c"
int g(int x) { return x; }
X
gcc -g -shared -fPIC -nostdlib "$T/a.c" -o "$T/a.so" || exit 0
$B "$T/a.so" --mapping-src '^/x/(.*)' --mapping-dest 'm:{1}' -o "$T/o.sym" || exit 2
grep -q '^FILE [0-9]* m:one/util.c$' "$T/o.sym" && grep -q '^FILE [0-9]* m:two/util.c$' "$T/o.sym"
'''),
 dict(id="s-map-rev", property="C21", needs="two mappings without files in a mapping file, which both match",
      breaks="the last mapping of the file wins",
      edits=[("src/mapping.rs", "            for m in no_files.drain(..) {", "            while let Some(m) = no_files.pop() {")],
      demo=PRE + r'''
cat > "$T/m.json" <<'X'
{"variables": {}, "mappings": [{"source": "^/(.*)", "destination": "first:{1}", "files": []}, {"source": "^/(.*)", "destination": "second:{1}", "files": []}]}
X
echo 'int f(int x) { return x; }' > "$T/a.c"
gcc -g -shared -fPIC -nostdlib "$T/a.c" -o "$T/a.so" || exit 0
$B "$T/a.so" --mapping-file "$T/m.json" -o "$T/o.sym" || exit 2
grep -q '^FILE [0-9]* first:' "$T/o.sym"
'''),
 dict(id="s-group-cut", property="C22", needs="a path with a character of two bytes that straddles the 255th byte of a group",
      breaks="a piece of a character is put in a string without check",
      edits=[("src/mapping.rs", "                                } else {\n                                    buf.extend_from_slice(group.as_bytes());", "                                } else {\n                                    // No component is longer than that\n                                    let group = group.as_bytes();\n                                    buf.extend_from_slice(&group[..group.len().min(255)]);")],
      demo=PRE + r'''
python3 - "$T/a.c" <<'X'
import sys
open(sys.argv[1], "w").write('# 1 "/x/%s.c"\nint f(int x) { return x; }\n' % ("\u00e9" * 200))
X
gcc -g -shared -fPIC -nostdlib "$T/a.c" -o "$T/a.so" || exit 0
$B "$T/a.so" --mapping-src '^/x/(.*)' --mapping-dest 'm:{1}' -o "$T/o.sym" || exit 2
iconv -f UTF-8 -t UTF-8 "$T/o.sym" > /dev/null
'''),
 dict(id="s-arch-goes-on", property="C03", needs="--list-arch on several files, one of which isn't an object file",
      breaks="the failure is only logged and the exit status is 0",
      edits=[("src/action.rs", "                    print_macho_architectures(&buf, filename)?;", "                    if let Err(e) = print_macho_architectures(&buf, filename) {\n                        eprintln!(\"{f}: {e}\");\n                    }")],
      demo=PRE + r'''
echo hello > "$T/a"
$B --list-arch "$T/a" test_data/linux/basic.full > /dev/null 2>&1 && exit 1
exit 0
'''),
 dict(id="s-end-wraps", property="C20", needs="a function that goes beyond 4 GB",
      breaks="the end of the function overflows: the tool crashes",
      edits=[("src/line.rs", "        if let Some(function_end_rva) = sym_rva.checked_add(sym_len) {\n            if last.rva < function_end_rva {\n                last.len = function_end_rva - last.rva;\n            }\n        }", "        let function_end_rva = sym_rva + sym_len;\n        if last.rva < function_end_rva {\n            last.len = function_end_rva - last.rva;\n        }")],
      demo=PRE + r'''
cat > "$T/a.c" <<X
int f(int x) {
  x *= 3;
  x += 4;
  return x;
}
X
gcc -g -shared -fPIC -nostdlib -mcmodel=large -fno-asynchronous-unwind-tables -Wl,-Ttext=0xfffffff8 "$T/a.c" -o "$T/a.so" 2> /dev/null || exit 0
$B "$T/a.so" -o "$T/o.sym"
'''),
 dict(id="s-marker-stays", property="C11", needs="two files of one module, where one has a symbol without size at the start of a section",
      breaks="the section marker isn't replaced by the real symbol",
      edits=[("src/object_info.rs", "                        if e.get().is_synthetic {\n                            // Always replace", "                        if e.get().is_synthetic && sym.len != 0 {\n                            // Always replace")],
      demo=PRE + SAME + r'''
cat > "$T/a.s" <<X
.text
.globl real
.type real, @function
real:
 nop
 ret
X
cat > "$T/c.s" <<X
.text
 nop
 ret
.irp n, g, h, i, j, k
.globl \\n
.type \\n, @function
\\n:
 ret
.endr
X
(cd "$T" && gcc -shared -nostdlib $ID a.s -o a.so && gcc -shared -nostdlib $ID c.s -o c.so) || exit 0
for o in "a.so c.so" "c.so a.so"; do
  (cd "$T" && $B $o -j 1 -o o.sym) || exit 2
  grep -q '^PUBLIC.* real$' "$T/o.sym" || exit 1
done
'''),

 dict(id="s-first-line", property="C10", needs="a function whose first instructions have no line",
      breaks="the function is placed at the address of its first line",
      edits=[("src/collector.rs", "                rva: fun.address as u32,\n                len: fun.size as u32,", "                rva: lines.lines.first().map_or(fun.address as u32, |l| l.rva),\n                len: fun.size as u32,")],
      demo=PRE + r'''
cat > "$T/a.c" <<X
int f(int x) {
  x *= 3;
  return x + 4;
}
X
(cd "$T" && clang -g -fPIC -S a.c -o a0.s && sed 's/\(\.loc[[:space:]][0-9]*\) 1 .*/\1 0 0/' a0.s > a.s && clang -c a.s -o a.o 2> /dev/null && gcc -shared -nostdlib a.o -o a.so && nm a.so > n) || exit 0
a=$(awk '$3=="f" {sub(/^0+/, "", $1); print $1}' "$T/n")
$B "$T/a.so" -o "$T/o.sym" || exit 2
grep -q "^FUNC $a " "$T/o.sym"
'''),
 dict(id="s-fat-first", property="C23", needs="a fat binary without the requested architecture",
      breaks="another architecture is dumped instead",
      edits=[("src/mac.rs", "                .find(|o| o.arch() == arch)", "                .min_by_key(|o| o.arch() != arch)")],
      demo=PRE + FAT + r'''
$B "$T/fat" --arch arm64 -o "$T/o.sym" || exit 2
grep -q '^MODULE Mac arm64 ' "$T/o.sym" || exit 3
$B "$T/fat" --arch ppc -o "$T/p.sym" 2> /dev/null && exit 1
exit 0
'''),
 dict(id="s-several-arch", property="C15", needs="--arch with several files, one of which is a fat binary",
      breaks="the architecture is ignored when several files are given",
      edits=[("src/dumper.rs", "    let arch = Arch::from_str(config.arch)?;\n    let results", "    let arch = Arch::from_str(config.arch).and_then(|_| common::get_compile_time_arch().parse())?;\n    let results")],
      demo=PRE + FAT + r'''
$B "$T/fat" --arch arm64 -s "$T/s1" || exit 0
$B "$T/fat" test_data/linux/basic.full --arch arm64 -s "$T/s" || exit 2
grep -q '^MODULE Mac arm64 ' "$T"/s/fat/*/fat.sym
'''),

 dict(id="s-multiple-bare", property="C07", needs="two files of one module with the same function, which has no line",
      breaks="the multiple marker is missing on the functions without lines",
      edits=[("src/symbol.rs", """                "FUNC {}{:x} {:x} {:x} {}",
                if self.is_multiple {""", """                "FUNC {}{:x} {:x} {:x} {}",
                if self.is_multiple && !self.source.lines.is_empty() {""")],
      demo=PRE + SAME + r'''
echo 'int f(int x) { return x; }' > "$T/a.c"
(cd "$T" && gcc -g -fPIC -S a.c -o a0.s && grep -v '\.loc ' a0.s > a.s && gcc -shared -nostdlib $ID a.s -o a.so && cp a.so b.so) || exit 0
$B "$T/a.so" -o "$T/p.sym" || exit 2
grep -q '^FUNC [0-9a-f]* [0-9a-f]* 0 f$' "$T/p.sym" || exit 0
$B "$T/a.so" "$T/b.so" -j 1 -o "$T/o.sym" || exit 2
grep -q '^FUNC m .* f$' "$T/o.sym"
'''),
]

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A multi-file run always terminates",
 "Dumping several files ends (successfully or not) for any number of files and of jobs, including zero, and whichever file fails to be read, parsed, merged or stored, in whatever order the workers run. No worker waits forever for work that nobody will send, for room in a queue nobody will drain, or for a lock it already holds; every loop over the input advances.",
 ["schedules", "fault_sequences", "configurations"], "every interleaving of the workers, every file/worker that fails at any step (error or panic), every -j and file count",
 "The tests never dump more than two files at once, never with a failing one; the hangs need three modules with -j1, a failing input, or two workers finishing together.",
 ["src/dumper.rs", "src/collector.rs"],
 [("job channel, poison messages, atomic countdown, catch_unwind around the worker", "src/dumper.rs several_files/consumer/send_store_jobs/poison_queue")],
 [("counter", "files not processed yet; the worker that brings it to zero hands out the dumps and the poison", "src/dumper.rs consumer"), ("results", "modules by debug id", "src/dumper.rs several_files")],
 ["exit of the process"])
prop("C02", "No input's symbols are lost in a multi-file run",
 "When several files are dumped and the run succeeds, the symbols of every input file are in the output of its module: each file is processed once, merged with what is already known of its module or recorded as a new module, and every recorded module is written out once all the files are processed. This holds for every order in which the workers process the files.",
 ["schedules", "inputs"], "every interleaving of the workers and every grouping of the files into modules",
 "The tests merge one pair of files on one schedule; a lost update needs two workers between the lookup and the insertion, or a third module.",
 ["src/dumper.rs"],
 [("lookup, merge and insertion in one critical section, countdown after the insertion, drain of all the results", "src/dumper.rs consumer/send_store_jobs")],
 [("results", "modules by debug id, shared by the workers", "src/dumper.rs")], ["the .sym files"])
prop("C03", "A failure is never reported as success",
 "If an input can't be read or parsed, a mapping is invalid, two files can't be merged or an output can't be created or written, in the calling thread or in a worker, the operation returns an error (or panics) and the process exits with a non-zero status. Only the documented fallbacks (e.g. a PE without a usable PDB, a source file without mapping, one unreadable function of the debug info) are allowed to go on after a failed step.",
 ["fault_sequences", "inputs"], "every fallible call in the program, each failing on any path",
 "The tests only sample successful runs: no test injects an I/O error, a corrupt file or a full disk.",
 ["src/main.rs", "src/action.rs", "src/dumper.rs", "src/object_info.rs", "src/utils.rs", "src/cache.rs", "src/mapping.rs", "src/mac.rs"],
 [("Result propagation with ?, panics for I/O errors, exit(1) in main", "whole crate")], (), ["exit status"])
prop("C04", "Success means every requested output is completely written",
 "When a dump succeeds, each destination requested by the output configuration (file, stdout, stderr, store, or file and store) has received the whole symbol text of the module (in a file it replaces what was there), and every buffered byte has been flushed with its error checked. Nothing is written to a destination that was not requested.",
 ["fault_sequences", "configurations"], "every output configuration and every write or flush that fails",
 "No test uses a failing writer, and the outputs to a file and to a store at the same time aren't tested.",
 ["src/dumper.rs", "src/object_info.rs"],
 [("store(), get_writer_for_sym(), ObjectInfo::dump with its final flush", "src/dumper.rs, src/object_info.rs")], (), ["the outputs"])
prop("C05", "--check-cfi gates every output",
 "With the CFI check enabled, a module without any stack unwinding information is an error and no output (file, directory or stdout) is created or written for it. With the check disabled or with unwinding information present, the check never prevents the dump.",
 ["inputs", "configurations"], "every module, single file or several files, every output configuration",
 "The tests don't cover the flag at all.",
 ["src/dumper.rs", "src/object_info.rs"], [("the ensure at the head of store()", "src/dumper.rs store"), ("has_stack", "src/object_info.rs")], (), ["the outputs", "exit status"])
prop("C06", "The symbol text is a function of the inputs",
 "For the same input files and options the text written for a module is byte for byte the same on every run: it doesn't depend on hash iteration order, addresses of objects in memory, time, randomness, the process or thread ids, the environment, or the order in which the workers finish the files. This includes the numbering of the FILE and INLINE_ORIGIN records of merged modules.",
 ["histories", "configurations"], "every run (hash seeds, allocator states) on every input",
 "A test compares one run to one reference; nondeterminism shows up only for some hash seeds or allocation patterns and only when several source files are merged.",
 ["src/source.rs", "src/inline_origins.rs", "src/object_info.rs", "src/line.rs", "src/symbol.rs", "src/mapping.rs"],
 [("BTreeMap/Vec for everything that is emitted, ids in order of first use", "src/symbol.rs, src/source.rs, src/line.rs")], (), ["the .sym files"])
prop("C07", "The output always conforms to the Breakpad symbol grammar",
 "The text of a module is a MODULE record, then INFO, FILE and INLINE_ORIGIN records, then for each symbol a PUBLIC record or a FUNC record followed by its INLINE and then its line records, then the stack records; every record is on exactly one line, with its fields in the documented order, addresses and sizes in hexadecimal, and ids, depths and line numbers in decimal. Names taken from the input and the extra INFO lines are written without control characters, so that none can end or forge a record, and nothing else is left out of them, and the multiple marker 'm' is there if and only if the symbol is marked as multiple.",
 ["inputs"], "every content of the symbol tables, every name",
 "The tests compare a few reference files, which have no odd names, no empty optional field and few record shapes.",
 ["src/object_info.rs", "src/symbol.rs", "src/line.rs", "src/common.rs"],
 [("Display implementations of ObjectInfo, Symbol, Lines, Platform", "src/object_info.rs, src/symbol.rs, src/line.rs, src/platform.rs"), ("remove_control_chars, demangle_and_sanitize", "src/common.rs, src/inline_origins.rs")], (), ["the .sym files"])
prop("C08", "File ids always designate the right FILE record",
 "Every file id in a line or inline record is the number of a FILE record, and this record holds the path (mapped if a mapping applies) of the source file that the debug info gave for that line. This stays true when files are merged, whatever their number and their order, and two different source paths never share an id.",
 ["inputs", "histories"], "every set of source files and every sequence of merges",
 "The tests merge at most two files where only one has line information, and use only UTF-8 paths.",
 ["src/source.rs", "src/collector.rs", "src/symbol.rs", "src/object_info.rs"],
 [("SourceFiles::get_id/get_true_id", "src/source.rs"), ("SourceMap::merge and Symbol::remap_lines/remap_inlines", "src/source.rs, src/symbol.rs")],
 [("id_to_ref", "path of each FILE record, in order", "src/source.rs")], ["the .sym files"])
prop("C09", "Inline origin ids always designate the right INLINE_ORIGIN record",
 "Every origin id in an INLINE record is the number of an INLINE_ORIGIN record, which holds the name of the function that was inlined there. This stays true after any sequence of merges, and a function name met again gets the id it already has.",
 ["inputs", "histories"], "every inline tree and every sequence of merges",
 "No test merges two files that both have inline information.",
 ["src/inline_origins.rs", "src/collector.rs", "src/symbol.rs", "src/object_info.rs"],
 [("InlineOrigins::get_id, merge_inline_origins, Symbol::remap_inlines", "src/inline_origins.rs, src/symbol.rs")],
 [("demangled_names", "names of the INLINE_ORIGIN records, in order", "src/inline_origins.rs")], ["the .sym files"])
prop("C10", "One symbol per address, in address order, at its own address",
 "The symbols of a module are emitted in strictly increasing address order with at most one record per address, and the address and size printed are the ones the symbol was given by the debug info, symbol table or section it comes from, also after a merge.",
 ["inputs", "histories"], "every symbol table and every merge",
 "The reference files only sample sorted, consistent tables.",
 ["src/symbol.rs", "src/collector.rs", "src/object_info.rs"],
 [("Symbols is a BTreeMap keyed by the rva; each insertion uses the rva of the symbol as its key", "src/symbol.rs, src/collector.rs, src/object_info.rs")], (), ["the .sym files"])
prop("C11", "Better symbol information is never displaced by worse",
 "Functions are collected first, then exception records, symbol-table symbols and section markers. Whatever symbols are met, a function record other than a placeholder is never replaced by or dropped in favour of a public symbol, an existing real symbol is never replaced by a synthetic one while a synthetic one gives way to a real one in a merge, a public or placeholder symbol (section markers excepted) is never added inside an already known symbol, and functions at address 0 are ignored. Nothing else is dropped: a symbol-table symbol is only left out when it lies inside a known symbol, is a compiler constant, or its address already has a symbol. When a second symbol is met at an address that keeps its first one, the symbol is marked as multiple (except when the second one is synthetic, has the same name, or is the public symbol of a function of the same file).",
 ["inputs", "histories"], "every combination of functions, publics, exception data, sections and merged files",
 "The reference files hold few collisions and one merge.",
 ["src/collector.rs", "src/object_info.rs", "src/symbol.rs"],
 [("guards before each insertion into the symbol map", "src/collector.rs collect_function/collect_publics/collect_placeholder_functions, src/object_info.rs merge, src/symbol.rs add_executable_section_symbols")], (), ["the .sym files"])
prop("C12", "Line and inline ranges are sorted and sized before they are emitted",
 "Every function emitted with line or inline records has had them put in address order, with line lengths computed from the next line or from the end of that same function and adjacent inline ranges of one call coalesced, after its last line was added and before it joins the symbol table. Line lengths never depend on lines that are out of order.",
 ["inputs"], "every order of the line records in the debug info",
 "The line tables of the test files are already sorted and well formed.",
 ["src/line.rs", "src/collector.rs"],
 [("Lines::finalize (ensure_order, compute_len) called by collect_function; the are_lines_sorted flag", "src/line.rs, src/collector.rs")],
 [("are_lines_sorted", "false as soon as a line was added out of order", "src/line.rs")], ["the .sym files"])
prop("C13", "No network access unless a server is configured and nothing local matches",
 "A request is only sent when a symbol server was given on the command line or in the configuration file and the needed file is neither available locally nor in any of the configured caches. Requests only go to URLs under the configured servers, and a file found locally or in a cache is used as is.",
 ["inputs", "configurations"], "every configuration of servers and caches, every content of the file system",
 "The tests can't observe the absence of requests, and those which use a server can't run offline.",
 ["src/cache.rs", "src/dumper.rs", "src/windows/utils.rs"],
 [("search_file: caches first, then servers", "src/cache.rs"), ("get_pe_pdb_buf, get_from_id", "src/windows/utils.rs, src/dumper.rs")], (), ["HTTP requests"])
prop("C14", "The symbol cache only ever holds complete, genuine files",
 "A file appears in the cache under the name where it is looked up only once all its bytes are written, whenever the process is killed or a write fails; and only data from a successful response that isn't empty nor a not-found page is stored or returned. Data is stored at the very place (base name, id, file name in the cache of that server) where the next run looks for it.",
 ["crash_points", "fault_sequences"], "every point where the process may die or a write, flush, rename or response may fail",
 "The tests don't crash the process nor simulate HTTP errors.",
 ["src/cache.rs"], [("copy_in_cache (temporary file, flush, rename), fetch_data (error_for_status)", "src/cache.rs"), ("search_in_cache/get_jobs build the same path", "src/cache.rs")], (), ["the cache directory"])
prop("C15", "Every option takes effect, for one file or several",
 "Each command-line option sets the behaviour it documents and no other: its value, unaltered, reaches the dump of every file, whether one or several files are given (output and store, architecture, CFI check, inlines, symbol server, path mappings, number of jobs, extra INFO lines, generator line; the debug and code ids, which select a single file in a cache or on a server, only apply to a run over one file). Options not given have their documented default.",
 ["configurations"], "every combination of options and number of files",
 "The tests build the configuration by hand, mostly with default values and a single file; none goes through the command line.",
 ["src/main.rs", "src/action.rs", "src/dumper.rs", "src/windows/pdb.rs", "src/mac.rs", "src/linux.rs"],
 [("main builds the Config from the matches; single_file and several_files hand it down", "src/main.rs, src/dumper.rs")], (), ["the outputs"])
prop("C16", "Standard output only carries what was asked for",
 "Nothing but the symbol text (when stdout is the destination) or the architecture list is ever written on the standard output: logs, warnings, errors and panics go to the standard error. When the symbols of several modules go to stdout, they aren't interleaved.",
 ["inputs", "schedules"], "every input and verbosity, every interleaving of the workers",
 "The tests write to files or to memory.",
 ["src/main.rs", "src/dumper.rs", "src/mac.rs", "src/collector.rs"],
 [("TermLogger on stderr, panic hook through the logger, get_writer_for_sym with a locked stdout", "src/main.rs, src/dumper.rs")], (), ["stdout"])
prop("C17", "Symbols are stored at FILE/DEBUG_ID/FILE.sym inside the store",
 "In a symbol store, the symbols of a module are written exactly at <store>/<module name>/<debug id>/<module name, without .pdb>.sym, with the name and the id of its MODULE record (in the directory name, the extension pd_, ex_ or dl_ of a compressed file is that of the uncompressed one), and the directories are created as needed. The path never leaves the store directory, whatever the module name found in the file is.",
 ["inputs"], "every module name and id",
 "The tests don't check the store layout, nor any hostile name.",
 ["src/dumper.rs", "src/utils.rs"], [("store/sym_store_path, get_path_for_sym, get_base", "src/dumper.rs, src/utils.rs")], (), ["the store directory"])
prop("C18", "Only files of the same module are combined",
 "Information from two files (debug and stripped binaries, PE and PDB) is combined only when both carry the same debug id, and files without debug id aren't grouped together. The identity of the result (debug id, code id with its PE name, platform, architecture) is the one of the files it was made from.",
 ["inputs"], "every set of files given together or lying next to each other",
 "The tests only combine files that belong together.",
 ["src/object_info.rs", "src/dumper.rs", "src/windows/utils.rs"],
 [("ensure in ObjectInfo::merge, results keyed by debug id, find_pe_for_pdb, get_pe_pdb_buf", "src/object_info.rs, src/dumper.rs, src/windows/utils.rs")], (), ["the MODULE and INFO records"])
prop("C19", "One naming rule for functions, publics and inlines",
 "Function names, public names and inline origin names all go through the same rule: compiler suffixes (.cold, .constprop, .isra, .llvm, .localalias, .lto_priv, .part and .str, each with an optional number, and [clone ...]) are stripped from the end, whatever their number, and anonymous namespaces are written as (anonymous namespace), then the name is demangled with its parameters and without its return type. The names of C functions and the names that can't be demangled are kept as they are after that; so are the names of public symbols whose language can't be detected, untouched (on Windows, without the decoration of the calling convention, whose size of the parameters is the one of the record). A symbol without a usable name (absent or blank) is still emitted, as '<name omitted>'.",
 ["inputs"], "every name in every kind of record",
 "The tests sample a dozen names, each for one kind of record.",
 ["src/collector.rs", "src/inline_origins.rs", "src/common.rs", "src/object_info.rs"],
 [("Collector::demangle/demangle_str, InlineOrigins::demangle, common::fix_symbol_name/demangle_options", "src/collector.rs, src/inline_origins.rs, src/common.rs")], (), ["the .sym files"])
prop("C20", "Offsets, sizes and names from the input are never trusted",
 "No offset, length, index or string position that comes from an input file or a server is used to cut, index or add up without a check: malformed values are skipped or reported as errors, they don't crash the tool or wrap around (module addresses are taken modulo 2^32, as the format has it). What a malformed file lacks (an object, a section, a name, an extension) is never taken for granted either, and no memory is reserved for a 64-bit size that only the file states. Paths given on the command line are out of scope, and a message that names the file which can't be read or unpacked, and ends the run, is a report.",
 ["inputs"], "every malformed input file",
 "The tests only read well-formed files.",
 ["src/symbol.rs", "src/collector.rs", "src/line.rs", "src/utils.rs", "src/cache.rs", "src/mac.rs", "src/source.rs"],
 [("checked or saturating arithmetic, get(), starts_with before split_at", "src/symbol.rs, src/collector.rs, src/line.rs")], (), ["exit status"])
prop("C21", "Path mappings: first match wins, in the documented order",
 "A source path is rewritten by the first mapping that matches it, those of the mapping file that list files first, then the other ones of the mapping file, then those of the command line, each in the given order; variables of the command line override those of the mapping file. The new path is the destination of the mapping, where {N} stands for the N-th group of the expression, {name} for a variable, and {DIGEST} or {digest} for the SHA-512 of the file; the rest of the destination is copied as it is. A path that no mapping matches, or whose mapping fails, is kept as it is, an invalid mapping is an error, and the answer for a path never depends on the other paths mapped before.",
 ["inputs", "histories"], "every set of mappings and every sequence of paths",
 "The tests cover one mapping file and a few paths.",
 ["src/mapping.rs", "src/source.rs"],
 [("PathMappings::new/map, PathMappingGenerator::new/apply, get_variables", "src/mapping.rs"), ("fallback in SourceFiles::get_id", "src/source.rs")],
 [("cache", "results of the mappings already computed, by path", "src/mapping.rs")], ["FILE records"])
prop("C22", "No undefined behaviour: unchecked strings are really UTF-8",
 "The crate's own code can't cause undefined behaviour: the only operations the compiler doesn't check are conversions of bytes into a string, and the bytes are always valid UTF-8, whatever the mapping, the variables and the path are.",
 ["inputs"], "every mapping string, variable and path",
 "A test can't see undefined behaviour, and the tests only use ASCII.",
 ["src/mapping.rs"], [("PathMappingGenerator::new cuts the destination at braces only; apply only adds whole strings", "src/mapping.rs")], (), ["FILE records"])
prop("C23", "Each file format is handled by its own reader",
 "The format of an input is detected from its content and an ELF, Mach-O, PE or PDB file is dumped with the platform, the reader and the name rules of that format; for a fat binary the requested architecture is selected and its absence is an error; any other format is an error. A cabinet stands for the file it holds that has the name of the input. MODULE and INFO CODE_ID are taken from that object.",
 ["inputs"], "every input format and architecture",
 "No Mach-O file is in the test data that runs offline, and unknown formats aren't tested.",
 ["src/dumper.rs", "src/linux.rs", "src/mac.rs", "src/windows/pdb.rs", "src/object_info.rs"],
 [("get_object_info, from_elf, from_macho, from_pdb, from_pe, from_object", "src/dumper.rs, src/linux.rs, src/mac.rs, src/windows/pdb.rs, src/object_info.rs")], (), ["MODULE record"])
prop("C24", "Line records tile the self-code of a function exactly",
 "For any line table and inline tree, the line and innermost inline records of a function attribute every instruction to the source line the debug info gives for it.",
 ["inputs"], "every line table and inline tree",
 "The reference files sample a few functions.", ["src/collector.rs", "src/line.rs"],
 [("collect_function_with_inlines_recursive, compute_len", "src/collector.rs, src/line.rs")], (), ["line and INLINE records"])
prop("C25", "The result of a merge doesn't depend on the order of the files",
 "Dumping the same set of files gives the same modules with the same text whatever the order of the arguments and the schedule of the workers.",
 ["schedules"], "every permutation of the files and interleaving of the workers",
 "One pair in one order is tested.", ["src/object_info.rs", "src/dumper.rs"],
 [("ObjectInfo::merge", "src/object_info.rs")], (), ["the .sym files"])
prop("C26", "Time and memory stay proportional to the input",
 "Dumping a file takes time and memory bounded by a small multiple of its size.",
 ["inputs"], "every input file", "The test files are small.",
 ["src/collector.rs", "src/utils.rs", "src/symbol.rs"], [("single pass over the functions and symbols", "src/collector.rs")], (), ["resource usage"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

import sys,time,facts,interp,rules,traceback
from terms import *
p=facts.load()
roots=sys.argv[1:] or """dump_syms::dumper::store
dump_syms::dumper::consumer
dump_syms::dumper::single_file
dump_syms::dumper::several_files
<dump_syms::object_info::ObjectInfo as core::fmt::Display>::fmt
dump_syms::object_info::ObjectInfo::merge
dump_syms::object_info::ObjectInfo::from_object
dump_syms::object_info::ObjectInfo::dump
dump_syms::collector::Collector::collect_function
dump_syms::collector::Collector::collect_functions
dump_syms::collector::Collector::collect_publics
dump_syms::collector::Collector::collect_placeholder_functions
dump_syms::cache::search_file
dump_syms::cache::read_config
dump_syms::cache::get_sym_servers
dump_syms::mapping::PathMappings::new
dump_syms::mapping::PathMappings::map
dump_syms::source::SourceFiles::get_id
dump_syms::source::SourceFiles::get_true_id
dump_syms::source::SourceMap::merge
dump_syms::inline_origins::InlineOrigins::get_id
dump_syms::inline_origins::merge_inline_origins
dump_syms::symbol::Symbol::remap_lines
dump_syms::symbol::add_executable_section_symbols
dump_syms::line::Lines::finalize
dump_syms::windows::utils::get_pe_pdb_buf
dump_syms::windows::utils::find_pe_for_pdb
dump_syms::dumper::get_from_id
dump_syms::utils::read_file
dump_syms::utils::read
dump_syms::object_info::ObjectInfo::from_pdb
dump_syms::object_info::ObjectInfo::from_pe
dump_syms::mac::print_macho_architectures
bin::main
bin::action::Action::action
bin::cli""".split("\n")
for r in roots:
    t=time.time()
    I=interp.Interp(p,rules.Rule())
    try:
        res=I.root(r); n=len(res)
    except interp.Budget: n="BUDGET"
    except Exception as e:
        n="EXC "+traceback.format_exc().strip().split("\n")[-1]+" @ "+traceback.format_exc().strip().split("\n")[-3]
    print("%-75s %s exits %d steps %.1fs %d fns"%(r,n,I.steps,time.time()-t,len(I.fns_seen)),flush=True)

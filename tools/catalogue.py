P("C01", "Line records resolve every address to the debug information's line",
  "For every function in the debug information, when inline records are not requested, the line records under its FUNC record are sorted by address, do not overlap, and give every address of the function exactly the source file and line of the line-table row covering it (the call site's inside inlined code), for any address, size and line number. Addresses whose row has line 0 add no line of their own, and the FUNC record has the function's start and size.",
  ["inputs"], "all functions, row positions, line numbers, files and addresses, in ELF, Mach-O and PDB files", "tests compare a few fixed binaries; boundaries, repeated positions and large values are not among them",
  ["src/collector.rs", "src/line.rs", "src/source.rs"], [("rows become records, equal neighbours are joined", "Collector::collect_function_without_inlines"), ("lengths are inferred from the next record and the function's end", "Lines::compute_len")], ["FUNC and line records of the symbol file"])
P("C02", "Inline records reproduce the inline call stack of every address",
  "When inline records are requested, for every address of a function the INLINE records covering it are exactly one per level of the debug information's inline call stack, from depth 0 outward-in, each naming (through INLINE_ORIGIN) the inlined function and giving the file and line of its call, also when an inlined call has several pieces; the line record covering the address gives the position in the innermost frame. Every origin and file a record refers to is defined, and an inlined function has one INLINE_ORIGIN record.",
  ["inputs"], "all nestings, adjacencies, call sites and addresses", "tests compare whole outputs for two compiled programs; they do not reach calls that share a line but not a file, deep nesting, or unusual placement",
  ["src/collector.rs", "src/line.rs", "src/inline_origins.rs"], [("walks line and inline ranges together", "Collector::collect_function_with_inlines_recursive"), ("groups ranges by site", "Lines::add_inline, Lines::ensure_order"), ("numbers names", "InlineOrigins::get_id")], ["INLINE, INLINE_ORIGIN and line records"])
P("C03", "Every function and symbol gets its record, and nothing is invented",
  "The symbol file has at most one FUNC or PUBLIC record per address, in increasing address order: a FUNC record for every function with debug information (for an image without any, every function of its exception table), and a PUBLIC record for every symbol (those of a compressed symbol table in .gnu_debugdata included) that lies neither at nor inside such a function nor inside another symbol, named after a function or symbol at that address. A record is marked multiple (m) exactly when different descriptions share its address, and placeholders appear only for executable ELF sections without anything real at their start and, in PDB and PE files, right behind the last record; there are no other records.",
  ["inputs"], "all sets of functions and symbols, at any addresses and sizes", "tests use fixed binaries with ordinary symbol tables",
  ["src/collector.rs", "src/symbol.rs", "src/object_info.rs"], [("function and symbol collection", "Collector::collect_function, Collector::collect_publics"), ("containment test", "ContainsSymbol::is_inside_symbol"), ("placeholders", "add_executable_section_symbols, append_dummy_symbol")], ["FUNC and PUBLIC records"])
P("C04", "Merging the files of one module keeps all information",
  "Merging the information of several files (an image and its PDB included) with the same debug identifier, in any order and association, keeps every function with its lines, files and inlined calls unchanged (renumbered consistently), every symbol outside them, and all unwind records. A FUNC replaces a PUBLIC at its address, a placeholder never replaces a real record, a source file is listed once, the module is named after the stripped file, and an image's code identifier and name are kept. Files whose debug identifiers differ are rejected.",
  ["inputs", "histories"], "all contents of two or three files, in every order", "tests merge one debug/stripped pair",
  ["src/object_info.rs", "src/source.rs", "src/inline_origins.rs", "src/symbol.rs"], [("merge", "ObjectInfo::merge"), ("file renumbering", "SourceMap::merge, Symbol::remap_lines"), ("origin renumbering", "merge_inline_origins, Symbol::remap_inlines")], ["the merged symbol file"])
P("C05", "The FILE table maps every line record to its source file's path",
  "The FILE records are numbered from 0, hold distinct paths, and every line and INLINE record refers to a defined one whose path is that of the source file in the debug information: an absolute file name as it is, otherwise joined to its directory, which is joined to the compilation directory when it is relative (and, for files of the machine's own platform, lexically normalised when the file does not exist). A compilation directory that is not UTF-8 is read as latin-1, other names that are not UTF-8 have the bad bytes replaced, and different files are never given one record because of how their names are held in memory.",
  ["inputs"], "all names, directories and compilation directories, any number of units", "tests use source trees with ordinary relative paths",
  ["src/source.rs", "src/platform.rs", "src/utils.rs"], [("path construction and caching", "SourceFiles::get_id, SourceFiles::get_path"), ("path numbering", "SourceMap::insert")], ["FILE, line and INLINE records"])
P("C06", "Symbol names are undecorated by the platform's rules and by nothing else",
  "For Windows, a symbol NAME@@N is recorded as NAME with parameter size N, _NAME@N and @NAME@N as NAME with N, _NAME as NAME, provided N is a decimal number below 2^32, while a name with ':' or '(' and every other name is kept; string literals and floating point constants (??_C, __real@, __xmm@, __ymm@) get no record and hide nothing. A function with debug information takes the name and parameter size of the symbol at its address unless its own name has parameters. Names taken from the debug information lose exactly the suffixes compilers append (.cold, .constprop, .isra, .llvm, .localalias, .lto_priv, .part, .str, each optionally numbered, and [clone ...]), and on other platforms nothing else changes.",
  ["inputs"], "all names", "tests give about twenty names",
  ["src/symbol.rs", "src/collector.rs", "src/utils.rs", "src/inline_origins.rs"], [("decorations", "utils::get_win_name_and_param_size / symbol::Symbol"), ("suffixes", "common::fix_symbol_name")], ["names and parameter sizes of FUNC and PUBLIC records"])
P("C07", "Paths follow the conventions of the platform the file was built for",
  "A directory and a name are joined as the directory without its trailing separators, one separator, and the name without its leading separators, where the separator is '/' for Linux and macOS and, for Windows, '\\' unless the directory starts with '/'; only '/' separates on Linux and macOS, both '/' and '\\' do on Windows. A path is absolute exactly if it starts with '/' on Linux and macOS, and on Windows if its part before the first separator is empty or ends with ':'. Normalising a path removes its '.' and empty components and lets '..' remove the component before it, never the root.",
  ["inputs"], "all paths up to the bound", "tests give a handful of paths",
  ["src/platform.rs", "src/utils.rs"], [("conventions", "Platform::join_paths, Platform::is_absolute_path"), ("normalisation", "utils::normalize_path")], ["the functions' results and FILE records"])
P("C08", "Source paths are rewritten by the first mapping that applies",
  "A source path is rewritten by the first mapping that applies to it: those of the mapping file that name the file, then the mapping file's others, then the command line's, in their order; a mapping applies if its expression matches the path and every group its action uses took part in the match. The result is the action with {N} replaced by the N-th group, {NAME} by the variable (a command-line variable overriding the file's) and {digest} or {DIGEST} by the file's SHA-512 in lower or upper case; everything else in the action, unmatched braces included, is kept, and a path no mapping applies to is unchanged (nor is one whose digest is wanted but which cannot be read). An action with anything else between matching braces, an invalid expression, unequal numbers of expressions and actions, a malformed variable and a malformed mapping file are refused with an error before anything is written.",
  ["inputs"], "all actions up to the bound, every combination of mappings", "tests have about ten mappings",
  ["src/mapping.rs", "src/source.rs"], [("rules", "mapping::PathMappings::new, mapping::Mapping"), ("use", "PathMappings::map, SourceFiles::get_path")], ["the mapped path, FILE records, the error"])
P("C09", "Symbols are stored under NAME/ID/NAME.sym and nowhere else",
  "A dump with a store writes exactly one file in it, STORE/NAME/ID/SYM, where NAME is the module's name (a compressed extension .pd_, .ex_, .dl_ in any case becoming pdb, exe, dll), ID its debug identifier and SYM is NAME.sym with an extension .pdb (any case) replaced; a dump with an output file writes exactly that file. Both hold the module's whole symbol text, and nothing else is created or changed, whatever name the object file claims for itself.",
  ["inputs"], "all module names, sonames and output combinations", "tests use ordinary names and do not look for stray files",
  ["src/utils.rs", "src/dumper.rs", "src/object_info.rs"], [("store path", "utils::get_path_for_sym, utils::get_base"), ("writing", "dumper::store"), ("module name", "ObjectInfo::from_object")], ["the files present after a dump"])
P("C10", "No name in the input can break the syntax of the symbol file",
  "Whatever bytes the names in the input hold (functions, inlined functions, symbols, source files and directories, sections, the module's own name and the file's name), the symbol file has one line per record, in the record's syntax, without control characters in it, and an inlined function without a visible name is called <name omitted>; the records of everything else are as they would be with an ordinary name.",
  ["inputs"], "all byte values at the positions explored", "tests only have names a compiler wrote",
  ["src/symbol.rs", "src/object_info.rs", "src/inline_origins.rs", "src/common.rs"], [("record output", "Display for ObjectInfo, Display for Symbol")], ["the symbol file's lines"])
P("C11", "Several files are all dumped, by any number of jobs and under every schedule",
  "Dumping several files ends whatever the number of jobs and however the threads are scheduled. The store then has exactly one file per debug id among the files given, with the symbols of all the files of that id merged and no others; a file that cannot be read, recognised or stored makes the call return an error, and the other files are stored all the same.",
  ["schedules", "inputs"], "every schedule with a bounded number of preemptions, 0-3 jobs", "tests dump several files with whatever schedule happens, and never with a bad file",
  ["src/dumper.rs", "src/utils.rs"], [("workers", "dumper::consumer, dumper::send_store_jobs, dumper::several_files"), ("loading", "dumper::load, utils::try_read_file")], ["termination, the result and the files in the store"])
P("C12", "Success means all the symbols were written",
  "If dumping a file reports success, every output asked for (file, store or standard output) holds the complete symbol text, whatever creations, writes, short writes, reads and directory creations failed meanwhile; and it fails only if one of them failed.",
  ["fault_sequences", "inputs"], "every placement of a bounded number of I/O failures and short writes", "tests never make I/O fail",
  ["src/dumper.rs", "src/object_info.rs", "src/utils.rs"], [("writing", "dumper::store, ObjectInfo::dump, get_writer_for_sym"), ("reading", "utils::read_file")], ["the result and the files"])
P("C13", "A file from a symbol server or cache is the whole file a server has",
  "A search among the symbol servers of a setting (entries 'srv*CACHE*SERVER' or 'srv*SERVER', in any case, separated by ';' or newlines; other entries are ignored) gives the file CACHE/NAME/ID/FILE of the first cache that has it without asking any server, and otherwise exactly what a server answered for SERVER/NAME/ID/FILE or its compressed name, unpacked; if a server has the file (and none takes back that it has) it is found, and refusals, error pages and interrupted answers are never taken for it. What a server gave is stored, as it came, in that server's cache and nowhere else, so that the next search finds it there. However a store fails or the process is killed, a cache never holds a part of a file under its name, and a later search still gives the right file.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "every combination of answers, arrival orders, failures and crash points within the bounds", "tests that need a server are off by default and none breaks a connection or a write",
  ["src/cache.rs", "src/utils.rs"], [("setting", "cache::get_sym_servers, cache::parse_srv, cache::read_config"), ("caches", "cache::search_in_cache, cache::copy_in_cache"), ("requests", "cache::check_if_file_exists, cache::check_data, cache::fetch_data, cache::get_jobs, cache::search_file")], ["the file found, the requests made and the files in the caches"])
P("C14", "No addresses, sizes or section contents make dump_syms fail to cope",
  "Whatever addresses and sizes the symbols, functions, line tables, inlined calls and sections of an object file (ELF, PDB or PE) claim, dumping or merging does not panic or loop: it gives an error or a symbol file in which there is one FUNC or PUBLIC record per address, in increasing order, and each function's line records are in increasing order.",
  ["inputs"], "all addresses and sizes within the shapes explored", "tests only have files a linker wrote",
  ["src/symbol.rs", "src/collector.rs", "src/line.rs", "src/object_info.rs"], [("address arithmetic", "ContainsSymbol::is_inside_symbol, append_dummy_symbol, Lines::finalize, Collector::collect_function"), ("section contents", "symbol::get_compressed_minidebuginfo")], ["termination and the order of records"])
P("C15", "A file packed in a cabinet is read as that file",
  "Reading a file that is a cabinet gives the content of the cabinet's entry which has the file's name (with an extension pd_, dl_, ex_ or db_ completed to pdb, dll, exe or dbg), whatever directory the entry names and whatever other entries there are; without such an entry, or if the cabinet is cut short, nothing is given. A file that is no cabinet is read as it is, whatever its name.",
  ["inputs"], "all contents and names within the bounds", "tests have one cabinet",
  ["src/utils.rs"], [("choice of the entry", "utils::read_cabinet, utils::get_corrected_path, utils::get_cabinet_files"), ("detection", "utils::read_file, utils::read")], ["the bytes read"])
P("C16", "An image and a PDB are put together only if they are the same build",
  "A PDB is dumped with an image (.dll, .exe, compressed or not) beside it exactly if one of them has the PDB's identifier and age: that image then gives the code identifier and the unwind information, and everything else comes from the PDB. An image is dumped with the PDB of the recorded name beside it or in the current directory exactly if one of them has the image's identifier, and otherwise (or if the recorded name names no file) by itself. A file of another build is never used, and the module's identifier is always that of the file given.",
  ["inputs", "configurations"], "every presence of matching, foreign and unrelated files at the places looked at", "tests have one pair, side by side",
  ["src/dumper.rs", "src/windows/utils.rs"], [("finding the other file", "windows::utils::find_pe_for_pdb, windows::utils::get_pe_pdb_buf"), ("pairing", "dumper::get_pdb_object_info, dumper::get_pe_pdb_object_info, ObjectInfo::from_pdb")], ["MODULE, INFO, STACK and symbol records"])
P("C17", "Universal Mach-O files and dSYM bundles give the object asked for",
  "Of a universal Mach-O file exactly the object of the architecture asked for is dumped (the only one, if there is one), with its own identifier, architecture and symbols; an architecture that is not there is an error and nothing is written. Its architectures are listed completely and in order. A dSYM bundle is dumped as the one file of its DWARF directory, and any other directory is refused.",
  ["inputs", "configurations"], "every combination of up to 3 objects of 4 architectures and of bundle layouts", "tests have one file of one architecture",
  ["src/dumper.rs", "src/mac.rs", "src/utils.rs"], [("choice", "dumper::get_object_info"), ("list", "mac::print_macho_architectures"), ("bundles", "utils::get_mac_bundle")], ["the symbol file, the list, the error"])
P("C18", "The header identifies the module, and required unwind information is enforced",
  "The first record is MODULE with the platform, the architecture, the debug identifier (of ELF files the first 16 bytes of the build id, padded with zeros, as a GUID in the file's byte order, upper case, followed by the age 0; of PDB and PE files the GUID and the age in hexadecimal) and the module's name. INFO CODE_ID has the whole build id, and for an image its time stamp as eight digits, its size and its name; the INFO lines asked for follow it, in their order. With unwind information required, a file without any is refused and nothing is written; otherwise it is dumped, and unwind information appears as STACK records.",
  ["inputs"], "all build ids (lengths 1-32), GUIDs, ages, architectures and platforms", "tests compare fixed binaries",
  ["src/object_info.rs", "src/platform.rs", "src/dumper.rs"], [("header", "Display for ObjectInfo, ObjectInfo::from_object"), ("unwind check", "dumper::store")], ["MODULE, INFO and STACK records"])
P("C19", "The symbol file depends on nothing but the input",
  "Dumping the same files with the same options in the same order gives byte for byte the same symbol file on every run: the order in hash tables, which is random, and the addresses of memory have no influence on the records, their numbers or their order.",
  ["inputs", "histories"], "every iteration order of the hash tables within the bounds", "tests compare each dump once, and most of their files have a single source file",
  ["src/source.rs", "src/inline_origins.rs", "src/mapping.rs", "src/object_info.rs"], [("numbering of files", "SourceFiles::get_id, SourceMap::merge"), ("numbering of origins", "InlineOrigins::get_id, merge_inline_origins")], ["the symbol file"])
P("C20", "The options of the command line have their effects",
  "The program writes the symbols of the files given to the file of -o, to the store of -s, to both, or to the standard output (with -o - or neither), wherever the options stand, and nothing else; --inlines, --check-cfi, --arch, --mapping-var, -src, -dest and -file, --symbol-server, --debug-id and --code-id reach the dump as they are given, --list-arch lists the architectures of every file instead, and -j, --verbose and --type have no influence on the symbols. The lines of --extra-info become INFO lines in their order, followed by the generator's unless --no-generator is given; a line that is not an upper-case keyword, a space and a value is refused. The exit status is 0 exactly if everything asked for was done, and a file that could not be dumped leaves nothing behind.",
  ["inputs", "configurations"], "all combinations of the options within the bounds", "tests call the library with fixed settings; nothing runs the program",
  ["src/main.rs", "src/action.rs"], [("options", "cli, main, get_extra_info"), ("action", "Action::action, Action::single_file, Action::several_files")], ["files, standard output and exit status of the program"])
P("C21", "Mangled names are demangled",
  "A function, inlined function or symbol with a mangled C++ (Itanium or MSVC) or Rust name is recorded with its demangled name in FUNC, INLINE_ORIGIN and PUBLIC records: its scope, parameter types and qualifiers, but not its return type, after removing what compilers append to the mangled name. The name of a function of a C unit, and every name that is not mangled or cannot be demangled, is kept; in the names a PDB gives to its functions `anonymous namespace' becomes (anonymous namespace).",
  ["inputs"], "all names of the shapes explored, in every kind of record", "tests demangle one name, in one kind of record",
  ["src/collector.rs", "src/inline_origins.rs", "src/common.rs"], [("functions and symbols", "Collector::demangle, Collector::demangle_str"), ("inlined functions", "InlineOrigins::demangle"), ("options", "common::demangle_options, common::fix_symbol_name, common::normalize_anonymous_namespace")], ["names in FUNC, PUBLIC and INLINE_ORIGIN records"])

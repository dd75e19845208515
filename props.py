"""Which harness entries decide which property, with the bounds they cover."""
COMMON_ASSUMPTIONS = [
    "the LLVM IR that rustc emits for the harness, dump_syms and its dependencies (opt-level 1-2, overflow checks on in dump_syms) is what runs; every sampled path is replayed against the natively compiled code",
    "allocation never fails; HashMap seeds are fixed to one value and hash values are one constant (hash functions are replaced: any correct use of a hash table gives the same result)",
]
PROPS = {
 "C01": dict(quick=["h_lines_one", "h_lines_two", "h_lines_units", "h_lines_big", "h_lines_inl", "h_lines_many", "h_pdb_lines", "h_pdb_lines_two", "h_mach_lines"],
   bounds="1-2 units, 1-2 functions, up to 12 rows (3 fully symbolic: addresses, gaps 1-4, lines 0-9, files), high addresses/sizes up to 2^28 and lines up to 10^8 for 2 rows, one inlined call (optionally nested); PDB files with 1-2 functions of up to 3 rows; Mach-O files with one of 3 rows", outside="more rows/functions per query, overlapping functions, functions in several pieces"),
 "C02": dict(quick=["h_inl_one", "h_inl_nest", "h_inl_two", "h_inl_deep", "h_inl_chain", "h_inl_many", "h_inl_big", "h_inl_units", "h_inl_split", "h_pdb_inl", "h_mach_inl"], bounds="functions of up to 15 bytes (one of up to 2^28) with 1-4 inlined calls: one or two fully symbolic placements, nesting to depth 4 (chains of up to 12), two units, calls in 2 pieces; PDB and Mach-O files with one inlined call (of 1-2 pieces in PDBs) and one inside it", outside="more calls"),
 "C03": dict(quick=["h_syms_fs", "h_syms_pub", "h_syms_ff", "h_syms_dup", "h_syms_sect", "h_syms_wide", "h_syms_mini", "h_pdb_syms", "h_pe_syms", "h_mach_syms"], bounds="up to 2 functions and 3 symbols at symbolic addresses (spans 6-16 bytes, and up to 15 MiB for 1 function + 1 symbol or 2 symbols), duplicate descriptions, one executable section; a compressed table of 2 symbols, whole or damaged; PDB files with 2 functions (possibly empty) and 2 symbols; PE files with 2 runtime functions and 2 exports; Mach-O files with a function and 2 symbols", outside="more symbols at once; the order in which overlapping symbols hide each other"),
 "C04": dict(quick=["h_merge_two", "h_merge_inl", "h_merge_cross", "h_merge_three", "h_merge_stripped", "h_merge_placeholder", "h_merge_zero", "h_merge_pubs", "h_merge_ids", "h_merge_names", "h_merge_win"], bounds="2-3 files of up to 3 functions / 2 symbols each, symbolic addresses, lines, call lines, file and origin choices, both orders and associations; rows without a line; a function described twice against a placeholder; a PDB with a function and a symbol and an image with 1-6 runtime functions", outside="more files; Mach-O inputs"),
 "C05": dict(quick=["h_fpath_unix", "h_fpath_win", "h_fpath_host", "h_fpath_bytes", "h_fpath_latin1", "h_fpath_comp", "h_fpath_none", "h_files_table", "h_files_units", "h_files_odd", "h_pdb_path"], bounds="one file with directory of up to 3 and name of up to 2 arbitrary printable bytes (directory of 4 on the host platform), two arbitrary bytes of UTF-8 in any part; a file in its compilation directory of 1-2 (3 thorough) characters; 3 files in 3 directories used by 1-2 functions, 2 units, names that are not UTF-8 with heap addresses being reused; PDB files with a path of up to 4 (5 thorough) characters of a . / \\, optionally with a drive", outside="longer names; files without any directory; files that exist (canonicalised by the system); PDB checksums"),
 "C06": dict(quick=["h_win_any", "h_win_deco", "h_win_utf8", "h_win_not", "h_win_func", "h_win_skip", "h_suffix", "h_pdb_name"], bounds="names of up to 4 symbolic characters (letters, digits, _ @ : () and decorated names with up to 11 digits (1-3 symbolic), one two-byte character anywhere; up to 2 suffixes from the compilers' and other ones", outside="MSVC '?' names (demangled by a library), longer names"),
 "C07": dict(quick=["h_join_unix", "h_join_win", "h_join_utf8", "h_absolute", "h_normalize", "h_normalize_long"], bounds="all ASCII paths: join with up to 4 characters left and 3 right, is_absolute up to 5, normalize up to 6 and 4 components; one non-ASCII character on each side", outside="longer paths"),
 "C08": dict(quick=["h_map_template", "h_map_pieces", "h_map_order", "h_map_refused", "h_map_digest", "h_map_two"], bounds="actions of up to 5 (6 thorough) characters over { } v x 0-3, and of 3 pieces (text, groups, variables, digests, stray braces), for a regex with an optional group; up to 2 command-line mappings and 2 mappings of a file, optionally naming one or two files; two source files in one or two merged object files; fixed regular expressions and paths", outside="the regex engine itself; longer actions"),
 "C09": dict(quick=["h_store_path", "h_store_names", "h_store_soname", "h_store_soname_any", "h_store_pe", "h_store_mach"], bounds="all names of up to 6 printable ASCII characters; dumps with 9 names and sonames of up to 2 components or 2 characters of [a./], every combination of outputs; recorded PDB names of images of up to 3 (4) characters of [a./\\], install names of up to 3 (4) of [a./]", outside="longer names"),
 "C10": dict(quick=["h_odd_func", "h_odd_origin", "h_odd_file", "h_odd_dir", "h_odd_comp", "h_odd_elf", "h_odd_blank", "h_pdb_odd"], bounds="two arbitrary bytes (not NUL) inside one name at a time: function, inlined function, file, directory, compilation directory, symbol, soname, file name, section; names of inlined functions made of up to 3 blanks and letters; of PDB files function, inlined function, symbol, file", outside="string tables that are not UTF-8 (not read), Mach-O names, unwind text"),
 "C11": dict(quick=["h_sev_two", "h_sev_three", "h_sev_bad", "h_sev_store", "h_sev_create"], bounds="2-3 files with 1-3 debug ids or the same file twice, 0-3 jobs, symbols at symbolic addresses, a missing, foreign or malformed file or a directory at any position, files that cannot be stored; every choice of the next thread where one blocks or ends, and every placement of up to 3 preemptions (2 for three files, 1-2 with failures; one more each in thorough) at the atomic operations of dump_syms's code and the library code instantiated in it", outside="weak memory orderings; more preemptions; which of several waiters is woken (the first); panics of the parsing libraries inside the workers; several ids written to one output file"),
 "C12": dict(quick=["h_write_fault", "h_write_several"], bounds="one file or two by 1-2 jobs (up to 2, 3 thorough, faults); up to 3 failed or short operations (4 thorough) anywhere among open, mkdir, read, write, for texts shorter and longer than the buffer and records longer than it; files, store, both, standard output", outside="failures reported only by close; a short write always writes half"),
 "C14": dict(quick=["h_any_syms", "h_any_func", "h_any_inl", "h_any_merge", "h_any_sect", "h_any_pdb", "h_any_pe"], bounds="2 symbols with any 64-bit address and size; a function with a 2-row line table and an inlined call with addresses and sizes around 0, 2^32 and 2^64; 2 merged files around 2^32; an executable or compressed section of any address and size with 8 arbitrary bytes; a PDB function with any 32-bit offset, length and row and a symbol anywhere (around 0, 2^31 and 2^32 in quick), a PE runtime function and export anywhere", outside="panics inside the parsing libraries (malformed .eh_frame, DWARF abbreviations), Mach-O inputs"),
 "C18": dict(quick=["h_header", "h_info", "h_check_cfi", "h_pdb_header", "h_pdb_stack", "h_mach_header"], bounds="build ids of 1, 8, 15, 16, 17, 20, 32 bytes with two adjacent bytes arbitrary at any position, 3 architectures, 3 platforms; one frame description at any address and length; GUIDs with two adjacent bytes arbitrary, 7 ages, 3 machines, up to 2 frames in a 32-bit PDB or a 64-bit image at any address, any time stamp, image sizes of 4 digits; Mach-O UUIDs likewise, 4 architectures, 6 install names; up to 3 extra INFO lines with two arbitrary printable characters", outside="big-endian files"),
 "C13": dict(quick=["h_srv_cache", "h_srv_fetch", "h_srv_crash", "h_srv_setting", "h_srv_none", "h_srv_name", "h_srv_dump"], bounds="2 servers with a plain and a compressed file each: every combination of found/missing/failing/unreachable HEAD answers in 4 arrival orders, one of 6 broken GET answers at any of them; caches with the file plain, packed, absent or of another id; up to 2 failed or short operations or a crash (3 thorough) at any file system call while storing; settings with 2 entries of 6 kinds, or any 4 (5 thorough) characters of srv*; ~/ and newline; 12 file names, one symbolic byte of content; dumps by debug id, code id, both or none with the file on a server, in a cache, here or nowhere",
   outside="the HTTP client and the async runtime (replaced by stand-ins with their interface), more than 2 servers, power loss (what a crashed process wrote is kept)", assumptions=["the HTTP client (reqwest) and the runtime (tokio) are replaced by stand-ins that answer requests as the harness says, in the order it says"]),
 "C15": dict(quick=["h_cab_pick", "h_cab_not", "h_cab_cut"], bounds="cabinets of 2 stored files of 1-3 arbitrary bytes with 9 names, 11 names on disk; files of up to 5 arbitrary bytes; cabinets cut at any length, 6 odd entry names", outside="compressed folders (library code), entries with backslashes, corrupt checksums"),
 "C16": dict(quick=["h_pair_pdb", "h_pair_pe", "h_pair_srv", "h_pair_noname"], bounds="a PDB with any of 4 images beside it, each matching, of another GUID (any one byte) or age, or no image, or in a cabinet (of another file too); an image with any of 3 PDBs matching or of another GUID (one in a cabinet), 4 recorded names and 7 that name no file, and the PDB in a cache or on a server", outside="absolute recorded paths that exist"),
 "C19": dict(quick=["h_det_one", "h_det_map", "h_det_merge"], bounds="every iteration order of hash tables with up to 3 string keys (and 3 orders of the others), for an ELF file with 3 source files, 3 inlined calls and 3 symbols, with mappings, and for two merged files of which one brings 2-3 new source files", outside="the order in which several jobs load the files of one module; hash tables of the parsing libraries"),
 "C17": dict(quick=["h_fat", "h_fat_list", "h_bundle"], bounds="1-3 objects among 4 architectures, thin or universal, any architecture asked for; bundles with 0-2 files, with or without the DWARF directory", outside="32-bit Mach-O, archives in universal files"),
 "C21": dict(quick=["h_dem", "h_dem_not", "h_dem_pdb", "h_dem_anon"], bounds="19 shapes of mangled names of C++ (Itanium: free and member functions, anonymous namespaces, templates, operators, constructors, lambdas, thunks, substitutions; MSVC) and Rust (legacy and v0) with any letter in them, 3 compiler suffixes, in functions, inlined functions and symbols of C, C++ and Rust units; 10 shapes of names that are not mangled; PDB files with 4 mangled symbols and 5 names of functions", outside="the demangling libraries' handling of other names; Swift and Objective-C"),
 "C20": dict(quick=["h_cli_out", "h_cli_info", "h_cli_arch", "h_cli_map", "h_cli_many", "h_cli_srv"], bounds="6 spellings of the output, 4 of the store, with and without --inlines, --check-cfi, --no-generator, the file before or after the options, present or not, with and without unwind information, any line and address in a small range; extra INFO lines of up to 3 characters out of 6 among up to 2 others; universal files of 2 out of 4 architectures, any asked for, in 3 spellings, or listed, 1 or 2 files; up to 2 mappings, 2 variables and a file of mappings; 2 or 3 files, 4 ways to give the number of jobs; 4 combinations of identifiers, with the setting given, at home, both or neither", outside="logging (simplelog is replaced by a stand-in that drops messages), the texts of help and error messages, preemption of the worker threads (see C11)"),
}
REACH = {"h_syms_mini": ["symbols", "damaged", "end"], "h_odd_blank": ["omitted", "end"], "h_merge_win": ["same", "end"], "h_store_pe": ["none", "end"], "h_store_mach": ["none", "end"], "h_cli_out": ["dumped", "failed", "end"], "h_cli_info": ["valid", "refused"], "h_cli_arch": ["list", "none", "one"], "h_cli_many": ["end", "failed"], "h_cli_srv": ["nowhere", "found"], "h_write_fault": ["end", "error", "tolerated"], "h_write_several": ["end", "error"], "h_check_cfi": ["end", "refused"], "h_map_template": ["mapped", "refused"], "h_map_pieces": ["mapped", "refused"], "h_any_func": ["end", "func"], "h_any_sect": ["end", "ok"],
 "h_pdb_inl": ["end", "nested"], "h_pdb_syms": ["end", "inside"], "h_pdb_header": ["end", "alone"], "h_pdb_stack": ["end", "refused", "the PDB's", "the image's"], "h_merge_zero": ["end", "unused"], "h_fpath_none": ["end", "absolute"], "h_srv_cache": ["end", "cached"], "h_srv_fetch": ["end", "none", "found", "again"], "h_srv_crash": ["end", "survived", "died", "stored", "not stored"], "h_srv_none": ["end", "some"],
 "h_cab_pick": ["found", "missing", "end"], "h_cab_cut": ["refused", "as it is", "end"], "h_pair_pdb": ["none", "paired"], "h_pair_pe": ["none", "paired"], "h_srv_dump": ["missing", "by id", "local"], "h_pair_srv": ["found", "none"], "h_mach_inl": ["end", "nested"], "h_mach_syms": ["end", "inside"], "h_fat": ["one", "none"], "h_bundle": ["bundle", "none"]}
THREADS = {"h_map_two", "h_sev_two", "h_sev_three", "h_sev_bad", "h_sev_store", "h_sev_create", "h_write_several", "h_cli_many"}
MAY_PANIC = {"h_write_fault", "h_write_several"}
RETRY = {"h_det_one": 16, "h_det_map": 16, "h_det_merge": 16}  # natively, std hash tables are keyed at random: several runs are needed to see an order change

#[macro_use]
mod reg {
    #[macro_export]
    macro_rules! harness { ($n:ident, $b:block) => { #[no_mangle] #[inline(never)] pub extern "C" fn $n() { $b } }; }
}
mod sym;
mod elf;
mod lines;
mod inl;
mod merge;
mod syms;
mod paths;
mod names;
mod store;
mod robust;
mod mapping;
mod several;
mod win;
mod windows;
mod srv;
mod cabs;
mod mach;
mod det;
mod dem;
#[cfg(feature = "cli")]
mod cli;
macro_rules! table { ($($m:ident :: $n:ident),* $(,)?) => { static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $m::$n)),*]; } }
table!(paths::h_fpath_comp, paths::h_fpath_none, windows::h_merge_win, mach::h_store_mach, windows::h_store_pe, windows::h_pair_noname, mapping::h_map_two, names::h_odd_blank, syms::h_syms_mini, inl::h_inl_chain, dem::h_dem_pdb, dem::h_dem_anon, dem::h_dem, dem::h_dem_not, det::h_det_merge, det::h_det_one, det::h_det_map, windows::h_pair_srv, srv::h_srv_dump, mach::h_mach_lines, mach::h_mach_inl, mach::h_mach_syms, mach::h_mach_header, merge::h_merge_names, windows::h_pdb_lines, windows::h_pdb_lines_two, windows::h_pdb_inl, windows::h_pdb_syms, windows::h_pe_syms, windows::h_pdb_path, windows::h_pdb_name, windows::h_pdb_odd, windows::h_any_pdb, windows::h_any_pe, windows::h_pdb_header, windows::h_pdb_stack, windows::h_pair_pdb, windows::h_pair_pe, several::h_sev_two, several::h_sev_three, several::h_sev_bad, several::h_sev_store, several::h_sev_create, several::h_write_several, robust::h_any_syms, robust::h_any_func, robust::h_any_inl, robust::h_any_merge, robust::h_any_sect, mapping::h_map_template, mapping::h_map_pieces, mapping::h_map_order, mapping::h_map_refused, mapping::h_map_digest, store::h_store_names, store::h_store_soname, store::h_store_soname_any, store::h_write_fault, store::h_header, store::h_info, store::h_check_cfi,
    names::h_win_any, names::h_win_deco, names::h_win_utf8, names::h_win_not, names::h_win_func, names::h_win_skip, names::h_suffix, names::h_odd_func, names::h_odd_origin, names::h_odd_file, names::h_odd_dir, names::h_odd_comp, names::h_odd_elf, paths::h_join_unix, paths::h_join_win, paths::h_join_utf8, paths::h_absolute, paths::h_normalize, paths::h_normalize_long, paths::h_fpath_unix, paths::h_fpath_win, paths::h_fpath_host, paths::h_fpath_bytes, paths::h_fpath_latin1, paths::h_files_table, paths::h_files_units, paths::h_files_odd, paths::h_store_path, lines::h_lines_one, lines::h_lines_two, lines::h_lines_units, lines::h_lines_big, lines::h_lines_inl, inl::h_inl_one, inl::h_inl_nest, mach::h_fat, mach::h_fat_list, mach::h_bundle, cabs::h_cab_pick, cabs::h_cab_not, cabs::h_cab_cut, srv::h_srv_name, srv::h_srv_cache, srv::h_srv_fetch, srv::h_srv_crash, srv::h_srv_setting, srv::h_srv_none, inl::h_inl_two, inl::h_inl_split, inl::h_inl_deep, inl::h_inl_many, inl::h_inl_big, inl::h_inl_units, lines::h_lines_many, syms::h_syms_wide,
    syms::h_syms_fs, syms::h_syms_pub, syms::h_syms_ff, syms::h_syms_dup, syms::h_syms_sect,
    merge::h_merge_two, merge::h_merge_inl, merge::h_merge_cross, merge::h_merge_three, merge::h_merge_stripped, merge::h_merge_placeholder, merge::h_merge_zero, merge::h_merge_pubs, merge::h_merge_ids);
#[cfg(feature = "cli")]
static CLI: &[(&str, extern "C" fn())] = &[("h_cli_out", cli::h_cli_out), ("h_cli_info", cli::h_cli_info), ("h_cli_arch", cli::h_cli_arch), ("h_cli_map", cli::h_cli_map), ("h_cli_many", cli::h_cli_many), ("h_cli_srv", cli::h_cli_srv)];
#[cfg(not(feature = "cli"))]
static CLI: &[(&str, extern "C" fn())] = &[];
fn main() {
    let a: Vec<String> = std::env::args().collect();
    for (n, f) in TABLE.iter().chain(CLI) { if *n == a[1] { f(); return; } }
    std::process::exit(64);
}

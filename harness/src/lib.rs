#![allow(clippy::all, dead_code)]
#[macro_use]
pub mod sym;

/// `harness!{ name => { body } }`: an entry point of the engine and of the native replay.
#[macro_export]
macro_rules! harness {
    ($($name:ident => $body:block)*) => {
        $(
            #[no_mangle]
            pub fn $name() $body
        )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
pub fn find(n: &str) -> Option<fn()> {
    for t in TABLES {
        for (k, f) in t.iter() {
            if *k == n {
                return Some(*f);
            }
        }
    }
    None
}
#[no_mangle]
pub extern "C-unwind" fn sym_panic_entry() {
    std::panic::resume_unwind(Box::new(()))
}
pub mod db;
pub mod row;
pub mod vfs;
macro_rules! mods {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        pub const TABLES: &[&[(&str, fn())]] = &[$($m::TABLE),*];
    };
}
mods!(h_smoke h_smoke2 h_types h_page h_lruk h_bpm h_cache h_disk h_io h_wal h_recov h_lock h_mvcc h_tree h_hash h_expr h_exec h_dml h_index h_catalog h_plan h_conc h_ddl h_quant h_date h_text);

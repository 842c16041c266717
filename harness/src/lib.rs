//! Harnesses: each entry makes inputs symbolic, runs the library and states
//! what must hold. `param(0)` selects an instance; bounds are in each entry.
#![allow(bare_trait_objects)]
#[macro_use]
extern crate flatdata;
#[macro_use]
pub mod sx;
pub mod bits;
#[macro_use]
pub mod rec;
pub mod view;
pub mod ext;
pub mod res;
pub mod fault;
pub mod stor;
pub mod arch;
pub mod show;
pub mod nest;
pub mod big;
pub mod bound;
pub mod huge;
pub mod err;
pub mod count;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        /// Entries by name.
        pub static TABLE: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}
table! {
    count::c05_count, count::c06_count, count::c07_count, count::c08_count, count::c09_count, count::c10_count, count::c11_count, count::c12_count, count::c15_count, count::c19_count, count::c20_count, count::c22_count, arch::c18_count,
    huge::c05_wide, huge::c06_huge, huge::c08_huge, huge::c09_huge, huge::c10_huge, huge::c11_huge, huge::c12_huge,
    nest::c17_again, stor::c15_names, bound::c24_vector, bound::c24_multi, show::c22_long, big::c09_limit, big::c09_item,
    err::c23_read, err::c23_write, err::c23_large, err::c23_archive, err::c23_text,
    nest::c17_nested, nest::c18_nested,
    big::c06_big, big::c07_big, big::c07_whole, big::c10_big, big::c05_big, big::c05_whole, big::c08_many, big::c09_many, big::c08_once,
    bits::c01_roundtrip, bits::c02_write, bits::c02_read, bits::c03_write, bits::c03_read, bits::c03_short,
    rec::c04_setters, rec::c04_copies, rec::c04_compares, rec::c04_standalone, rec::c04_enums,
    rec::c05_history, rec::c05_huge, rec::c05_index, rec::c05_many,
    view::c06_at, view::c06_slice, view::c07_iterate, view::c07_slices,
    view::c10_at, view::c10_slice, view::c10_iterate, view::c10_records,
    ext::c08_small, ext::c08_large, ext::c08_two,
    ext::c09_small, ext::c09_zero, ext::c09_large, ext::c09_mixed,
    res::c11_open, res::c11_stored, res::c11_long, res::c11_again, res::c11_far,
    res::c12_plain, res::c12_schemas, res::c12_sizes, res::c12_vector, res::c12_multi, res::c12_offsets,
    res::c20_diff,
    res::c20_lines, res::c20_far, res::c20_wide,
    fault::c13_files, fault::c13_streams, fault::c13_open, fault::c13_stats, fault::c13_replace, fault::c14_files, fault::c14_replace, fault::c19_drop, fault::c19_closed,
    stor::c15_history, stor::c15_dirs, stor::c15_many, stor::c15_typed, stor::c16_dirs, stor::c16_root, stor::c16_replace,
    stor::c21_slices, stor::c21_rewrite, stor::c21_many, stor::c21_times, stor::c15_times, stor::c21_descriptor, stor::c21_release,
    arch::c17_damage, arch::c17_pairs, arch::c17_subsets, arch::c17_create,
    show::c22_record, show::c22_arrays, show::c22_multi, show::c22_writers, show::c22_large, show::c22_archive,
    arch::c12_archive, arch::c18_orders, arch::c18_together, arch::c18_large, arch::c18_lifetime, arch::c13_archive,
}

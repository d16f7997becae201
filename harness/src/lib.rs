#![allow(clippy::all)]
//! Harnesses for symbolic execution (see ../engine) and native replay (see ../runner).
//! Each entry below is one query set: a harness with its bounds. ../check.py says which entries decide which property.
pub mod api;
pub mod args;
pub mod big;
pub mod capture;
pub mod convert;
pub mod core;
pub mod graphs;
#[cfg(fpv)]
pub mod hooks;
pub mod input;
pub mod multi;
pub mod plain;
pub mod reuse;
pub mod selftest;
pub mod structure;
pub mod values;
pub mod work;
use crate::core::*;
use args::*;
use convert::*;
use graphs::*;
use input::*;
use multi::*;
use plain::*;
use reuse::*;
use structure::*;
use values::*;
#[cfg(fpv)]
use hooks::*;

macro_rules! harnesses {
    ($table:ident: $($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        fn $table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($name), { fn f() { $body } f as fn() }),)*]
        }
    };
}
harnesses! { table_pub:
    self_ok_float => selftest::ok_float();
    self_ok_float_arith => selftest::ok_float_arith();
    self_ok_arith => selftest::ok_arith();
    self_ok_sort => selftest::ok_sort();
    self_ok_text => selftest::ok_text();
    self_ok_try => selftest::ok_try();
    self_bad_try => selftest::bad_try();
    self_ok_map => selftest::ok_map();
    self_bad_float_round => selftest::bad_float_round();
    self_bad_float_cmp => selftest::bad_float_cmp();
    self_bad_float_mul => selftest::bad_float_mul();
    self_bad_add => selftest::bad_add();
    self_bad_trunc => selftest::bad_trunc();
    self_bad_rare => selftest::bad_rare();
    self_bad_index => selftest::bad_index();
    self_bad_sort => selftest::bad_sort();
    self_bad_text => selftest::bad_text();
    self_bad_panic => selftest::bad_panic();
    self_bad_loop => selftest::bad_loop();
    work_comb => work::scale(0, 1500, 15000, 1000000, 10, 14, 0, 45);
    work_ladder => work::scale(1, 600, 6000, 1000000, 10, 14, 0, 60);
    work_tree => work::scale(2, 2000, 20000, 1000000, 10, 14, 3, 32);
    work_grid => work::scale(3, 12, 24, 1000000, 4, 12, 4, 90);
    work_blocks => work::scale(4, 12, 24, 1000000, 4, 16, 4, 90);
    work_blocks7 => work::scale(4, 5, 7, 1, 2, 6, 3, 60);
    work_tree60 => work::scale(2, 30, 60, 1, 2, 4, 3, 40);
    work_grid7 => work::scale(3, 5, 7, 1, 2, 6, 3, 80);
    c04_bad3 => c04_bad(graphs_upto(3, 3));
    c04_bad4 => c04_bad(graphs_upto(4, 2));
    big_limits6 => big::limits(6);
    big_limits8 => big::limits(8);
    big_lists70 => big::lists(70000);
    c08_hub50 => c08_shape(0, 50);
    c08_grid8 => c08_shape(1, 8);
    c08_grid12 => c08_shape(1, 12);
    c08_chain80 => c08_shape(2, 80);
    c08_chain150 => c08_shape(2, 150);
    c08_dense12 => c08_shape(3, 12);
    c09_grid8 => c09_shape(8);
    c09_grid16 => c09_shape(16);
    c10_big70 => c10_big(70000);
    c11_long80 => c11_long(80, 6);
    c11_long300 => c11_long(300, 4);
    big_input70 => big_input(70000);
    c14_big70 => c14_big(70000);
    c22_2 => c22(2);
    c22_special => plain::c22_special();
    c22_q3 => c22_query(all_graphs(3));
    c22_q4 => c22_query(graphs_upto(4, 4));
    c23_n3 => c23(graphs_upto(3, 4));
    c23_n4 => c23(graphs_upto(4, 3));
    c23_multi3 => c23_multi(graphs_upto(3, 2));
    c23_len3 => c23_len(graphs_upto(3, 3), 5);
    big_forms16 => c23_grid(16);
    big_nested3000 => big::nested(3000, &[5, 6, 7, 8, 1, 2]);
    big_nested1000 => big::nested(1000, &[0, 4]);
    big_flat600 => big::flat(600, &[0, 1, 2]);
    self_ok_deep => selftest::ok_deep();
    self_bad_deep => selftest::bad_deep();
    self_ok_threads => selftest::ok_threads();
    self_ok_threads_local => selftest::ok_threads_local();
    self_bad_threads => selftest::bad_threads();
    self_bad_threads_lock => selftest::bad_threads_lock();
    c01_n3 => c01(all_graphs(3));
    c01_n4_4 => c01(graphs_upto(4, 4));
    c01_n4_5 => c01(graphs_upto(4, 5));
    c01_n4_6 => c01(graphs_upto(4, 6));
    c01_n4_7 => c01(graphs_upto(4, 7));
    c01_n4 => c01(all_graphs(4));
    c01_n5_4 => c01(graphs_upto(5, 4));
    c01_n5_5 => c01(graphs_upto(5, 5));
    c01_cycle5 => c01(bidir(5, CYCLE5));
    c01_chain6 => c01(bidir(6, CHAIN6));
    c01_k4 => c01(bidir(4, K4));
    c01_star5 => c01(bidir(5, STAR5));
    c01_grid6 => c01(bidir(6, GRID6));
    c01_wheel5 => c01(bidir(5, WHEEL5));
    c01_diamonds7 => c01(topo(7, DIAMONDS7));
    c01_all3 => c01_all(all_graphs(3));
    c01_mid8 => c01_mid(8, 16, 2, 3);
    c01_mid12 => c01_mid(12, 26, 2, 2);
    c01_mid20 => c01_mid(20, 50, 1, 2);
    c01_mid30 => c01_mid(30, 80, 1, 4);
    big_chain60 => big::chain(60, &[0, 1, 4, 5, 6], 1);
    big_chain1000 => big::chain(1000, &[0, 1, 2, 4, 5, 6], 1000000);
    big_chain3000 => big::chain(3000, &[0, 1, 2, 5, 6], 1000000);
    big_grid8 => big::grid(8, 8, &[0, 3], 1, WMAX);
    big_grid12 => big::grid(12, 12, &[0, 3], 1, WMAX);
    big_grid16 => big::grid(16, 16, &[0], 1, WMAX);
    big_grid30 => big::grid(30, 30, &[0, 3], 1000000, WMAX);
    big_grid50 => big::grid(50, 50, &[0], 1000000, WMAX);
    big_pairs70 => big::pairs(140000);
    big_bytes32 => big_bytes(140000, true);
    big_bytes64 => big_bytes(140000, false);
    c03_list300 => c03_long(8, 16, 300, 1);
    c10_long400 => c10_long(400, 3);
    c15_long300 => c15_long(300);
    big_complete16 => big::complete(16, &[0, 1]);
    big_complete24 => big::complete(24, &[0]);
    big_hub60 => big::hub(60, &[0, 1], 1);
    big_hub300 => big::hub(300, &[0], 1000000);
    c01_big66 => c01_big(66000, 1);
    c01_wheel24 => c01_wheel(24, 1, false);
    c01_wheel40 => c01_wheel(40, 1, false);
    c01_wheel40_order => c01_wheel(40, 1, true);
    c02_chain100 => c02_chain(100, 1);
    c02_chain300 => c02_chain(300, 1);
    c02_chain12 => c02_chain(12, 3);
    c02_chain24 => c02_chain(24, 2);
    c02_chain60 => c02_chain(60, 2);
    c03_n3_11 => c03(all_graphs(3), 1, 1, false);
    c03_n3_21 => c03(graphs_upto(3, 3), 2, 1, true);
    c03_n3_12 => c03(graphs_upto(3, 3), 1, 2, true);
    c03_n3_22 => c03(graphs_upto(3, 2), 2, 2, true);
    c03_n3_22b => c03(graphs_upto(3, 3), 2, 2, false);
    c03_n3_31 => c03(graphs_upto(3, 2), 3, 1, false);
    c03_n3_13 => c03(graphs_upto(3, 2), 1, 3, false);
    c03_n4_11 => c03(graphs_upto(4, 4), 1, 1, false);
    c03_n4_21 => c03(graphs_upto(4, 3), 2, 1, false);
    c03_n4_22 => c03(graphs_upto(4, 3), 2, 2, false);
    c03_heavy3 => c03_heavy(3, true);
    c03_heavy4 => c03_heavy(4, false);
    c03_order3 => c03_order(graphs_upto(3, 2), 2, 1);
    c03_mid8 => c03_mid(8, 16, 0, 3, 2, 3);
    c03_mid20 => c03_mid(20, 50, 0, 3, 3, 3);
    c03_long30 => c03_long(8, 16, 30, 1);
    c03_long40 => c03_long(8, 16, 40, 2);
    c04_n3 => c04(all_graphs(3));
    c04_n3_default => c04_default(all_graphs(3));
    c04_n4_4 => c04(graphs_upto(4, 4));
    c04_n4_5 => c04(graphs_upto(4, 5));
    c04_n4_4_default => c04_default(graphs_upto(4, 4));
    c04_len3 => c04_len(graphs_upto(3, 3), 5);
    c04_mid8 => c04_mid(8, 16, 2, 3);
    c04_mid12 => c04_mid(12, 26, 1, 3);
    c05_limits3 => c05_limits(all_graphs(3));
    c05_limits4_4 => c05_limits(graphs_upto(4, 4));
    c05_limits4_5 => c05_limits(graphs_upto(4, 5));
    c05_factors3 => c05_factors(graphs_upto(3, 4), 12, 12);
    c05_factors4 => c05_factors(graphs_upto(4, 4), 4, 3);
    c05_mid8 => c05_mid(8, 16, 1, 2);
    c05_mid12 => c05_mid(12, 26, 1, 2);
    c06_3_2 => c06(graphs_upto(3, 4), 2);
    c06_3_3 => c06(graphs_upto(3, 3), 3);
    c06_4_2 => c06(graphs_upto(4, 3), 2);
    c06_multi_a => c06_multi(graphs_upto(3, 3), true);
    c06_multi_b => c06_multi(graphs_upto(3, 3), false);
    c06_switch3 => c06_switch(graphs_upto(3, 2), graphs_upto(3, 2));
    c06_many300 => c06_many(300);
    c06_many66000 => c06_many(66000);
    c06_refused3 => c06_refused(graphs_upto(3, 3), 6);
    c06_refused4 => c06_refused(graphs_upto(4, 3), 2);
    c06_fresh700 => c06_fresh(700);
    c06_mid8 => c06_mid(8, 18, 2, 3);
    c06_mid14 => c06_mid(14, 34, 2, 3);
    c07_n3 => c07(graphs_upto(3, 4), graphs_upto(3, 1));
    c07_n4 => c07(graphs_upto(4, 4), G { n: 4, e: vec![(3, 0, 1), (0, 2, 4)] });
    c07_order3 => c07_order(all_graphs(3));
    c07_order4 => c07_order(graphs_upto(4, 4));
    c07_mid10 => c07_mid(10, 22, 2, 3);
    c07_mid30 => c07_mid(30, 80, 0, 4);
    c07_big66 => c07_big(66000);
    c08_n4_any => c08(graphs_upto(4, 4));
    c08_n4_any3 => c08(graphs_upto(4, 3));
    c08_n3 => c08(graphs_upto(3, 4));
    c08_n3_default => c08_default(all_graphs(3));
    c08_n4_4 => c08_default(graphs_upto(4, 4));
    c08_n4_6 => c08_default(graphs_upto(4, 6));
    c08_cycle5 => c08_default(bidir(5, CYCLE5));
    c08_star5 => c08_default(bidir(5, STAR5));
    c08_mid10 => c08_mid(10, 22, 2, 2);
    c08_mid24 => c08_mid(24, 60, 1, 2);
    c09_n3 => c09(graphs_upto(3, 3), 4);
    c09_n4 => c09(graphs_upto(4, 4), 1);
    c09_dups3 => c09_dups(graphs_upto(3, 3));
    c09_star5 => c09(bidir(5, STAR5), 1);
    c09_k4 => c09(bidir(4, K4), 1);
    big_around20 => c09_hub(20);
    big_fan80 => c09_fan(80, 6);
    big_fan150 => c09_fan(150, 8);
    big_fan400 => c09_fan(400, 5);
    big_around44 => c09_hub(44);
    c09_mid10 => c09_mid(10, 24, 1, 2);
    c09_mid20 => c09_mid(20, 60, 0, 3);
    c10_2_3 => c10(2, 3);
    c10_3_3 => c10(3, 3);
    c10_3_4 => c10(3, 4);
    c10_4_3 => c10(4, 3);
    c10_ids2 => c10_ids(2);
    c10_ids3 => c10_ids(3);
    c10_long40 => c10_long(40, 3);
    c11_2_4 => c11(2, 4);
    c11_2_5 => c11(2, 5);
    c11_2_6 => c11(2, 6);
    c11_3_4 => c11(3, 4);
    c11_thaw3 => c11_thaw(graphs_upto(3, 3), 4);
    c12_n3 => c12(graphs_upto_w(3, 4, 1, 1 << 34), 0);
    c12_n3_lim => c12(graphs_upto_w(3, 3, M32 / 2 - 1, M32 + 1), 1);
    c12_n4_small => c12(graphs_upto_w(4, 4, 1, 1 << 29), 0);
    c12_n4_half => c12(graphs_upto_w(4, 3, M32 / 2 - 1, M32 / 2 + 2), 0);
    c12_contents => c12_any();
    c12_mid12 => c12_mid(12, 26);
    c13_fast3 => c13_fast(graphs_upto(3, 4));
    c13_fast4 => c13_fast(graphs_upto(4, 4));
    c13_input2 => c13_input(2, 2);
    c13_input3 => c13_input(3, 2);
    c13_input3_3 => c13_input(3, 3);
    c13_mid12 => c13_mid(12, 26, 1);
    c14_roundtrip3 => c14_roundtrip(3, 2, 3);
    c14_roundtrip3w => c14_roundtrip(3, 2, 20);
    c14_roundtrip4 => c14_roundtrip(4, 3, 2);
    c14_edge_small => c14_edge(2, 20);
    c14_edge_wide => c14_edge(20, 20);
    c14_big400 => c14_big(400);
    c14_full1 => c14_full(1);
    c14_full2000 => c14_full(2000);
    c14_limit0 => c14_limit(0, 16);
    c14_limit3 => c14_limit(3, 64);
    c14_limit2000 => c14_limit(2000, 12);
    c14_open => c14_unfrozen();
    c14_dimacs2 => c14_dimacs(2, 3);
    c14_dimacs3 => c14_dimacs(3, 3);
    c14_dimacs4 => c14_dimacs(4, 2);
    c14_wide12 => c14_wide(12);
    c14_wide20 => c14_wide(20);
    c14_text1 => c14_text(1);
    c14_text2 => c14_text(2);
    val_copies2 => copies(2, 2);
    val_copies3 => copies(3, 1);
    val_copies3_2 => copies(3, 2);
    val_apart3 => apart(graphs_upto(3, 3));
    val_apart4 => apart(graphs_upto(4, 3));
    val_apart8 => apart(seeded(8, 18, 1, api::param()));
    val_apart12 => apart(seeded(12, 26, 1, api::param()));
    mem_n8 => memory(seeded(8, 18, 1, api::param()), 6);
    mem_cycle4 => memory(bidir(4, &[(0, 1), (1, 2), (2, 3), (3, 0)]), 4);
    mem_chain30 => memory(one_weight_chain(30), 3);
    mem_size100 => memory_size(100, 6, 1);
    mem_size1000 => memory_size(1000, 10, 1 << 30);
    c15_ids3 => c15_ids(graphs_upto(3, 3));
    c15_lists3 => c15_lists(graphs_upto(3, 2), 2);
    c15_lists2 => c15_lists(graphs_upto(2, 2), 3);
    c15_size3 => c15_size(graphs_upto(3, 3), 5);
    c15_switch3 => c15_switch(graphs_upto(3, 2), graphs_upto(3, 2));
    c15_switch4 => c15_switch(graphs_upto(4, 2), graphs_upto(3, 2));
    c15_long12 => c15_long(12);
    c15_long40 => c15_long(40);
    c16_dag3 => c16_dag(3, false);
    c16_dag4 => c16_dag(4, false);
    c16_dag3_order => c16_dag(3, true);
    c16_dag4_order => c16_dag(4, true);
    c16_n3 => c16(3, 3);
    c16_n3_4 => c16(3, 4);
    c16_n4 => c16(4, 3);
    c16_heavy_chain => c16_heavy(&[(0, 1), (1, 2), (2, 3), (3, 0), (1, 0), (2, 1)], 4, false);
    c16_heavy_order => c16_heavy(&[(0, 1), (1, 2), (2, 3), (3, 0), (1, 0), (2, 1)], 4, true);
    c16_gaps6 => c16_gaps(6);
    c16_empty0 => c16_empty();
    c19_n3 => c19(graphs_upto(3, 3), 1);
    c19_n3_2 => c19(graphs_upto(3, 2), 2);
    c19_n4 => c19(graphs_upto(4, 3), 1);
    c19_types => reuse::c19_types_();
    c19_par3 => c19_par(graphs_upto(3, 3), 1, api::flip());
    c19_par3_2 => c19_par(graphs_upto(3, 2), 2, api::flip());
    c19_par4 => c19_par(graphs_upto(4, 3), 1, api::flip());
    c19_multi3 => c19_multi(graphs_upto(3, 2));
    c19_mid8 => c19_mid(8, 16, 2, 3, 4);
    c19_mid20 => c19_mid(20, 45, 1, 4, 4);
    c19_prep3 => c19_prepare(graphs_upto(3, 3), graphs_upto(3, 2));
}
#[cfg(fpv)]
harnesses! { table_hooks:
    c06_flags3 => c06_flags(3, 6);
    c06_flags4 => c06_flags(4, 7);
    c06_age3 => c06_age(graphs_upto(3, 3), 4);
    c06_age4 => c06_age(graphs_upto(4, 3), 3);
    c17_hub40 => c17_hub(40);
    c17_mid30 => c17_mid(30, 90, 1, 2);
    c18_grid8 => c18_grid(8);
    c18_grid16 => c18_grid(16);
    c17_n3 => c17(all_graphs(3), 2);
    c17_n4_4 => c17(graphs_upto(4, 4), 1);
    c17_n4_5 => c17(graphs_upto(4, 5), 2);
    c17_n4_7 => c17(graphs_upto(4, 7), 1);
    c17_k4 => c17(bidir(4, K4), 2);
    c17_star5 => c17(bidir(5, STAR5), 1);
    c17_reduce3 => c17_reduce(3, 3);
    c17_reduce3_4 => c17_reduce(3, 4);
    c17_mid10 => c17_mid(10, 24, 1, 2);
    c17_mid16 => c17_mid(16, 44, 1, 3);
    c18_n3 => c18(all_graphs(3), 2, false);
    c18_n3_lim => c18(all_graphs(3), 2, true);
    c18_n3_3 => c18(graphs_upto(3, 4), 3, false);
    c18_n4_1 => c18(graphs_upto(4, 5), 1, false);
    c18_n4_2 => c18(graphs_upto(4, 4), 2, false);
    c18_n4_2b => c18(graphs_upto(4, 5), 2, false);
    c18_n4_lim => c18(graphs_upto(4, 4), 2, true);
    c18_init3 => c18_init(graphs_upto(3, 3), false);
    c18_init3_lim => c18_init(graphs_upto(3, 3), true);
    c18_mid10 => c18_mid(10, 24, 2, 3);
    c18_mid20 => c18_mid(20, 60, 2, 3);
}
/// name -> function, for the native replayer
pub fn table() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut t = table_pub();
    #[cfg(fpv)]
    t.extend(table_hooks());
    t
}

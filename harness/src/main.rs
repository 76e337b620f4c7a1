//! Symbolic harness over serde_json_path. Every `h_*` function is executed
//! symbolically from the compiler's LLVM IR of this crate linked (fat LTO) with
//! the real crates; natively this program replays one concrete input.
mod api;
mod cost;
mod docs;
mod docs2;
mod extra;
mod grammar;
mod more;
mod names;
mod oracle;
mod rx;
mod selftest;
mod sym;
#[cfg(feature = "trace")]
mod traced;
mod witness;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $f() {
                // with the crate's `trace` feature: half of the tasks have somebody listening
                #[cfg(feature = "trace")]
                if (0..12).any(|i| sym::param(i) == 777) {
                    traced::install();
                }
                $m::$f()
            }
        )*
        fn run(name: &str) -> bool {
            match name {
                $(stringify!($f) => $f(),)*
                _ => return false,
            }
            true
        }
    };
}
entries! {
    grammar::h_seg, grammar::h_fil, grammar::h_types, grammar::h_num, grammar::h_int, grammar::h_intval,
    grammar::h_total, grammar::h_rt, grammar::h_same,
    docs::h_nodes, docs::h_steps, docs::h_located, docs::h_slice, docs::h_index, docs::h_nonarray, docs::h_slicetext,
    docs::h_cmp, docs::h_lit, docs::h_terms, docs::h_ops, docs::h_logic, docs::h_chain, docs::h_filter, docs::h_exist,
    docs::h_len, docs::h_fun, docs::h_funkind, docs::h_regex, docs::h_regexkind,
    api::h_list, api::h_loclist, api::h_iters, api::h_dedup, api::h_dedup2, api::h_pathapi,
    api::h_intfrom, api::h_intops, api::h_intstr, api::h_intfmt,
    api::h_custom, api::h_call, api::h_callname, api::h_argc, api::h_argkind, api::h_callrt, api::h_conv, api::h_table,
    docs2::h_deep, docs2::h_wide, docs2::h_deepfil, docs2::h_widefil, docs2::h_strs,
    more::h_idxtext, more::h_idxptr, more::h_bigidx, more::h_idxord, more::h_ord, more::h_iters2, more::h_errpos, more::h_serde, more::h_serde2,
    cost::h_cost, cost::h_costdoc, cost::h_costnest,
    extra::h_chaindoc, extra::h_chainloc, extra::h_many, extra::h_manycount, extra::h_elem, extra::h_mem, extra::h_mem2, extra::h_rxmem, extra::h_rxtwin, extra::h_scalar, extra::h_rxlong, extra::h_size, extra::h_longerr, extra::h_longuni,
    selftest::h_self,
    names::h_str, names::h_norm, names::h_normidx, names::h_ptr, names::h_ptr2,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p: Vec<u64> = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let b: Vec<u8> = (0..a[3].len() / 2).map(|i| u8::from_str_radix(&a[3][2 * i..2 * i + 2], 16).unwrap()).collect();
    unsafe { sym::__symc_set(b.as_ptr(), b.len(), p.as_ptr(), p.len()) }
    if !run(&a[1]) {
        eprintln!("no entry {}", a[1]);
        std::process::exit(64);
    }
}

#![allow(static_mut_refs)]
//! Harnesses: each function builds an arbitrary state of the real lokky types from symbolic inputs,
//! runs the real code and asserts the property.
pub mod sx;
#[macro_use]
pub mod env;
pub mod vecs;
pub mod ways;
pub mod strs;
pub mod big;
pub mod shared;
pub mod many;
pub mod conc;

/// declares the harness functions of a module: #[no_mangle] entry points plus a name table
macro_rules! harnesses {
    ($($h:ident)*) => {
        pub const T: &[(&str, fn())] = &[$((stringify!($h), $h as fn())),*];
    };
}

/// declares the concurrent scenarios of a module: NAME:number of threads
macro_rules! scenarios {
    ($($h:ident : $n:literal)*) => {
        pub const T: &[(&str, fn())] = &[];
    };
}

macro_rules! modules {
    ($($feat:literal $m:ident)*) => {
        $(#[cfg(feature = $feat)] pub mod $m;)*
        pub fn table() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(#[cfg(feature = $feat)] v.extend_from_slice($m::T);)*
            v
        }
    };
}

modules! {
    "vec_edit" vec_edit
    "filter" filter
    "drain" drain
    "intoiter" intoiter
    "own" own
    "cap" cap
    "contract" contract
    "sel" sel
    "spawn" spawn
    "sv_edit" sv_edit
    "sv_spill" sv_spill
    "str_edit" str_edit
    "str_conv" str_conv
    "boxes" boxes
    "rc_hist" rc_hist
    "rc_excl" rc_excl
    "arc_seq" arc_seq
    "urc_seq" urc_seq
    "cmp" cmp
    "oom" oom
    "panics" panics
    "iters" iters
    "large_vec" large_vec
    "large_sv" large_sv
    "large_filter" large_filter
    "large_drain" large_drain
    "large_into" large_into
    "large_str" large_str
    "raw" raw
    "many_rc" many_rc
    "many_arc" many_arc
    "many_urc" many_urc
    "deep" deep
    "large_panic" large_panic
    "large_iter" large_iter
    "large_cmp" large_cmp
    "large_conv" large_conv
    "large_own" large_own
    "large_oom" large_oom
    "ways_drain" ways_drain
    "ways_into" ways_into
    "huge" huge
    "conc_arc" conc_arc
    "conc_urc" conc_urc
}

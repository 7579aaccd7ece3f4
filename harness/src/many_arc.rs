//! Arc with many references
use crate::many::*;
use crate::shared::ArcS;

const FILE: u32 = 45;

harnesses! { ma_many ma_crowd }

#[no_mangle] pub fn ma_many() { many::<ArcS>() }
#[no_mangle] pub fn ma_crowd() { crowd::<ArcS>() }

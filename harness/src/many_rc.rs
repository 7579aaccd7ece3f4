//! Rc with many references
use crate::many::*;
use crate::shared::RcS;

const FILE: u32 = 44;

harnesses! { mr_many mr_crowd }

#[no_mangle] pub fn mr_many() { many::<RcS>() }
#[no_mangle] pub fn mr_crowd() { crowd::<RcS>() }

global size_of usize == 8;
pub mod stdspec {
use super::*;
//@include stdspec.rs
}
pub mod spec {
use super::*;
use crate::stdspec::*;
broadcast use crate::stdspec::stdaxioms;
//@include spec.rs
}
pub mod rtspec {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
broadcast use crate::stdspec::stdaxioms;
//@include rtspec.rs
}
pub mod rt {
use super::*;
use crate::rtspec::*;
use crate::stdspec::*;
use crate::spec::*;
use std::str::{from_utf8, from_utf8_unchecked};
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas, crate::spec::seqlemmas};
//@include runtime.rs
}
pub mod ty {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
broadcast use crate::stdspec::stdaxioms;
//@include tyspec.rs
}
pub mod types {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas, crate::spec::seqlemmas};
//@include types.rs
}

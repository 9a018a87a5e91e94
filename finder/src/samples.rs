use crate::common::*;
use crate::oracle::*;
use compact_thrift_runtime::*;
include!("samples_gen.rs");
impl NotU8 for Color {} impl NotU8 for Scalars {} impl NotU8 for Choice {} impl NotU8 for Gaps {} impl NotU8 for Empty {}
// a definition using `set`: known finding of C02 (written with the list type code)
thrift! { struct SetSample { 1: required set<i32> a } }
// a recursive definition: known finding of C05 (reading recurses as deep as the input says)
thrift! { struct Rec { 1: optional Box<Rec> next } }

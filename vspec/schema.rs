// ===== parquet/src/bin/schema.rs under contract =====
// ---- C24: annotations --------------------------------------------------------------------------
//@item parquet/src/bin/schema.rs:enum:PhysicalType pub
//@item parquet/src/bin/schema.rs:enum:SchemaTimeUnit pub
//@item parquet/src/bin/schema.rs:struct:TimeOptions pub pubfields
//@item parquet/src/bin/schema.rs:struct:DecimalOptions pub pubfields
//@item parquet/src/bin/schema.rs:struct:IntegerOptions pub pubfields
//@item parquet/src/bin/schema.rs:enum:PrimitiveLogicalType pub
//@item parquet/src/bin/schema.rs:enum:GroupLogicalType pub
//@item parquet/src/bin/schema.rs:enum:RepetitionType pub structural
//@item parquet/src/bin/schema.rs:struct:FieldId pub pubfields
//@item parquet/src/bin/schema.rs:struct:CommonField pub pubfields
//@item parquet/src/bin/schema.rs:struct:PrimitiveField pub pubfields
//@item parquet/src/bin/schema.rs:struct:GroupField pub pubfields
//@item parquet/src/bin/schema.rs:enum:SchemaField pub

/// parquet.thrift, enum Type; only fixed length arrays use the length
pub open spec fn phys(t: i32, len: Option<i32>) -> Option<PhysicalType> {
    if t == 0 { Some(PhysicalType::BOOLEAN) } else if t == 1 { Some(PhysicalType::INT32) } else if t == 2 { Some(PhysicalType::INT64) }
    else if t == 3 { Some(PhysicalType::INT96) } else if t == 4 { Some(PhysicalType::FLOAT) } else if t == 5 { Some(PhysicalType::DOUBLE) }
    else if t == 6 { Some(PhysicalType::BYTE_ARRAY) }
    else if t == 7 { match len { Some(n) => if n > 0 { Some(PhysicalType::FIXED_LEN_BYTE_ARRAY(n as u32)) } else { None }, None => None } }
    else { None }
}
impl PhysicalType {
//@fn parquet/src/bin/schema.rs:<PhysicalType>::try_from_schema_element key=PhysicalType.try_from_schema_element params=element_type,type_length props=C19,C24
//@spec
    ensures
        r is Ok <==> phys(element_type.0, type_length) is Some, // [C19,C24]
        r is Ok ==> phys(element_type.0, type_length) == Some(r->Ok_0), // [C24]
//@end
}
pub open spec fn unit_of(u: TimeUnit) -> SchemaTimeUnit { match u { TimeUnit::MILLIS(_) => SchemaTimeUnit::Millis, TimeUnit::MICROS(_) => SchemaTimeUnit::Micros, TimeUnit::NANOS(_) => SchemaTimeUnit::Nanos } }
impl vstd::std_specs::convert::FromSpecImpl<TimeUnit> for SchemaTimeUnit {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(u: TimeUnit) -> Self { unit_of(u) }
}
impl From<TimeUnit> for SchemaTimeUnit {
//@fn parquet/src/bin/schema.rs:<SchemaTimeUnit as From<TimeUnit>>::from key=SchemaTimeUnit.from params=time_unit props=C24
//@end
}
/// derived in the source
impl Clone for TimeUnit { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn time_of(utc: bool, u: TimeUnit) -> TimeOptions { TimeOptions { is_adjusted_to_utc: utc, time_unit: unit_of(u) } }
impl vstd::std_specs::convert::FromSpecImpl<&TimeType> for TimeOptions {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: &TimeType) -> Self { time_of(t.isAdjustedToUTC, t.unit) }
}
impl From<&TimeType> for TimeOptions {
//@fn parquet/src/bin/schema.rs:<TimeOptions as From<&TimeType>>::from key=TimeOptions.from_time params=time_type props=C24
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<&TimestampType> for TimeOptions {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: &TimestampType) -> Self { time_of(t.isAdjustedToUTC, t.unit) }
}
impl From<&TimestampType> for TimeOptions {
//@fn parquet/src/bin/schema.rs:<TimeOptions as From<&TimestampType>>::from key=TimeOptions.from_timestamp params=timestamp_type props=C24
//@end
}
/// decimals with a positive precision and a scale not above it. Precisions above 127 and negative scales may be ignored
pub open spec fn decimal_ok(p: int, s: int, r: Option<DecimalOptions>) -> bool {
    match r { Some(d) => 0 < p && s <= p && d.precision == p && d.scale == s, None => p <= 0 || s > p || p > 127 || s < 0 }
}
impl DecimalOptions {
//@fn parquet/src/bin/schema.rs:<DecimalOptions>::try_new key=DecimalOptions.try_new params=precision,scale props=C24
//@spec
    ensures decimal_ok(precision as int, scale as int, opt(r))
//@end
}
pub open spec fn opt<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
impl vstd::std_specs::convert::TryFromSpecImpl<&DecimalType> for DecimalOptions {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(t: &DecimalType) -> Result<Self, ParquetError> { arbitrary() }
}
impl TryFrom<&DecimalType> for DecimalOptions {
type Error = ParquetError;
//@fn parquet/src/bin/schema.rs:<DecimalOptions as TryFrom<&DecimalType>>::try_from key=DecimalOptions.try_from params=decimal_type props=C24
//@spec
    ensures decimal_ok(decimal_type.precision as int, decimal_type.scale as int, opt(r))
//@end
}
/// widths that parquet.thrift allows; other positive widths may be ignored
pub open spec fn int_ok(width: int, signed: bool, r: Option<IntegerOptions>) -> bool {
    match r { Some(i) => 0 < width && i.bitwidth == width && i.is_signed == signed, None => width != 8 && width != 16 && width != 32 && width != 64 }
}
impl vstd::std_specs::convert::TryFromSpecImpl<&IntType> for IntegerOptions {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(t: &IntType) -> Result<Self, ParquetError> { arbitrary() }
}
impl TryFrom<&IntType> for IntegerOptions {
type Error = ParquetError;
//@fn parquet/src/bin/schema.rs:<IntegerOptions as TryFrom<&IntType>>::try_from key=IntegerOptions.try_from params=int_type props=C24
//@spec
    ensures int_ok(int_type.bitWidth as int, int_type.isSigned, opt(r))
//@end
}
pub open spec fn time_utc(u: SchemaTimeUnit) -> TimeOptions { TimeOptions { is_adjusted_to_utc: true, time_unit: u } }
pub open spec fn int_of(w: u8, s: bool) -> Option<PrimitiveLogicalType> { Some(PrimitiveLogicalType::Integer(IntegerOptions { bitwidth: w, is_signed: s })) }
/// parquet.thrift, enum ConvertedType. A decimal without a scale may have scale 0 or be ignored
pub open spec fn converted_ok(c: i32, p: Option<i32>, s: Option<i32>, r: Option<PrimitiveLogicalType>) -> bool {
    if c == 0 { r == Some(PrimitiveLogicalType::String) }
    else if c == 4 { r == Some(PrimitiveLogicalType::Enum) }
    else if c == 5 {
        match (p, s) {
            (Some(p), Some(s)) => match r { Some(PrimitiveLogicalType::Decimal(d)) => decimal_ok(p as int, s as int, Some(d)), None => decimal_ok(p as int, s as int, None), _ => false },
            (Some(p), None) => match r { Some(PrimitiveLogicalType::Decimal(d)) => decimal_ok(p as int, 0, Some(d)), None => true, _ => false },
            (None, _) => r is None,
        }
    }
    else if c == 6 { r == Some(PrimitiveLogicalType::Date) }
    else if c == 7 { r == Some(PrimitiveLogicalType::Time(time_utc(SchemaTimeUnit::Millis))) }
    else if c == 8 { r == Some(PrimitiveLogicalType::Time(time_utc(SchemaTimeUnit::Micros))) }
    else if c == 9 { r == Some(PrimitiveLogicalType::Timestamp(time_utc(SchemaTimeUnit::Millis))) }
    else if c == 10 { r == Some(PrimitiveLogicalType::Timestamp(time_utc(SchemaTimeUnit::Micros))) }
    else if c == 11 { r == int_of(8, false) } else if c == 12 { r == int_of(16, false) } else if c == 13 { r == int_of(32, false) } else if c == 14 { r == int_of(64, false) }
    else if c == 15 { r == int_of(8, true) } else if c == 16 { r == int_of(16, true) } else if c == 17 { r == int_of(32, true) } else if c == 18 { r == int_of(64, true) }
    else if c == 19 { r == Some(PrimitiveLogicalType::Json) }
    else if c == 20 { r == Some(PrimitiveLogicalType::Bson) }
    else if c == 21 { r == Some(PrimitiveLogicalType::Interval) }
    else { r is None }
}
/// parquet.thrift, union LogicalType
pub open spec fn logical_ok(l: LogicalType, r: Option<PrimitiveLogicalType>) -> bool {
    match l {
        LogicalType::STRING(_) => r == Some(PrimitiveLogicalType::String),
        LogicalType::ENUM(_) => r == Some(PrimitiveLogicalType::Enum),
        LogicalType::DECIMAL(d) => match r { Some(PrimitiveLogicalType::Decimal(o)) => decimal_ok(d.precision as int, d.scale as int, Some(o)), None => decimal_ok(d.precision as int, d.scale as int, None), _ => false },
        LogicalType::DATE(_) => r == Some(PrimitiveLogicalType::Date),
        LogicalType::TIME(t) => r == Some(PrimitiveLogicalType::Time(time_of(t.isAdjustedToUTC, t.unit))),
        LogicalType::TIMESTAMP(t) => r == Some(PrimitiveLogicalType::Timestamp(time_of(t.isAdjustedToUTC, t.unit))),
        LogicalType::INTEGER(i) => match r { Some(PrimitiveLogicalType::Integer(o)) => int_ok(i.bitWidth as int, i.isSigned, Some(o)), None => int_ok(i.bitWidth as int, i.isSigned, None), _ => false },
        LogicalType::UNKNOWN(_) => r == Some(PrimitiveLogicalType::Unknown),
        LogicalType::JSON(_) => r == Some(PrimitiveLogicalType::Json),
        LogicalType::BSON(_) => r == Some(PrimitiveLogicalType::Bson),
        LogicalType::UUID(_) => r == Some(PrimitiveLogicalType::UUID),
        LogicalType::FLOAT16(_) => r == Some(PrimitiveLogicalType::Float16),
        LogicalType::GEOMETRY(_) => r == Some(PrimitiveLogicalType::Geometry),
        LogicalType::GEOGRAPHY(_) => r == Some(PrimitiveLogicalType::Geography),
        LogicalType::MAP(_) | LogicalType::LIST(_) | LogicalType::VARIANT(_) => r is None,
    }
}
impl vstd::std_specs::convert::TryFromSpecImpl<&LogicalType> for PrimitiveLogicalType {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(t: &LogicalType) -> Result<Self, ParquetError> { arbitrary() }
}
impl TryFrom<&LogicalType> for PrimitiveLogicalType {
type Error = ParquetError;
//@fn parquet/src/bin/schema.rs:<PrimitiveLogicalType as TryFrom<&LogicalType>>::try_from key=PrimitiveLogicalType.try_from params=logical_type props=C24
//@spec
    ensures logical_ok(*logical_type, opt(r))
//@end
}
impl PrimitiveLogicalType {
//@fn parquet/src/bin/schema.rs:<PrimitiveLogicalType>::try_from_converted_type key=PrimitiveLogicalType.try_from_converted_type vis=pub params=converted_type,precision,scale,_type_length props=C24
//@spec
    ensures converted_ok(converted_type.0, precision, scale, opt(r))
//@end
//@fn parquet/src/bin/schema.rs:<PrimitiveLogicalType>::try_from_logical_type key=PrimitiveLogicalType.try_from_logical_type vis=pub params=logical_type props=C24
//@spec
    ensures logical_ok(*logical_type, opt(r))
//@end
//@fn parquet/src/bin/schema.rs:<PrimitiveLogicalType>::precision key=PrimitiveLogicalType.precision vis=pub props=C24
//@spec
    ensures r == match *self { PrimitiveLogicalType::Decimal(d) => Some(d.precision as i32), _ => None }
//@end
//@fn parquet/src/bin/schema.rs:<PrimitiveLogicalType>::scale key=PrimitiveLogicalType.scale vis=pub props=C24
//@spec
    ensures r == match *self { PrimitiveLogicalType::Decimal(d) => Some(d.scale as i32), _ => None }
//@end
}
pub open spec fn group_of(l: LogicalType) -> Option<GroupLogicalType> {
    match l { LogicalType::MAP(_) => Some(GroupLogicalType::Map), LogicalType::LIST(_) => Some(GroupLogicalType::List), LogicalType::VARIANT(v) => Some(GroupLogicalType::Variant { specification_version: v.specification_version }), _ => None }
}
pub open spec fn group_of_converted(c: i32) -> Option<GroupLogicalType> {
    if c == 1 { Some(GroupLogicalType::Map) } else if c == 2 { Some(GroupLogicalType::MapKeyValue) } else if c == 3 { Some(GroupLogicalType::List) } else { None }
}
impl vstd::std_specs::convert::TryFromSpecImpl<&LogicalType> for GroupLogicalType {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(t: &LogicalType) -> Result<Self, ParquetError> { arbitrary() }
}
impl TryFrom<&LogicalType> for GroupLogicalType {
type Error = ParquetError;
//@fn parquet/src/bin/schema.rs:<GroupLogicalType as TryFrom<&LogicalType>>::try_from key=GroupLogicalType.try_from params=value props=C24
//@spec
    ensures opt(r) == group_of(*value)
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<&ConvertedType> for GroupLogicalType {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(t: &ConvertedType) -> Result<Self, ParquetError> { arbitrary() }
}
impl TryFrom<&ConvertedType> for GroupLogicalType {
type Error = ParquetError;
//@fn parquet/src/bin/schema.rs:<GroupLogicalType as TryFrom<&ConvertedType>>::try_from key=GroupLogicalType.try_from_converted params=value props=C24
//@spec
    ensures opt(r) == group_of_converted(value.0)
//@end
}
pub open spec fn rep_of_code(c: i32) -> Option<RepetitionType> {
    if c == 0 { Some(RepetitionType::Required) } else if c == 1 { Some(RepetitionType::Optional) } else if c == 2 { Some(RepetitionType::Repeated) } else { None }
}
impl vstd::std_specs::convert::TryFromSpecImpl<&FieldRepetitionType> for RepetitionType {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(t: &FieldRepetitionType) -> Result<Self, ParquetError> { arbitrary() }
}
impl TryFrom<&FieldRepetitionType> for RepetitionType {
type Error = ParquetError;
//@fn parquet/src/bin/schema.rs:<RepetitionType as TryFrom<&FieldRepetitionType>>::try_from key=RepetitionType.try_from params=repetition_type props=C19,C24
//@spec
    ensures opt(r) == rep_of_code(repetition_type.0)
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<i32> for FieldId {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: i32) -> Self { arbitrary() }
}
impl From<i32> for FieldId {
//@fn parquet/src/bin/schema.rs:<FieldId as From<i32>>::from key=FieldId.from params=value props=C19
//@spec
    ensures i32_of_ne(r.0@) == value
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<FieldId> for i32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: FieldId) -> Self { i32_of_ne(v.0@) }
}
impl From<FieldId> for i32 {
//@fn parquet/src/bin/schema.rs:<i32 as From<FieldId>>::from key=FieldId.into_i32 params=value props=C19
//@end
}
impl SchemaField {
//@fn parquet/src/bin/schema.rs:<SchemaField>::common key=SchemaField.common vis=pub props=C19
//@spec
    ensures *r == common_of(*self)
//@end
}
pub open spec fn common_of(f: SchemaField) -> CommonField { match f { SchemaField::Group(g) => g.common, SchemaField::Primitive(p) => p.common } }

// ---- C19: trees --------------------------------------------------------------------------------
pub open spec fn kids_of(e: SchemaElement) -> int { match e.num_children { None => 0, Some(n) => n as int } }
/// a missing repetition is `required` (the root has none)
pub open spec fn rep_of(e: SchemaElement) -> Option<RepetitionType> { match e.repetition_type { None => Some(RepetitionType::Required), Some(t) => rep_of_code(t.0) } }
pub open spec fn phys_of(e: SchemaElement) -> Option<PhysicalType> { match e.type_ { None => None, Some(t) => phys(t.0, e.type_length) } }
pub open spec fn dstep(e: SchemaElement) -> int { if rep_of(e) == Some(RepetitionType::Required) { 0 } else { 1 } }
pub open spec fn rstep(e: SchemaElement) -> int { if rep_of(e) == Some(RepetitionType::Repeated) { 1 } else { 0 } }
pub open spec fn MAX_NESTING() -> int { 127 }
pub ghost enum Tree { Leaf(SchemaElement, int, int, int), Node(SchemaElement, int, int, Seq<Tree>) }
/// the tree at the start of a list: the tree, the number of its elements and the number of its leaves
pub open spec fn parse(els: Seq<SchemaElement>, idx: int, d: int, r: int, depth: int) -> Option<(Tree, int, int)>
    decreases els.len(), 0int
{
    if els.len() == 0 { None } else {
        let e = els[0];
        let k = kids_of(e);
        if rep_of(e) is None { None }
        else if k == 0 { if phys_of(e) is None { None } else { Some((Tree::Leaf(e, idx, d + dstep(e), r + rstep(e)), 1, 1)) } }
        else if k < 0 || k > els.len() - 1 || depth >= MAX_NESTING() { None }
        else { match parse_kids(els.skip(1), k, idx, d + dstep(e), r + rstep(e), depth + 1) { None => None, Some((ts, n, m)) => Some((Tree::Node(e, d + dstep(e), r + rstep(e), ts), n + 1, m)) } }
    }
}
pub open spec fn parse_kids(els: Seq<SchemaElement>, k: int, idx: int, d: int, r: int, depth: int) -> Option<(Seq<Tree>, int, int)>
    decreases els.len(), k + 1
{
    if k <= 0 { Some((Seq::empty(), 0, 0)) } else {
        match parse(els, idx, d, r, depth) {
            None => None,
            Some((t, n, m)) => if n < 1 || n > els.len() { None } else {
                match parse_kids(els.skip(n), k - 1, idx + m, d, r, depth) { None => None, Some((ts, n2, m2)) => Some((seq![t] + ts, n + n2, m + m2)) }
            },
        }
    }
}
proof fn lemma_parse_len(els: Seq<SchemaElement>, idx: int, d: int, r: int, depth: int)
    ensures parse(els, idx, d, r, depth) matches Some((t, n, m)) ==> 1 <= n <= els.len() && 1 <= m <= n
    decreases els.len(), 0int
{
    if els.len() > 0 {
        let e = els[0];
        if kids_of(e) > 0 { lemma_parse_kids_len(els.skip(1), kids_of(e), idx, d + dstep(e), r + rstep(e), depth + 1); }
    }
}
proof fn lemma_parse_kids_len(els: Seq<SchemaElement>, k: int, idx: int, d: int, r: int, depth: int)
    ensures parse_kids(els, k, idx, d, r, depth) matches Some((ts, n, m)) ==> 0 <= n <= els.len() && 0 <= m <= n && (k > 0 ==> m >= 1) && ts.len() == (if k > 0 { k } else { 0 })
    decreases els.len(), k + 1
{
    if k > 0 {
        lemma_parse_len(els, idx, d, r, depth);
        if let Some((t, n, m)) = parse(els, idx, d, r, depth) { lemma_parse_kids_len(els.skip(n), k - 1, idx + m, d, r, depth); }
    }
}
pub open spec fn flatten(t: Tree) -> Seq<SchemaElement>
    decreases t, 0int
{ match t { Tree::Leaf(e, _, _, _) => seq![e], Tree::Node(e, _, _, ts) => seq![e] + flatten_kids(ts, ts.len() as int) } }
pub open spec fn flatten_kids(ts: Seq<Tree>, k: int) -> Seq<SchemaElement>
    decreases ts, k
{ if k <= 0 || k > ts.len() { Seq::empty() } else { flatten_kids(ts, k - 1) + flatten(ts[k - 1]) } }
pub open spec fn leaves(t: Tree) -> int
    decreases t, 0int
{ match t { Tree::Leaf(_, _, _, _) => 1, Tree::Node(_, _, _, ts) => leaves_kids(ts, ts.len() as int) } }
pub open spec fn leaves_kids(ts: Seq<Tree>, k: int) -> int
    decreases ts, k
{ if k <= 0 || k > ts.len() { 0 } else { leaves_kids(ts, k - 1) + leaves(ts[k - 1]) } }
/// a tree whose elements are valid, with leaves numbered from idx, below d non-required and r repeated ancestors, at some depth
pub open spec fn good(t: Tree, idx: int, d: int, r: int, depth: int) -> bool
    decreases t
{
    match t {
        Tree::Leaf(e, i, a, b) => rep_of(e) is Some && kids_of(e) == 0 && phys_of(e) is Some && i == idx && a == d + dstep(e) && b == r + rstep(e),
        Tree::Node(e, a, b, ts) => rep_of(e) is Some && kids_of(e) == ts.len() && ts.len() > 0 && a == d + dstep(e) && b == r + rstep(e) && depth < MAX_NESTING()
            && forall|i: int| 0 <= i < ts.len() ==> good(#[trigger] ts[i], idx + leaves_kids(ts, i), a, b, depth + 1),
    }
}
proof fn lemma_kids_shift(t: Tree, ts: Seq<Tree>, k: int)
    requires 0 <= k <= ts.len()
    ensures flatten_kids(seq![t] + ts, k + 1) == flatten(t) + flatten_kids(ts, k), leaves_kids(seq![t] + ts, k + 1) == leaves(t) + leaves_kids(ts, k)
    decreases k
{
    let us = seq![t] + ts;
    assert(us[k] == (if k == 0 { t } else { ts[k - 1] }));
    if k == 0 {
        assert(flatten_kids(us, 0) =~= Seq::empty());
        assert(flatten_kids(us, 1) =~= flatten(t) + flatten_kids(ts, 0));
        assert(leaves_kids(us, 0) == 0 && leaves_kids(us, 1) == leaves_kids(us, 0) + leaves(us[0]));
    } else {
        lemma_kids_shift(t, ts, k - 1);
        assert(flatten_kids(us, k + 1) =~= flatten(t) + flatten_kids(ts, k));
    }
}
/// what is parsed is the tree that the elements describe
pub proof fn thm_parse_sound(els: Seq<SchemaElement>, idx: int, d: int, r: int, depth: int)
    ensures parse(els, idx, d, r, depth) matches Some((t, n, m)) ==> 1 <= n <= els.len() && flatten(t) == els.take(n) && leaves(t) == m && good(t, idx, d, r, depth)
    decreases els.len(), 0int
{
    lemma_parse_len(els, idx, d, r, depth);
    if els.len() > 0 {
        let e = els[0];
        let k = kids_of(e);
        if let Some((t, n, m)) = parse(els, idx, d, r, depth) {
            if k == 0 { assert(flatten(t) =~= els.take(1)); } else {
                let (a, b) = (d + dstep(e), r + rstep(e));
                thm_parse_kids_sound(els.skip(1), k, idx, a, b, depth + 1);
                let (ts, n2, m2) = parse_kids(els.skip(1), k, idx, a, b, depth + 1)->Some_0;
                lemma_parse_kids_len(els.skip(1), k, idx, a, b, depth + 1);
                assert(seq![e] + els.skip(1).take(n2) =~= els.take(n));
            }
        }
    }
}
pub proof fn thm_parse_kids_sound(els: Seq<SchemaElement>, k: int, idx: int, d: int, r: int, depth: int)
    ensures parse_kids(els, k, idx, d, r, depth) matches Some((ts, n, m)) ==> 0 <= n <= els.len() && flatten_kids(ts, ts.len() as int) == els.take(n) && leaves_kids(ts, ts.len() as int) == m
        && forall|i: int| 0 <= i < ts.len() ==> good(#[trigger] ts[i], idx + leaves_kids(ts, i), d, r, depth)
    decreases els.len(), k + 1
{
    lemma_parse_kids_len(els, k, idx, d, r, depth);
    if k <= 0 { assert(flatten_kids(Seq::empty(), 0) =~= els.take(0)); }
    else if let Some((us, n, m)) = parse_kids(els, k, idx, d, r, depth) {
        thm_parse_sound(els, idx, d, r, depth);
        let (t, n1, m1) = parse(els, idx, d, r, depth)->Some_0;
        thm_parse_kids_sound(els.skip(n1), k - 1, idx + m1, d, r, depth);
        lemma_parse_kids_len(els.skip(n1), k - 1, idx + m1, d, r, depth);
        let (ts, n2, m2) = parse_kids(els.skip(n1), k - 1, idx + m1, d, r, depth)->Some_0;
        assert(us == seq![t] + ts);
        lemma_kids_shift(t, ts, ts.len() as int);
        assert(els.take(n1) + els.skip(n1).take(n2) =~= els.take(n));
        assert forall|i: int| 0 <= i < us.len() implies good(#[trigger] us[i], idx + leaves_kids(us, i), d, r, depth) by {
            if i > 0 { lemma_kids_shift(t, ts, i - 1); assert(us[i] == ts[i - 1]); assert(idx + leaves_kids(us, i) == (idx + m1) + leaves_kids(ts, i - 1)); }
            else { assert(us[0] == t && leaves_kids(us, 0) == 0); }
        }
    }
}
proof fn lemma_flatten_len(t: Tree)
    ensures flatten(t).len() >= 1, leaves(t) >= 0
    decreases t, 0int
{ if let Tree::Node(e, a, b, ts) = t { lemma_flatten_kids_len(ts, ts.len() as int); } }
proof fn lemma_flatten_kids_len(ts: Seq<Tree>, k: int)
    requires 0 <= k <= ts.len()
    ensures flatten_kids(ts, k).len() >= k, leaves_kids(ts, k) >= 0
    decreases ts, k
{ if k > 0 { lemma_flatten_kids_len(ts, k - 1); lemma_flatten_len(ts[k - 1]); } }
/// every valid tree is parsed from its elements, whatever follows
pub proof fn thm_parse_complete(t: Tree, idx: int, d: int, r: int, depth: int, rest: Seq<SchemaElement>)
    requires good(t, idx, d, r, depth)
    ensures parse(flatten(t) + rest, idx, d, r, depth) == Some((t, flatten(t).len() as int, leaves(t)))
    decreases t, 0int, 0int
{
    match t {
        Tree::Leaf(e, _, _, _) => { assert((flatten(t) + rest)[0] == e); }
        Tree::Node(e, a, b, ts) => {
            let els = flatten(t) + rest;
            assert(els[0] == e);
            assert(els.skip(1) =~= flatten_kids(ts, ts.len() as int) + rest);
            lemma_flatten_kids_len(ts, ts.len() as int);
            assert(ts.skip(0) =~= ts);
            assert(leaves_kids(ts, 0) == 0);
            lemma_from_start(ts, ts.len() as int);
            thm_parse_kids_complete(ts, 0, idx, a, b, depth + 1, rest);
        }
    }
}
/// the elements and leaves of the trees from number i on
pub open spec fn flatten_from(ts: Seq<Tree>, i: int) -> Seq<SchemaElement>
    decreases ts.len() - i
{ if i < 0 || i >= ts.len() { Seq::empty() } else { flatten(ts[i]) + flatten_from(ts, i + 1) } }
pub open spec fn leaves_from(ts: Seq<Tree>, i: int) -> int
    decreases ts.len() - i
{ if i < 0 || i >= ts.len() { 0 } else { leaves(ts[i]) + leaves_from(ts, i + 1) } }
proof fn lemma_from_start(ts: Seq<Tree>, i: int)
    requires 0 <= i <= ts.len()
    ensures flatten_kids(ts, i) + flatten_from(ts, i) == flatten_kids(ts, ts.len() as int), leaves_kids(ts, i) + leaves_from(ts, i) == leaves_kids(ts, ts.len() as int),
        flatten_from(ts, 0) == flatten_kids(ts, ts.len() as int), leaves_from(ts, 0) == leaves_kids(ts, ts.len() as int)
    decreases i + (if i == ts.len() { ts.len() + 1 } else { 0 })
{
    lemma_from_back(ts, ts.len() as int);
    lemma_from_any(ts, 0);
    lemma_from_any(ts, i);
    assert(flatten_kids(ts, 0) + flatten_from(ts, 0) =~= flatten_from(ts, 0));
}
proof fn lemma_from_back(ts: Seq<Tree>, i: int)
    requires i >= ts.len()
    ensures flatten_from(ts, i) == Seq::<SchemaElement>::empty(), leaves_from(ts, i) == 0
{ }
proof fn lemma_from_any(ts: Seq<Tree>, i: int)
    requires 0 <= i <= ts.len()
    ensures flatten_kids(ts, i) + flatten_from(ts, i) == flatten_kids(ts, ts.len() as int), leaves_kids(ts, i) + leaves_from(ts, i) == leaves_kids(ts, ts.len() as int)
    decreases ts.len() - i
{
    if i < ts.len() {
        lemma_from_any(ts, i + 1);
        assert(flatten_kids(ts, i + 1) == flatten_kids(ts, i) + flatten(ts[i]));
        assert(flatten_kids(ts, i) + flatten_from(ts, i) =~= flatten_kids(ts, i + 1) + flatten_from(ts, i + 1));
    } else { assert(flatten_kids(ts, i) + flatten_from(ts, i) =~= flatten_kids(ts, i)); }
}
proof fn thm_parse_kids_complete(ts: Seq<Tree>, i: int, idx: int, d: int, r: int, depth: int, rest: Seq<SchemaElement>)
    requires 0 <= i <= ts.len(), forall|j: int| 0 <= j < ts.len() ==> good(#[trigger] ts[j], idx + leaves_kids(ts, j), d, r, depth)
    ensures parse_kids(flatten_from(ts, i) + rest, ts.len() - i, idx + leaves_kids(ts, i), d, r, depth) == Some((ts.skip(i), flatten_from(ts, i).len() as int, leaves_from(ts, i)))
    decreases ts, ts.len() - i, 1int
{
    let els = flatten_from(ts, i) + rest;
    if i < ts.len() {
        let more = flatten_from(ts, i + 1) + rest;
        assert(els =~= flatten(ts[i]) + more);
        assert(good(ts[i], idx + leaves_kids(ts, i), d, r, depth));
        thm_parse_complete(ts[i], idx + leaves_kids(ts, i), d, r, depth, more);
        lemma_flatten_len(ts[i]);
        assert(els.skip(flatten(ts[i]).len() as int) =~= more);
        assert(leaves_kids(ts, i + 1) == leaves_kids(ts, i) + leaves(ts[i]));
        thm_parse_kids_complete(ts, i + 1, idx, d, r, depth, rest);
        assert(seq![ts[i]] + ts.skip(i + 1) =~= ts.skip(i));
    } else { assert(ts.skip(i) =~= Seq::empty()); assert(flatten_from(ts, i) =~= Seq::empty()); }
}

// ---- C19, C24: fields --------------------------------------------------------------------------
pub open spec fn common_ok(c: CommonField, e: SchemaElement, d: int, r: int) -> bool {
    c.name@ == e.name@ && Some(c.repetition) == rep_of(e) && c.def_level == d && c.rep_level == r
        && match (c.field_id, e.field_id) { (None, None) => true, (Some(a), Some(b)) => i32_of_ne(a.0@) == b, _ => false }
}
/// annotations that are unknown or do not fit are ignored, and the older kind of annotation is used
pub open spec fn prim_ok(e: SchemaElement, r: Option<PrimitiveLogicalType>) -> bool {
    let old = match e.converted_type { None => r is None, Some(c) => converted_ok(c.0, e.precision, e.scale, r) };
    match e.logicalType { None => old, Some(l) => (r is Some && logical_ok(l, r)) || (logical_ok(l, None) && old) }
}
pub open spec fn group_ok(e: SchemaElement, r: Option<GroupLogicalType>) -> bool {
    let old = match e.converted_type { None => None, Some(c) => group_of_converted(c.0) };
    match e.logicalType { None => r == old, Some(l) => r == (if group_of(l) is Some { group_of(l) } else { old }) }
}
/// the field is a faithful copy of the tree
pub open spec fn is_tree(f: SchemaField, t: Tree) -> bool
    decreases t
{
    match (f, t) {
        (SchemaField::Primitive(p), Tree::Leaf(e, i, d, r)) => common_ok(p.common, e, d, r) && p.index == i as u32 && phys_of(e) == Some(p.physical_type) && prim_ok(e, p.logical_type),
        (SchemaField::Group(g), Tree::Node(e, d, r, ts)) => common_ok(g.common, e, d, r) && group_ok(e, g.logical_type) && g.children@.len() == ts.len()
            && forall|i: int| 0 <= i < ts.len() ==> is_tree(g.children@[i], #[trigger] ts[i]),
        _ => false,
    }
}
pub assume_specification<T, E> [std::option::Option::<std::result::Result<T, E>>::transpose] (_0: std::option::Option<std::result::Result<T, E>>) -> (r: std::result::Result<std::option::Option<T>, E>)
    ensures r == (match _0 { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
//@fn parquet/src/bin/schema.rs:field_from_schema_element key=field_from_schema_element params=element,index,def_level,rep_level,remaining_elements rules=optmap cap="remaining_elements as nat" props=C19,C24
//@spec
    requires *old(index) < usize::MAX
    ensures
        r is Ok <==> rep_of(*element) is Some && (if kids_of(*element) == 0 { phys_of(*element) is Some } else { 0 < kids_of(*element) <= remaining_elements }), // [C19,C24]
        r matches Ok(SchemaField::Primitive(p)) ==> kids_of(*element) == 0 && common_ok(p.common, *element, def_level as int, rep_level as int) && p.index == *old(index) as u32 && *final(index) == *old(index) + 1, // [C19]
        r matches Ok(SchemaField::Group(g)) ==> kids_of(*element) > 0 && common_ok(g.common, *element, def_level as int, rep_level as int) && g.children@.len() == 0 && *final(index) == *old(index), // [C19]
        r matches Ok(SchemaField::Primitive(p)) ==> phys_of(*element) == Some(p.physical_type) && prim_ok(*element, p.logical_type), // [C24]
        r matches Ok(SchemaField::Group(g)) ==> group_ok(*element, g.logical_type), // [C24]
//@end
//@fn parquet/src/bin/schema.rs:convert_schema_inner key=convert_schema_inner params=elements,index,def_level,rep_level,nesting lets=root_element,remainder_elements,repetition_type,def_level,rep_level,current,nesting,num_children,i,child_field,remainder loops=1 kinds=while props=C19
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires *old(index) + elements@.len() <= usize::MAX, def_level <= nesting, rep_level <= nesting, nesting <= MAX_NESTING()
    ensures
        match r {
            Ok((f, rest)) => parse(elements@, *old(index) as int, def_level as int, rep_level as int, nesting as int) matches Some((t, n, m)) && is_tree(f, t)
                && 1 <= n <= elements@.len() && 0 <= m <= n && rest@ == elements@.skip(n) && *final(index) == *old(index) + m,
            Err(_) => parse(elements@, *old(index) as int, def_level as int, rep_level as int, nesting as int) is None,
        }
    decreases elements@.len()
//@start
    let ghost __d0 = def_level as int;
    let ghost __r0 = rep_level as int;
    let ghost __n0 = nesting as int;
    let ghost __i0 = *index as int;
    proof { lemma_parse_len(elements@, __i0, __d0, __r0, __n0); }
//@before 0
    let ghost mut __done: Seq<Tree> = Seq::empty();
    let ghost mut __used: int = 0;
    let ghost mut __m: int = 0;
    let ghost __k = num_children as int;
    proof {
        assert(elements@.skip(1).skip(0) =~= elements@.skip(1));
        if let Some((ts, n, m)) = parse_kids(elements@.skip(1), __k, __i0, def_level as int, rep_level as int, nesting as int) { assert(Seq::<Tree>::empty() + ts =~= ts); }
    }
//@loop 0
    invariant
        $i <= __k, __done.len() == $i, children@.len() == $i,
        forall|j: int| 0 <= j < $i ==> is_tree(#[trigger] children@[j], __done[j]),
        0 <= __used <= elements@.len() - 1, remainder_elements@ == elements@.skip(1).skip(__used),
        *index == __i0 + __m, 0 <= __m <= __used,
        parse_kids(elements@.skip(1), __k, __i0, def_level as int, rep_level as int, nesting as int)
            == (match parse_kids(remainder_elements@, __k - $i, *index as int, def_level as int, rep_level as int, nesting as int) { None => None, Some((ts, n, m)) => Some((__done + ts, __used + n, __m + m)) }),
    decreases __k - $i
//@body 0
    let ghost __e = remainder_elements@;
    let ghost __x = *index as int;
    let ghost __c = children@;
//@tail 0
    proof {
        let (t, n, m) = parse(__e, __x, def_level as int, rep_level as int, nesting as int)->Some_0;
        assert(remainder_elements@ =~= elements@.skip(1).skip(__used + n));
        if let Some((ts, n2, m2)) = parse_kids(remainder_elements@, __k - __done.len() - 1, *index as int, def_level as int, rep_level as int, nesting as int) { assert(__done + (seq![t] + ts) =~= __done.push(t) + ts); }
        __done = __done.push(t);
        __used = __used + n;
        __m = __m + m;
    }
//@after 0
    proof { assert(__done + Seq::<Tree>::empty() =~= __done); assert(remainder_elements@ =~= elements@.skip(__used + 1)); }
//@end
//@fn parquet/src/bin/schema.rs:convert_schema key=convert_schema params=elements lets=index,root,remainder props=C19
//@spec
    ensures
        match r {
            Ok(f) => parse(elements@, 0, 0, 0, 0) matches Some((t, n, m)) && n == elements@.len() && is_tree(f, t),
            // a root that is itself optional or repeated may be rejected
            Err(_) => elements@.len() == 0 || dstep(elements@[0]) != 0 || match parse(elements@, 0, 0, 0, 0) { None => true, Some((t, n, m)) => n != elements@.len() },
        }
//@start
    proof { assert(elements@.len() == elements.len()); }
//@end

// ---- C19: access by name -----------------------------------------------------------------------
/// the first field from number k on that has this name
pub open spec fn first_named(kids: Seq<SchemaField>, name: Seq<char>, k: int) -> Option<int>
    decreases kids.len() - k
{ if k < 0 || k >= kids.len() { None } else if common_of(kids[k]).name@ == name { Some(k) } else { first_named(kids, name, k + 1) } }
pub proof fn lemma_first_named(kids: Seq<SchemaField>, name: Seq<char>, k: int)
    requires 0 <= k
    ensures match first_named(kids, name, k) {
        Some(j) => k <= j < kids.len() && common_of(kids[j]).name@ == name && forall|i: int| k <= i < j ==> common_of(#[trigger] kids[i]).name@ != name,
        None => forall|i: int| k <= i < kids.len() ==> common_of(#[trigger] kids[i]).name@ != name,
    }
    decreases kids.len() - k
{ if k < kids.len() && common_of(kids[k]).name@ != name { lemma_first_named(kids, name, k + 1); } }
pub open spec fn lookup(f: SchemaField, path: Seq<&str>) -> Option<SchemaField>
    decreases path.len()
{
    if path.len() == 0 { Some(f) } else {
        match f {
            SchemaField::Primitive(_) => None,
            SchemaField::Group(g) => match first_named(g.children@, path[0]@, 0) { None => None, Some(k) => lookup(g.children@[k], path.skip(1)) },
        }
    }
}
impl SchemaField {
//@fn parquet/src/bin/schema.rs:<SchemaField>::name key=SchemaField.name vis=pub props=C19
//@spec
    ensures r@ == common_of(*self).name@
//@end
//@fn parquet/src/bin/schema.rs:<SchemaField>::definition_level key=SchemaField.definition_level vis=pub props=C19
//@spec
    ensures r == common_of(*self).def_level
//@end
//@fn parquet/src/bin/schema.rs:<SchemaField>::repetition_level key=SchemaField.repetition_level vis=pub props=C19
//@spec
    ensures r == common_of(*self).rep_level
//@end
//@fn parquet/src/bin/schema.rs:<SchemaField>::is_optional key=SchemaField.is_optional vis=pub props=C19
//@spec
    ensures r == (common_of(*self).repetition is Optional)
//@end
//@fn parquet/src/bin/schema.rs:<SchemaField>::find_field_by_path key=SchemaField.find_field_by_path vis=pub params=path loops=1 kinds=for rules=find props=C19
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures match r { None => lookup(*self, path@) is None, Some(f) => lookup(*self, path@) == Some(*f) }
    decreases path@.len()
//@loop 0
    invariant
        path@.len() > 0, name@ == path@[0]@, remainder@ == path@.skip(1),
        match __found {
            None => first_named(field.children@, path@[0]@, 0) == first_named(field.children@, path@[0]@, $i as int),
            Some(c) => first_named(field.children@, path@[0]@, 0) matches Some(j) && 0 <= j < field.children@.len() && *c == field.children@[j],
        },
//@end
}

// ===== parquet/src/lib.rs under contract =====
//@item parquet/src/lib.rs:enum:ParquetError pub
impl vstd::std_specs::convert::FromSpecImpl<IOError> for ParquetError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IOError) -> Self { ParquetError::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<ThriftError> for ParquetError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ThriftError) -> Self { ParquetError::Thrift(e) }
}
impl From<IOError> for ParquetError {
//@fn parquet/src/lib.rs:<ParquetError as From<IOError>>::from key=ParquetError.from_io params=value props=C16,C17
//@end
}
impl From<ThriftError> for ParquetError {
//@fn parquet/src/lib.rs:<ParquetError as From<ThriftError>>::from key=ParquetError.from_thrift params=value props=C17,C18
//@end
}
impl<'a> CompactThriftInputSlice<'a> {
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'a>>::new key=CompactThriftInputSlice.new vis=pub params=slice props=C18,C07
//@spec
    ensures r.st() == (IS { rem: slice@, fault: None })
//@end
}
//@region PARQUET_MAGIC props=C16
//@item parquet/src/lib.rs:const:PARQUET_MAGIC
proof fn lemma_magic()
    ensures PARQUET_MAGIC@ == seq![80u8, 65u8, 82u8, 49u8]
{ assert(PARQUET_MAGIC@ =~= seq![80u8, 65u8, 82u8, 49u8]); }
//@endregion

// ---- C16: the footer ---------------------------------------------------------------------------
/// the last eight bytes are the length of the metadata and the magic; the metadata is right in front of them
pub open spec fn metadata_of(f: Seq<u8>) -> Option<Seq<u8>> {
    let n = f.len();
    if n < 8 || f.subrange(n - 4, n as int) != seq![80u8, 65u8, 82u8, 49u8] { None }
    else {
        let k = le4(f.subrange(n - 8, n - 4));
        if k + 8 > n { None } else { Some(f.subrange(n - 8 - k, n - 8)) }
    }
}
//@fn parquet/src/lib.rs:get_metadata_chunk key=get_metadata_chunk vis=pub params=input lets=_pos,footer,metadata_len,buf cap="(*input).whole().len()" props=C16
//@spec
    ensures
        match r {
            Ok(v) => metadata_of((*old(input)).whole()) == Some(v@),
            Err(e) => metadata_of((*old(input)).whole()) is None || (*old(input)).rfault() is Some,
        }
//@start
    let ghost __f = (*input).whole();
    proof {
        lemma_magic();
        if __f.len() >= 8 {
            assert(__f.skip(__f.len() - 8).take(8).subrange(4, 8) =~= __f.subrange(__f.len() - 4, __f.len() as int));
            assert(__f.skip(__f.len() - 8).take(8).subrange(0, 4) =~= __f.subrange(__f.len() - 8, __f.len() - 4));
            let k = le4(__f.subrange(__f.len() - 8, __f.len() - 4));
            assert(0 <= k < 4294967296);
            if k + 8 <= __f.len() { assert(__f.skip(__f.len() - 8 - k).take(k) =~= __f.subrange(__f.len() - 8 - k, __f.len() - 8)); }
        }
    }
//@end

// ---- C17: the page index range -----------------------------------------------------------------
pub open spec fn declared(c: ColumnChunk) -> bool {
    c.offset_index_offset is Some && c.offset_index_length is Some && c.column_index_offset is Some && c.column_index_length is Some
}
pub open spec fn negative(c: ColumnChunk) -> bool {
    c.offset_index_offset->Some_0 < 0 || c.offset_index_length->Some_0 < 0 || c.column_index_offset->Some_0 < 0 || c.column_index_length->Some_0 < 0
}
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn mx(a: int, b: int) -> int { if a < b { b } else { a } }
/// start of the first and end of the last index of a column
pub open spec fn lo(c: ColumnChunk) -> int { mn(c.offset_index_offset->Some_0 as int, c.column_index_offset->Some_0 as int) }
pub open spec fn hi(c: ColumnChunk) -> int {
    mx(c.offset_index_offset->Some_0 + c.offset_index_length->Some_0, c.column_index_offset->Some_0 + c.column_index_length->Some_0)
}
/// all columns of the first n row groups
pub open spec fn columns(rgs: Seq<RowGroup>, n: nat) -> Seq<ColumnChunk>
    decreases n
{ if n == 0 { Seq::empty() } else { columns(rgs, (n - 1) as nat) + rgs[n - 1].columns@ } }
/// smallest start and largest end over the columns that declare both indexes, None if one of them is at a negative location
#[verifier::opaque]
pub open spec fn extent(cs: Seq<ColumnChunk>) -> Option<(int, int)>
    decreases cs.len()
{
    if cs.len() == 0 { Some((usize::MAX as int, 0)) } else {
        match extent(cs.drop_last()) {
            None => None,
            Some((a, b)) => if !declared(cs.last()) { Some((a, b)) } else if negative(cs.last()) { None } else { Some((mn(a, lo(cs.last())), mx(b, hi(cs.last())))) },
        }
    }
}
pub open spec fn page_index_extent(m: FileMetaData) -> Option<(int, int)> { extent(columns(m.row_groups@, m.row_groups@.len())) }
/// `extent` is what C17 says: it covers every declared index, both ends are attained, and it fails exactly for negative locations
pub proof fn thm_extent(cs: Seq<ColumnChunk>)
    ensures
        match extent(cs) {
            None => exists|i: int| 0 <= i < cs.len() && declared(#[trigger] cs[i]) && negative(cs[i]),
            Some((a, b)) => {
                &&& forall|i: int| 0 <= i < cs.len() && declared(#[trigger] cs[i]) ==> !negative(cs[i]) && a <= lo(cs[i]) && hi(cs[i]) <= b
                &&& (a == usize::MAX && b == 0 && forall|i: int| 0 <= i < cs.len() ==> !declared(#[trigger] cs[i]))
                    || (exists|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && declared(cs[i]) && declared(cs[j]) && a == #[trigger] lo(cs[i]) && b == #[trigger] hi(cs[j]))
            },
        }
    decreases cs.len()
{
    reveal(extent);
    if cs.len() > 0 {
        let p = cs.drop_last();
        let n = cs.len() - 1;
        thm_extent(p);
        assert forall|i: int| 0 <= i < p.len() implies p[i] == cs[i] by { }
        assert(cs[n] == cs.last());
        match extent(p) {
            None => { let i = choose|i: int| 0 <= i < p.len() && declared(#[trigger] p[i]) && negative(p[i]); assert(declared(cs[i]) && negative(cs[i])); }
            Some((a, b)) => {
                if declared(cs[n]) && !negative(cs[n]) {
                    if forall|i: int| 0 <= i < p.len() ==> !declared(#[trigger] p[i]) {
                        assert forall|i: int| 0 <= i < n implies !declared(#[trigger] cs[i]) by { assert(p[i] == cs[i]); }
                        assert(lo(cs[n]) <= usize::MAX && hi(cs[n]) >= 0);
                        assert(mn(a, lo(cs[n])) == lo(cs[n]) && mx(b, hi(cs[n])) == hi(cs[n]));
                    } else {
                        let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && declared(p[i]) && declared(p[j]) && a == #[trigger] lo(p[i]) && b == #[trigger] hi(p[j]);
                        let i2 = if a < lo(cs[n]) { i } else { n };
                        let j2 = if b < hi(cs[n]) { n } else { j };
                        assert(declared(cs[i2]) && declared(cs[j2]) && mn(a, lo(cs[n])) == lo(cs[i2]) && mx(b, hi(cs[n])) == hi(cs[j2]));
                    }
                } else if !declared(cs[n]) {
                    if !(forall|i: int| 0 <= i < p.len() ==> !declared(#[trigger] p[i])) {
                        let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && declared(p[i]) && declared(p[j]) && a == #[trigger] lo(p[i]) && b == #[trigger] hi(p[j]);
                        assert(declared(cs[i]) && declared(cs[j]) && a == lo(cs[i]) && b == hi(cs[j]));
                    } else {
                        assert forall|i: int| 0 <= i < cs.len() implies !declared(#[trigger] cs[i]) by { if i < n { assert(p[i] == cs[i]); } }
                    }
                }
                if !(declared(cs[n]) && negative(cs[n])) {
                    let (a2, b2) = extent(cs)->Some_0;
                    assert forall|i: int| 0 <= i < cs.len() && declared(#[trigger] cs[i]) implies !negative(cs[i]) && a2 <= lo(cs[i]) && hi(cs[i]) <= b2 by { if i < n { assert(p[i] == cs[i]); } }
                }
            }
        }
    }
}
proof fn lemma_extent_step(cs: Seq<ColumnChunk>, t: Seq<ColumnChunk>, j: int)
    requires 0 <= j < t.len()
    ensures extent(cs + t.take(j + 1)) == (match extent(cs + t.take(j)) {
            None => None,
            Some((a, b)) => if !declared(t[j]) { Some((a, b)) } else if negative(t[j]) { None } else { Some((mn(a, lo(t[j])), mx(b, hi(t[j])))) },
        })
{
    reveal(extent);
    assert((cs + t.take(j + 1)).drop_last() =~= cs + t.take(j));
    assert((cs + t.take(j + 1)).last() == t[j]);
}
proof fn lemma_extent_none(cs: Seq<ColumnChunk>, n: int)
    requires 0 <= n <= cs.len(), extent(cs.take(n)) is None
    ensures extent(cs) is None
    decreases cs.len()
{
    reveal(extent);
    if n < cs.len() { assert(cs.drop_last().take(n) =~= cs.take(n)); lemma_extent_none(cs.drop_last(), n); }
    else { assert(cs.take(n) =~= cs); }
}
/// the columns of the first row groups, and some of the next one, are a prefix of all columns
proof fn lemma_columns_prefix(rgs: Seq<RowGroup>, i: nat, j: int)
    requires i < rgs.len(), 0 <= j <= rgs[i as int].columns@.len()
    ensures ({ let p = columns(rgs, i) + rgs[i as int].columns@.take(j); let all = columns(rgs, rgs.len()); p.len() <= all.len() && all.take(p.len() as int) == p })
{
    let p = columns(rgs, i) + rgs[i as int].columns@.take(j);
    let q = columns(rgs, i + 1);
    lemma_columns_grow(rgs, i + 1, rgs.len());
    assert(columns(rgs, rgs.len()).take(p.len() as int) =~= p) by {
        let all = columns(rgs, rgs.len());
        assert(all.take(q.len() as int) == q);
        assert forall|k: int| 0 <= k < p.len() implies all[k] == p[k] by { assert(all.take(q.len() as int)[k] == q[k]); }
    }
}
proof fn lemma_columns_grow(rgs: Seq<RowGroup>, i: nat, n: nat)
    requires i <= n
    ensures columns(rgs, i).len() <= columns(rgs, n).len(), columns(rgs, n).take(columns(rgs, i).len() as int) == columns(rgs, i)
    decreases n
{
    if i < n {
        lemma_columns_grow(rgs, i, (n - 1) as nat);
        let (a, b, c) = (columns(rgs, i), columns(rgs, (n - 1) as nat), columns(rgs, n));
        assert(c.take(a.len() as int) =~= a) by {
            assert forall|k: int| 0 <= k < a.len() implies c[k] == a[k] by { assert(b.take(a.len() as int)[k] == a[k]); }
        }
    } else { assert(columns(rgs, n).take(columns(rgs, i).len() as int) =~= columns(rgs, i)); }
}
//@fn parquet/src/lib.rs:get_page_index_range key=get_page_index_range vis=pub params=file_metadata lets=min,max loops=2 kinds=for,for label=__it props=C17
//@spec
    ensures
        match r {
            Ok(Some(x)) => page_index_extent(*file_metadata) == Some((x.start as int, x.end as int)) && x.start < x.end,
            Ok(None) => page_index_extent(*file_metadata) matches Some((a, b)) && a >= b,
            Err(e) => page_index_extent(*file_metadata) is None,
        }
//@before 0
    proof { reveal(extent); }
//@loop 0
    invariant
        0 <= __it.index@ <= file_metadata.row_groups@.len(),
        extent(columns(file_metadata.row_groups@, __it.index@ as nat)) == Some((min as int, max as int)),
//@body 0
    proof {
        assert(columns(file_metadata.row_groups@, __it.index@ as nat) + $p.columns@.take(0) =~= columns(file_metadata.row_groups@, __it.index@ as nat));
    }
    let ghost __n = __it.index@;
//@loop 1
    invariant
        0 <= __n < file_metadata.row_groups@.len(), *$p0 == file_metadata.row_groups@[__n], 0 <= __it1.index@ <= $p0.columns@.len(),
        extent(columns(file_metadata.row_groups@, __n as nat) + $p0.columns@.take(__it1.index@)) == Some((min as int, max as int)),
//@body 1
    proof {
        lemma_extent_step(columns(file_metadata.row_groups@, __n as nat), $p0.columns@, __it1.index@);
        lemma_columns_prefix(file_metadata.row_groups@, __n as nat, __it1.index@ + 1);
        if declared(*$p) && negative(*$p) {
            lemma_extent_none(columns(file_metadata.row_groups@, file_metadata.row_groups@.len()), (columns(file_metadata.row_groups@, __n as nat) + $p0.columns@.take(__it1.index@ + 1)).len() as int);
        }
    }
//@after 1
    proof { assert($p0.columns@.take($p0.columns@.len() as int) =~= $p0.columns@); }
//@end
//@fn parquet/src/lib.rs:get_page_index_chunk key=get_page_index_chunk vis=pub params=input,file_metadata lets=buf props=C17
//@spec
    ensures
        match r {
            Ok(Some((v, x))) => page_index_extent(*file_metadata) == Some((x.start as int, x.end as int)) && x.start < x.end <= (*old(input)).whole().len()
                && v@ == (*old(input)).whole().subrange(x.start as int, x.end as int),
            Ok(None) => page_index_extent(*file_metadata) matches Some((a, b)) && a >= b,
            Err(e) => (*old(input)).rfault() is Some || e == ParquetError::Thrift(ThriftError::ReserveError)
                || match page_index_extent(*file_metadata) { None => true, Some((a, b)) => a < b && b > (*old(input)).whole().len() },
        }
//@start
    let ghost __f = (*input).whole();
    proof {
        assert forall|a: int, b: int| 0 <= a <= b <= __f.len() implies #[trigger] __f.skip(a).take(b - a) == __f.subrange(a, b) by { assert(__f.skip(a).take(b - a) =~= __f.subrange(a, b)); }
    }
//@end

// ---- C18: the page indexes ---------------------------------------------------------------------
/// the bytes at a location of the file, as far as they are part of the chunk that starts at `at`
pub open spec fn located(chunk: Seq<u8>, at: int, offset: int, length: int) -> Option<Seq<u8>> {
    if offset < 0 || length < 0 || offset < at || offset + length > at + chunk.len() { None } else { Some(chunk.subrange(offset - at, offset - at + length)) }
}
//@fn parquet/src/lib.rs:get_index_bytes key=get_index_bytes params=chunk,chunk_offset,offset,length lets=start,length props=C18
//@spec
    ensures
        match r {
            Ok(b) => located(chunk@, chunk_offset as int, offset as int, length as int) == Some(b@),
            Err(e) => located(chunk@, chunk_offset as int, offset as int, length as int) is None || length == 0,
        }
//@end
pub open spec fn dec_at(ty: Ty, b: Option<Seq<u8>>) -> Option<Val> {
    match b { None => None, Some(s) => match dec(ty, dflt(ty), s) { Dec::Ok(v, _) => Some(v), Dec::Err(_) => None } }
}
pub open spec fn oi_bytes(chunk: Seq<u8>, at: int, c: ColumnChunk) -> Option<Seq<u8>> { located(chunk, at, c.offset_index_offset->Some_0 as int, c.offset_index_length->Some_0 as int) }
pub open spec fn ci_bytes(chunk: Seq<u8>, at: int, c: ColumnChunk) -> Option<Seq<u8>> { located(chunk, at, c.column_index_offset->Some_0 as int, c.column_index_length->Some_0 as int) }
/// the entry of a column: absent, the two decoded indexes, or an error (None)
pub open spec fn entry(chunk: Seq<u8>, at: int, c: ColumnChunk) -> Option<Option<(Val, Val)>> {
    if !declared(c) { Some(None) } else {
        match (dec_at(OffsetIndex::ty(), oi_bytes(chunk, at, c)), dec_at(ColumnIndex::ty(), ci_bytes(chunk, at, c))) { (Some(a), Some(b)) => Some(Some((a, b))), _ => None }
    }
}
pub open spec fn is_entry(r: Option<(OffsetIndex, ColumnIndex)>, e: Option<Option<(Val, Val)>>) -> bool {
    match r { None => e == Some(None::<(Val, Val)>), Some((a, b)) => e == Some(Some((a.val(), b.val()))) }
}
pub open spec fn reserve_error(e: ParquetError) -> bool { e == ParquetError::Thrift(ThriftError::ReserveError) }
/// nothing decodes from no bytes
proof fn lemma_empty_struct(fs: Seq<Field>, s: Seq<u8>)
    requires s.len() == 0
    ensures dec(Ty::Struct(fs), dflt(Ty::Struct(fs)), s) is Err
{ lemma_dec(Ty::Struct(fs), dflt(Ty::Struct(fs)), s); lemma_dec_fields(fs, dflt(Ty::Struct(fs))->Struct_0, seen0(fs), s, 0, 0); }
//@mapcollect parquet/src/lib.rs:read_page_index_for_column_chunk key=read_page_index_for_column_chunk params=chunk,chunk_offset,column_chunks item="&ColumnChunk" item_name=cc each="Result<Option<(OffsetIndex, ColumnIndex)>, ParquetError>" props=C18
//@each-spec
    ensures match r { Ok(v) => is_entry(v, entry(chunk@, chunk_offset as int, *cc)), Err(e) => entry(chunk@, chunk_offset as int, *cc) is None || reserve_error(e) }
//@each-start
    proof {
        assert forall|s: Seq<u8>| s.len() == 0 implies #[trigger] dec(OffsetIndex::ty(), dflt(OffsetIndex::ty()), s) is Err by { lemma_empty_struct(fs_OffsetIndex(), s); }
        assert forall|s: Seq<u8>| s.len() == 0 implies #[trigger] dec(ColumnIndex::ty(), dflt(ColumnIndex::ty()), s) is Err by { lemma_empty_struct(fs_ColumnIndex(), s); }
    }
//@spec
    ensures match r {
        Ok(v) => v@.len() == column_chunks@.len() && forall|i: int| 0 <= i < column_chunks@.len() ==> is_entry(#[trigger] v@[i], entry(chunk@, chunk_offset as int, column_chunks@[i])),
        Err(e) => reserve_error(e) || exists|i: int| 0 <= i < column_chunks@.len() && #[trigger] entry(chunk@, chunk_offset as int, column_chunks@[i]) is None,
    }
//@loop
    invariant
        __x@ == column_chunks@, __k <= column_chunks@.len(), __v@.len() == __k,
        forall|i: int| 0 <= i < __k ==> is_entry(#[trigger] __v@[i], entry(chunk@, chunk_offset as int, column_chunks@[i])),
    decreases column_chunks@.len() - __k
//@end
pub open spec fn bad_group(chunk: Seq<u8>, at: int, g: RowGroup) -> bool { exists|j: int| 0 <= j < g.columns@.len() && #[trigger] entry(chunk, at, g.columns@[j]) is None }
pub open spec fn group_ok(v: Seq<Option<(OffsetIndex, ColumnIndex)>>, chunk: Seq<u8>, at: int, g: RowGroup) -> bool {
    v.len() == g.columns@.len() && forall|j: int| 0 <= j < g.columns@.len() ==> is_entry(#[trigger] v[j], entry(chunk, at, g.columns@[j]))
}
//@mapcollect parquet/src/lib.rs:read_page_index key=read_page_index params=chunk,chunk_offset,file_metadata item="&RowGroup" item_name=rg each="Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError>" props=C18
//@each-spec
    ensures match r { Ok(v) => group_ok(v@, chunk@, chunk_offset as int, *rg), Err(e) => reserve_error(e) || bad_group(chunk@, chunk_offset as int, *rg) }
//@spec
    ensures match r {
        Ok(v) => v@.len() == file_metadata.row_groups@.len() && forall|i: int| 0 <= i < v@.len() ==> group_ok((#[trigger] v@[i])@, chunk@, chunk_offset as int, file_metadata.row_groups@[i]),
        Err(e) => reserve_error(e) || exists|i: int| 0 <= i < file_metadata.row_groups@.len() && bad_group(chunk@, chunk_offset as int, #[trigger] file_metadata.row_groups@[i]),
    }
//@loop
    invariant
        __x@ == file_metadata.row_groups@, __k <= __x@.len(), __v@.len() == __k,
        forall|i: int| 0 <= i < __k ==> group_ok((#[trigger] __v@[i])@, chunk@, chunk_offset as int, file_metadata.row_groups@[i]),
    decreases __x@.len() - __k
//@end

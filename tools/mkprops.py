#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
R='runtime/src/'; P='parquet/src/'
def p(id,title,stmt,over,text,why,files,mech,obs,state=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
props=[
p('C01','Scalar values survive a write/read round trip exactly',
 'Writing any boolean, 8/16/32/64-bit integer, double (bit pattern), length or field id and reading it back yields the identical value. The reader consumes exactly the bytes the writer produced, whatever bytes follow, for slice and stream inputs alike.',
 ['inputs'],'all values of every scalar type, all continuations of the byte sequence',
 'Tests round-trip one i64 and decode a handful of constants; the claim is about 2^64 values per type and any trailing data.',
 [R+'uleb.rs',R+'protocol.rs',R+'types.rs'],
 [('uleb encode/decode',R+'uleb.rs'),('zigzag encode/decode',R+'protocol.rs'),('scalar protocol impls',R+'types.rs')],
 ['CompactThriftInput::read_*','CompactThriftOutput::write_*','read_thrift/write_thrift of scalars']),
p('C02','Written bytes are exactly the Thrift compact protocol encoding',
 'For every value of every supported type the writer emits exactly the byte string the Thrift compact protocol specification prescribes: minimal base-128 integers with zigzag, little-endian doubles, length-prefixed binaries, short-form headers (field-id delta 1 to 15, fewer than 15 elements) whenever applicable and long form otherwise, booleans inside field headers, and a terminating stop byte after each struct. Any other conforming implementation can therefore read what this library writes.',
 ['inputs','programs'],'all values, all field id sequences, all nestings of supported types; every struct definition expressible in the definition language',
 'Existing tests compare written bytes for one boolean list only; round-trip tests cannot notice a symmetric deviation from the wire format.',
 [R+'protocol.rs',R+'types.rs',R+'macros.rs',R+'uleb.rs'],
 [('field headers',R+'protocol.rs write_field_header'),('collection headers',R+'types.rs Vec::write_thrift'),('struct and union bodies',R+'macros.rs write_thrift')],
 ['bytes appended to the output by write_thrift']),
p('C03','Any encodable struct, union, enum or collection round-trips',
 'For every value whose strings, binaries and collections are within the documented limits, writing succeeds on a reliable output and reading the written bytes returns an equal value and consumes exactly those bytes, leaving following data untouched. This holds for scalars, strings, binaries, lists and sets, optional and boxed or reference-counted values, structs, unions and enums nested in any way.',
 ['inputs','programs'],'all values of all types generated from thrift definitions, including nested ones',
 'Tests round-trip three vectors; no struct or union is ever round-tripped by a test.',
 [R+'types.rs',R+'macros.rs',R+'protocol.rs'],
 [('container impls',R+'types.rs'),('generated struct/union/enum impls',R+'macros.rs')],
 ['write_thrift followed by read_thrift']),
p('C04','Field ids with any gaps or order are encoded and decoded correctly',
 'Whatever 16-bit field ids a definition uses (large gaps, negative, zero, not ascending), each written field header decodes to exactly the same field id and wire type given the previous field id. Reading any header sequence never fails or loses track because of the numeric value of an id.',
 ['inputs','programs'],'all pairs of (previous id, id) in 16 bits and all wire types',
 'All ids in the tests are ascending with gap 1; the long form is never exercised.',
 [R+'protocol.rs'],
 [('write_field_header',R+'protocol.rs'),('read_field_header / read_full_field_id',R+'protocol.rs')],
 ['bytes of a field header','field id seen by the reader']),
p('C05','Decoding hostile bytes never panics or leaves the buffer',
 'Decoding any byte sequence as any type, or skipping it as any wire type, from a slice or a stream, terminates with a value or an error; it never panics, overflows in checked builds, or reads outside the supplied bytes. The unread remainder of a successful read is always a suffix of the given bytes.',
 ['inputs'],'all byte sequences of any length, all entry points, builds with overflow checks on or off',
 'Tests feed well-formed bytes only; the claim ranges over all byte strings, including truncated, overlong and random ones.',
 [R+'protocol.rs',R+'uleb.rs',R+'types.rs',R+'macros.rs',P+'encodings.rs'],
 [('bounds checks of slice input',R+'protocol.rs'),('vectorised integer skipping',R+'uleb.rs'),('generated readers',R+'macros.rs')],
 ['result of any read/skip call; process does not abort']),
p('C06','Skipping a field consumes exactly its encoding',
 'Skipping a value of any wire type consumes exactly the bytes that the compact protocol assigns to that value, the same number a typed read would consume, and fails on malformed or truncated encodings. A struct reader therefore returns the same result whether or not unknown fields (nested up to the documented depth limit) are interleaved between known ones.',
 ['inputs','histories'],'all encodings of all wire types, slice lengths around the 16-byte vector width, slice and stream inputs',
 'Tests skip two small vectors; overlong or truncated integers and struct, map, union and nested values are never skipped.',
 [R+'protocol.rs',R+'uleb.rs'],
 [('skip_field / skip_collection / skip_map',R+'protocol.rs'),('skip_uleb_sse2 / skip_uleb_fallback',R+'uleb.rs')],
 ['remaining input after skip_field','values read after unknown fields']),
p('C07','Slice input and stream input agree on every byte sequence',
 'Reading the same bytes through the borrowing slice input and through a standard reader gives equal values or fails in both cases, with the same number of bytes consumed on success.',
 ['inputs'],'all byte sequences and all readable types',
 'No test reads from a stream at all.',
 [R+'protocol.rs'],
 [('blanket impl for Read',R+'protocol.rs'),('CompactThriftInputSlice impl',R+'protocol.rs')],
 ['result and remaining input of both inputs']),
p('C08','Truncated data is always reported as an error',
 'Removing any non-empty suffix from a complete encoding makes reading or skipping that value fail with an error; a value is never produced from an incomplete encoding.',
 ['inputs','crash_points'],'every cut position of every encoding of every type',
 'No test truncates an encoding.',
 [R+'protocol.rs',R+'types.rs',R+'macros.rs',R+'uleb.rs'],
 [('end-of-input checks',R+'protocol.rs')],
 ['result of read on a proper prefix']),
p('C09','Size limits are enforced on both sides before any payload',
 'Binaries or strings longer than 16 MiB and collections or maps of more than 10,000,000 elements are rejected with an error that identifies the limit, when writing before a single byte of the value is emitted and when reading before memory for the declared length is reserved. Everything up to and including the limits is accepted.',
 ['inputs'],'all declared and actual lengths',
 'Tests never come near a limit.',
 [R+'protocol.rs',R+'types.rs'],
 [('MAX_BINARY_LEN, MAX_COLLECTION_LEN',R+'protocol.rs'),('Vec reader and writer',R+'types.rs')],
 ['error returned; output untouched; allocation size']),
p('C10','Required, optional, duplicate and unknown fields are handled as defined',
 'Reading a struct succeeds only if every required field was present, reports a duplicated optional field as an error, leaves absent optional fields unset, ignores unknown field ids of any type, and accepts fields in any order. A required field of a type other than struct that occurs again takes its last value. Absent optional fields are omitted when writing while required fields are always written.',
 ['inputs','histories','programs'],'all sequences of field headers and payloads for all struct definitions',
 'Tests read one file; field orderings, omissions, duplicates and unknown fields are not enumerated.',
 [R+'macros.rs',R+'types.rs'],
 [('generated fill_thrift',R+'macros.rs thrift_struct'),('Option impl',R+'types.rs')],
 ['result of read_thrift for structs']),
p('C11','Wire types that do not match the definition are rejected',
 'A field, union variant or collection whose wire type differs from the type in the definition makes the read fail instead of producing a value. The only leniency is that boolean collections may be tagged with either of the two boolean type codes and boolean fields carry their value in the type code.',
 ['inputs'],'all wire type codes at all positions for all definitions',
 'No test feeds a mismatching type.',
 [R+'protocol.rs',R+'types.rs',R+'macros.rs',P+'encodings.rs'],
 [('fill_thrift_field',R+'protocol.rs'),('element type check',R+'types.rs Vec::fill_thrift')],
 ['result of reading with a wrong type code']),
p('C12','Unions hold exactly one known variant',
 'Reading a union succeeds only if the data consists of exactly one field with a known variant id and matching type followed by the stop byte; an empty union, an unknown variant, or additional fields are errors. Writing a union emits exactly the active variant.',
 ['inputs','programs'],'all byte sequences and all union definitions',
 'Unions are only exercised through one sample file.',
 [R+'macros.rs'],[('generated union reader and writer',R+'macros.rs thrift_union')],['result of read_thrift/write_thrift for unions']),
p('C13','Strings obtained from the wire are always valid UTF-8',
 'Every string value produced by reading is valid UTF-8 and equals the encoded bytes; bytes that are not valid UTF-8 are rejected with an error for every string-like type and both kinds of input.',
 ['inputs'],'all byte strings',
 'No test supplies invalid UTF-8; unchecked conversions would be undefined behaviour.',
 [R+'protocol.rs',R+'types.rs'],[('read_string',R+'protocol.rs'),('string impls',R+'types.rs')],['result of reading strings']),
p('C14','Skipping nested data uses bounded recursion',
 'Skipping any byte sequence as any wire type recurses at most a fixed number of levels and fails beyond that, and the number of steps is bounded by the number of bytes consumed. Data nested no deeper than the limit is skipped successfully.',
 ['inputs'],'all byte sequences, in particular arbitrarily deep nesting',
 'No test nests deeper than one level.',
 [R+'protocol.rs'],[('skip_nested_field, skip_collection, skip_map',R+'protocol.rs')],['skip_field returns; stack depth']),
p('C15','Compact encoding sets behave like the list of encodings they replace',
 'Reading a list of page encodings into the compact set representation yields exactly the set of listed encodings, iteration is in ascending order without duplicates, and writing the set produces a valid list that reads back to the same set. Encodings outside the representable range, negative ones, or lists with a different element type are rejected.',
 ['inputs'],'all lists of 32-bit values and all sets',
 'Tests cover four lists and one invalid value.',
 [P+'encodings.rs'],[('EncodingSet',P+'encodings.rs')],['iter, len, read_thrift, write_thrift']),
p('C16','The footer metadata chunk is located exactly',
 'For any file content the returned metadata chunk consists of exactly the bytes announced by the length word in front of the trailing magic; files that are too short, lack the magic, or announce more bytes than exist produce an error and never a panic.',
 ['inputs'],'all file contents and lengths',
 'One valid sample file is read by the tests.',
 [P+'lib.rs'],[('get_metadata_chunk',P+'lib.rs')],['returned bytes or error']),
p('C17','The page index range covers every page index exactly',
 'The computed page index range starts at the smallest offset and ends at the largest end over all columns that declare both indexes, is absent if there is none, and negative locations are rejected; arithmetic never overflows. The chunk read for this range consists of exactly those file bytes.',
 ['inputs'],'all file metadata, including contradictory or partial locations',
 'No test touches the page index functions.',
 [P+'lib.rs'],[('get_page_index_range, get_page_index_chunk',P+'lib.rs')],['returned range and bytes']),
p('C18','Page indexes are decoded from the right bytes and never panic',
 'For every column the returned entry is present exactly if all four locations are declared, and is then the decoding of exactly the declared byte ranges, in the order of row groups and columns. Locations outside of the supplied chunk, and undecodable bytes, result in an error and never in a panic.',
 ['inputs'],'all metadata, chunks and chunk offsets',
 'No test touches the page index functions.',
 [P+'lib.rs'],[('read_page_index',P+'lib.rs')],['returned indexes or error']),
p('C19','Flattened schemas are rebuilt into the one tree they describe',
 'Converting a flattened schema succeeds exactly if the depth-first list of elements describes one complete tree within the nesting limit whose leaves have a valid physical type; the tree then contains every element once in order, leaves are numbered consecutively in that order, and definition and repetition levels count the non-required respectively repeated ancestors including the field itself. Looking up a path of names yields the first field with these names level by level, and nothing if there is none. Every other list, however malformed, is an error and never a panic.',
 ['inputs'],'all lists of schema elements including negative or excessive child counts and deep nesting',
 'No test converts a schema.',
 [P+'bin/schema.rs'],[('convert_schema, convert_schema_inner, field_from_schema_element',P+'bin/schema.rs')],['resulting tree']),
p('C20','Parquet structures conform to the official Parquet definition',
 'For every struct, union and enum of the official Parquet thrift definition, the bundled Rust types use the official field ids, wire types, requiredness and enum values, so that metadata written by any implementation is decoded into the intended fields and metadata written here is understood by others. Deliberate deviations (two skipped fields and compact encoding sets) stay wire compatible.',
 ['programs','inputs'],'all definitions and all field values',
 'One sample file exercises a fraction of the fields; a wrong id of an optional field would go unnoticed.',
 [P+'format.rs','generator/src/test/resources/parquet.thrift'],[('parquet definitions',P+'format.rs')],['bytes written and fields populated']),
p('C21','Input and output failures are propagated, never swallowed',
 'If the underlying reader or writer fails at any point with any error kind, the operation returns an error of that kind and does not report success; all values already returned were read correctly. Nothing is reported as written unless every byte was handed to the writer in order.',
 ['fault_sequences','inputs'],'every position and kind of failure of the underlying reader or writer, short reads and writes',
 'Tests use in-memory buffers that never fail.',
 [R+'protocol.rs',R+'uleb.rs',R+'types.rs',R+'macros.rs',R+'error.rs'],[('? on every read_exact/write_all',R+'protocol.rs'),('From<io::Error>',R+'error.rs')],['returned error, bytes written so far']),
p('C22','Errors name the missing field or union',
 'The error for a missing required field contains the struct and field name and the error for an unknown union variant contains the union name, readable at any later time and from any thread; converting any static name is memory safe.',
 ['inputs','programs'],'all definitions and all names',
 'One constant name is tested.',
 [R+'error.rs',R+'macros.rs'],[('FieldName',R+'error.rs'),('__thrift_required_check',R+'macros.rs')],['Display of the error']),
p('C23','Generated code from any IDL compiles to equivalent definitions',
 'The stand-alone generator translates every valid thrift definition file into Rust definitions with the same names, ids, types and requiredness.',
 ['programs'],'all thrift files',
 'The generator is not built or tested together with the Rust crates.',
 ['generator/'],[('code generator','generator/src/main/kotlin')],['generated source']),
p('C24','Parquet physical and logical type annotations are interpreted as specified',
 'Physical types, converted types and logical types of a schema element map to the annotation the Parquet specification assigns to them, decimals only with a positive precision and a scale not above it, fixed-length arrays only with a positive length. Annotations that are unknown or do not fit are ignored for logical types (falling back to the converted type) and rejected for physical and repetition types, without any panic.',
 ['inputs'],'all combinations of type codes, lengths, precisions, scales and logical type variants',
 'No test covers these conversions.',
 [P+'bin/schema.rs'],[('PhysicalType, PrimitiveLogicalType, GroupLogicalType, DecimalOptions',P+'bin/schema.rs')],['physical_type, logical_type, repetition of a converted field']),
]
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in props: f.write(json.dumps(x)+'\n')
print(len(props))

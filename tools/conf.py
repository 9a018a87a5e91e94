UNITS = {'rt': dict(tmpl='main.rs.tmpl', mods=['stdspec', 'spec', 'rtspec', 'rt']),
         'ty': dict(tmpl='ty.tmpl', mods=['ty', 'types']),
         # theorems about the specification alone: round trips, prefixes, unknown fields, order of fields, limits
         'meta': dict(tmpl='meta.tmpl', mods=['meta'], probe=False),
         # macro-expanded code: the definitions of idl/samples.thrift, EncodingSet, all definitions of the parquet crate
         'gen': dict(tmpl='gen.tmpl', mods=['sm0', 'sm1', 'sm2'], needs=['samples'], probe=False),
         'enc': dict(tmpl='pq.tmpl', mods=['encs'], needs=['parquet'], probe=False),
         # the functions of the parquet crate that locate the metadata and the page indexes
         'plib': dict(tmpl='plib.tmpl', mods=['plib'], needs=['parquet'], probe=False),
         'sch': dict(tmpl='sch.tmpl', mods=['sch'], needs=['parquet'], probe=False),
         'pq': dict(tmpl='pq.tmpl', mods=['encs'] + [f'pq{i}' for i in range(8)], needs=['parquet'], probe=False)}
KANI = {'sse2': ['C05', 'C06', 'C07']}
RT = ['rt']; BOTH = ['rt', 'pq']
T = ('the thrift! macro for definitions other than those in idl/samples.thrift and the parquet crate: the macro is generic, the proof covers its expansion '
     'for these definitions; the finder samples values and bytes for the same definitions on the compiled code')
SPEC = 'Verus, function by function on the code of /repo: '
def P(bins, units=(), kani=(), level='exploration', note='', bounded=(), more=()):
    return dict(bins=list(bins), units=list(units), kani=list(kani), level=level, note=note, bounded=list(bounded), more=list(more))
PROPS = {
 'C01': P(RT, ['rt', 'ty', 'meta'], level='proof', note=SPEC + 'the primitive writers and readers against uleb_enc/uleb_dec, zz, le64 and their round trip lemmas', bounded=[]),
 'C02': P(BOTH, ['rt', 'ty', 'gen'], level='proof', more=['pq'], note=SPEC + 'every writer appends exactly enc(type, value) resp. the byte-level spec of its primitive; the expanded write_thrift of each sample definition likewise', bounded=[T]),
 'C03': P(BOTH, ['rt', 'ty', 'gen', 'meta'], level='proof', more=['pq'], note=SPEC + 'readers return dec(type, current value, bytes), writers append enc(type, value); the two meet in round trip lemmas', bounded=[T]),
 'C04': P(RT, ['rt', 'meta'], level='proof', note=SPEC + 'write_field_header / read_field_header against hdr_enc / hdr_dec and their round trip lemma for all pairs of ids'),
 'C05': P(BOTH, ['rt', 'ty', 'gen', 'meta'], ['sse2'], level='proof', note=SPEC + 'every reader and skipper is total, in bounds, free of overflow and terminates; the unread remainder is a suffix (part of the contract)', bounded=[T]),
 'C06': P(BOTH, ['rt', 'ty', 'gen', 'meta'], ['sse2'], level='proof', note=SPEC + 'skip_* consume what skip_dec says; generated readers call it for unknown ids (contract of read_thrift: dec ignores exactly these)', bounded=[T]),
 'C07': P(BOTH, ['rt', 'ty', 'gen', 'meta'], ['sse2'], level='proof', note=SPEC + 'the slice and the stream implementation satisfy the same deterministic contract over the remaining bytes; everything above is generic over it', bounded=[T]),
 'C08': P(BOTH, ['rt', 'ty', 'gen', 'meta'], level='proof', note=SPEC + 'dec consumes at most what is there (part of the contract of each reader)', bounded=[T]),
 'C09': P(BOTH, ['rt', 'ty', 'meta'], level='proof', note=SPEC + 'limit checks in read_binary/skip_binary/write_binary/list and map headers with the state unchanged on the error exit'),
 'C10': P(BOTH, ['rt', 'ty', 'gen', 'meta'], level='proof', more=['pq'], note=SPEC + 'expanded fill_thrift of each struct against the loop specification after_hdr/after_field (duplicates, unknown ids, required fields)', bounded=[T]),
 'C11': P(BOTH, ['rt', 'ty', 'gen'], level='proof', more=['pq'], note=SPEC + 'dec_field and dec of collections fail on other wire types', bounded=[T]),
 'C12': P(BOTH, ['rt', 'ty', 'gen'], level='proof', more=['pq'], note=SPEC + 'expanded fill_thrift/write_thrift of each union against the union clauses of dec/enc', bounded=[T]),
 'C13': P(BOTH, ['rt', 'ty', 'meta'], level='proof', note=SPEC + 'read_string and the string types; from_utf8 has an assumed contract (valid_utf8, same bytes)'),
 'C14': P(RT, ['rt', 'meta'], level='proof', note=SPEC + 'depth parameter and decreases clause of skip_nested_field'),
 'C15': P(['pq'], ['enc', 'meta'], level='proof', note=SPEC + 'EncodingSet: iter, len, is_empty, fill_thrift, write_thrift against the set of listed encodings'),
 'C16': P(['pq'], ['plib'], level='proof', note=SPEC + 'get_metadata_chunk returns exactly metadata_of(file) and fails only if that is absent or the source fails'),
 'C17': P(['pq'], ['plib'], level='proof', note=SPEC + 'get_page_index_range and get_page_index_chunk against extent(columns of all row groups), which thm_extent characterizes'),
 'C18': P(['pq'], ['plib'], level='proof', more=['pq'], note=SPEC + 'get_index_bytes, read_page_index_for_column_chunk and read_page_index against the decoding of the located bytes of every column, position by position'),
 'C19': P(['schema'], ['sch'], level='proof', note=SPEC + 'convert_schema, convert_schema_inner, field_from_schema_element against the depth-first parser parse; thm_parse_sound and thm_parse_complete: parse succeeds exactly on the flattenings of valid trees, with leaves numbered in order and levels counting ancestors'),
 'C20': P(['pq'], ['pq'], level='proof', note=SPEC + 'expanded code of every parquet struct, union and enum against enc/dec of the type recorded in idl/parquet.json'),
 'C21': P(BOTH, ['rt', 'ty', 'gen'], level='proof', note=SPEC + 'the contracts of Read/Write carry the error kind; every error exit returns it', bounded=[T]),
 'C22': P(BOTH, ['rt', 'gen'], level='proof', more=['pq'], note=SPEC + 'FieldName: the stored pointer is to static text with a NUL (type invariant), both constructors and both formatters; every MissingField(..) of the expanded macro code: precondition on the name'),
 'C24': P(['schema'], ['sch'], level='proof', note=SPEC + 'every conversion of a type annotation against the tables of parquet.thrift, and the clauses of field_from_schema_element on annotations'),
}

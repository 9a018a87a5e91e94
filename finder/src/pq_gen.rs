// generated by tools/gen_finder.py
pub static D_SIZESTATISTICS: StructDef = StructDef { name: "SizeStatistics", fields: f_SizeStatistics };
#[allow(non_snake_case)] fn f_SizeStatistics() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "unencoded_byte_array_data_bytes", ty: Ty::I64 }, FieldDef { id: 2, required: false, name: "repetition_level_histogram", ty: Ty::List(Box::new(Ty::I64)) }, FieldDef { id: 3, required: false, name: "definition_level_histogram", ty: Ty::List(Box::new(Ty::I64)) }] }
pub static D_BOUNDINGBOX: StructDef = StructDef { name: "BoundingBox", fields: f_BoundingBox };
#[allow(non_snake_case)] fn f_BoundingBox() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "xmin", ty: Ty::Double }, FieldDef { id: 2, required: true, name: "xmax", ty: Ty::Double }, FieldDef { id: 3, required: true, name: "ymin", ty: Ty::Double }, FieldDef { id: 4, required: true, name: "ymax", ty: Ty::Double }, FieldDef { id: 5, required: false, name: "zmin", ty: Ty::Double }, FieldDef { id: 6, required: false, name: "zmax", ty: Ty::Double }, FieldDef { id: 7, required: false, name: "mmin", ty: Ty::Double }, FieldDef { id: 8, required: false, name: "mmax", ty: Ty::Double }] }
pub static D_GEOSPATIALSTATISTICS: StructDef = StructDef { name: "GeospatialStatistics", fields: f_GeospatialStatistics };
#[allow(non_snake_case)] fn f_GeospatialStatistics() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "bbox", ty: Ty::Struct(&D_BOUNDINGBOX) }, FieldDef { id: 2, required: false, name: "geospatial_types", ty: Ty::List(Box::new(Ty::I32)) }] }
pub static D_STATISTICS: StructDef = StructDef { name: "Statistics", fields: f_Statistics };
#[allow(non_snake_case)] fn f_Statistics() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "max", ty: Ty::Bin }, FieldDef { id: 2, required: false, name: "min", ty: Ty::Bin }, FieldDef { id: 3, required: false, name: "null_count", ty: Ty::I64 }, FieldDef { id: 4, required: false, name: "distinct_count", ty: Ty::I64 }, FieldDef { id: 5, required: false, name: "max_value", ty: Ty::Bin }, FieldDef { id: 6, required: false, name: "min_value", ty: Ty::Bin }, FieldDef { id: 7, required: false, name: "is_max_value_exact", ty: Ty::Bool }, FieldDef { id: 8, required: false, name: "is_min_value_exact", ty: Ty::Bool }] }
pub static D_STRINGTYPE: StructDef = StructDef { name: "StringType", fields: f_StringType };
#[allow(non_snake_case)] fn f_StringType() -> Vec<FieldDef> { vec![] }
pub static D_UUIDTYPE: StructDef = StructDef { name: "UUIDType", fields: f_UUIDType };
#[allow(non_snake_case)] fn f_UUIDType() -> Vec<FieldDef> { vec![] }
pub static D_MAPTYPE: StructDef = StructDef { name: "MapType", fields: f_MapType };
#[allow(non_snake_case)] fn f_MapType() -> Vec<FieldDef> { vec![] }
pub static D_LISTTYPE: StructDef = StructDef { name: "ListType", fields: f_ListType };
#[allow(non_snake_case)] fn f_ListType() -> Vec<FieldDef> { vec![] }
pub static D_ENUMTYPE: StructDef = StructDef { name: "EnumType", fields: f_EnumType };
#[allow(non_snake_case)] fn f_EnumType() -> Vec<FieldDef> { vec![] }
pub static D_DATETYPE: StructDef = StructDef { name: "DateType", fields: f_DateType };
#[allow(non_snake_case)] fn f_DateType() -> Vec<FieldDef> { vec![] }
pub static D_FLOAT16TYPE: StructDef = StructDef { name: "Float16Type", fields: f_Float16Type };
#[allow(non_snake_case)] fn f_Float16Type() -> Vec<FieldDef> { vec![] }
pub static D_NULLTYPE: StructDef = StructDef { name: "NullType", fields: f_NullType };
#[allow(non_snake_case)] fn f_NullType() -> Vec<FieldDef> { vec![] }
pub static D_DECIMALTYPE: StructDef = StructDef { name: "DecimalType", fields: f_DecimalType };
#[allow(non_snake_case)] fn f_DecimalType() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "scale", ty: Ty::I32 }, FieldDef { id: 2, required: true, name: "precision", ty: Ty::I32 }] }
pub static D_MILLISECONDS: StructDef = StructDef { name: "MilliSeconds", fields: f_MilliSeconds };
#[allow(non_snake_case)] fn f_MilliSeconds() -> Vec<FieldDef> { vec![] }
pub static D_MICROSECONDS: StructDef = StructDef { name: "MicroSeconds", fields: f_MicroSeconds };
#[allow(non_snake_case)] fn f_MicroSeconds() -> Vec<FieldDef> { vec![] }
pub static D_NANOSECONDS: StructDef = StructDef { name: "NanoSeconds", fields: f_NanoSeconds };
#[allow(non_snake_case)] fn f_NanoSeconds() -> Vec<FieldDef> { vec![] }
pub static D_TIMEUNIT: StructDef = StructDef { name: "TimeUnit", fields: f_TimeUnit };
#[allow(non_snake_case)] fn f_TimeUnit() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "MILLIS", ty: Ty::Struct(&D_MILLISECONDS) }, FieldDef { id: 2, required: true, name: "MICROS", ty: Ty::Struct(&D_MICROSECONDS) }, FieldDef { id: 3, required: true, name: "NANOS", ty: Ty::Struct(&D_NANOSECONDS) }] }
pub static D_TIMESTAMPTYPE: StructDef = StructDef { name: "TimestampType", fields: f_TimestampType };
#[allow(non_snake_case)] fn f_TimestampType() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "isAdjustedToUTC", ty: Ty::Bool }, FieldDef { id: 2, required: true, name: "unit", ty: Ty::Union(&D_TIMEUNIT) }] }
pub static D_TIMETYPE: StructDef = StructDef { name: "TimeType", fields: f_TimeType };
#[allow(non_snake_case)] fn f_TimeType() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "isAdjustedToUTC", ty: Ty::Bool }, FieldDef { id: 2, required: true, name: "unit", ty: Ty::Union(&D_TIMEUNIT) }] }
pub static D_INTTYPE: StructDef = StructDef { name: "IntType", fields: f_IntType };
#[allow(non_snake_case)] fn f_IntType() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "bitWidth", ty: Ty::I8 }, FieldDef { id: 2, required: true, name: "isSigned", ty: Ty::Bool }] }
pub static D_JSONTYPE: StructDef = StructDef { name: "JsonType", fields: f_JsonType };
#[allow(non_snake_case)] fn f_JsonType() -> Vec<FieldDef> { vec![] }
pub static D_BSONTYPE: StructDef = StructDef { name: "BsonType", fields: f_BsonType };
#[allow(non_snake_case)] fn f_BsonType() -> Vec<FieldDef> { vec![] }
pub static D_VARIANTTYPE: StructDef = StructDef { name: "VariantType", fields: f_VariantType };
#[allow(non_snake_case)] fn f_VariantType() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "specification_version", ty: Ty::I8 }] }
pub static D_GEOMETRYTYPE: StructDef = StructDef { name: "GeometryType", fields: f_GeometryType };
#[allow(non_snake_case)] fn f_GeometryType() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "crs", ty: Ty::Str }] }
pub static D_GEOGRAPHYTYPE: StructDef = StructDef { name: "GeographyType", fields: f_GeographyType };
#[allow(non_snake_case)] fn f_GeographyType() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "crs", ty: Ty::Str }, FieldDef { id: 2, required: false, name: "algorithm", ty: Ty::Enum("EdgeInterpolationAlgorithm") }] }
pub static D_LOGICALTYPE: StructDef = StructDef { name: "LogicalType", fields: f_LogicalType };
#[allow(non_snake_case)] fn f_LogicalType() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "STRING", ty: Ty::Struct(&D_STRINGTYPE) }, FieldDef { id: 2, required: true, name: "MAP", ty: Ty::Struct(&D_MAPTYPE) }, FieldDef { id: 3, required: true, name: "LIST", ty: Ty::Struct(&D_LISTTYPE) }, FieldDef { id: 4, required: true, name: "ENUM", ty: Ty::Struct(&D_ENUMTYPE) }, FieldDef { id: 5, required: true, name: "DECIMAL", ty: Ty::Struct(&D_DECIMALTYPE) }, FieldDef { id: 6, required: true, name: "DATE", ty: Ty::Struct(&D_DATETYPE) }, FieldDef { id: 7, required: true, name: "TIME", ty: Ty::Struct(&D_TIMETYPE) }, FieldDef { id: 8, required: true, name: "TIMESTAMP", ty: Ty::Struct(&D_TIMESTAMPTYPE) }, FieldDef { id: 10, required: true, name: "INTEGER", ty: Ty::Struct(&D_INTTYPE) }, FieldDef { id: 11, required: true, name: "UNKNOWN", ty: Ty::Struct(&D_NULLTYPE) }, FieldDef { id: 12, required: true, name: "JSON", ty: Ty::Struct(&D_JSONTYPE) }, FieldDef { id: 13, required: true, name: "BSON", ty: Ty::Struct(&D_BSONTYPE) }, FieldDef { id: 14, required: true, name: "UUID", ty: Ty::Struct(&D_UUIDTYPE) }, FieldDef { id: 15, required: true, name: "FLOAT16", ty: Ty::Struct(&D_FLOAT16TYPE) }, FieldDef { id: 16, required: true, name: "VARIANT", ty: Ty::Struct(&D_VARIANTTYPE) }, FieldDef { id: 17, required: true, name: "GEOMETRY", ty: Ty::Struct(&D_GEOMETRYTYPE) }, FieldDef { id: 18, required: true, name: "GEOGRAPHY", ty: Ty::Struct(&D_GEOGRAPHYTYPE) }] }
pub static D_SCHEMAELEMENT: StructDef = StructDef { name: "SchemaElement", fields: f_SchemaElement };
#[allow(non_snake_case)] fn f_SchemaElement() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "type_", ty: Ty::Enum("Type") }, FieldDef { id: 2, required: false, name: "type_length", ty: Ty::I32 }, FieldDef { id: 3, required: false, name: "repetition_type", ty: Ty::Enum("FieldRepetitionType") }, FieldDef { id: 4, required: true, name: "name", ty: Ty::Str }, FieldDef { id: 5, required: false, name: "num_children", ty: Ty::I32 }, FieldDef { id: 6, required: false, name: "converted_type", ty: Ty::Enum("ConvertedType") }, FieldDef { id: 7, required: false, name: "scale", ty: Ty::I32 }, FieldDef { id: 8, required: false, name: "precision", ty: Ty::I32 }, FieldDef { id: 9, required: false, name: "field_id", ty: Ty::I32 }, FieldDef { id: 10, required: false, name: "logicalType", ty: Ty::Union(&D_LOGICALTYPE) }] }
pub static D_DATAPAGEHEADER: StructDef = StructDef { name: "DataPageHeader", fields: f_DataPageHeader };
#[allow(non_snake_case)] fn f_DataPageHeader() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "num_values", ty: Ty::I32 }, FieldDef { id: 2, required: true, name: "encoding", ty: Ty::Enum("Encoding") }, FieldDef { id: 3, required: true, name: "definition_level_encoding", ty: Ty::Enum("Encoding") }, FieldDef { id: 4, required: true, name: "repetition_level_encoding", ty: Ty::Enum("Encoding") }, FieldDef { id: 5, required: false, name: "statistics", ty: Ty::Struct(&D_STATISTICS) }] }
pub static D_INDEXPAGEHEADER: StructDef = StructDef { name: "IndexPageHeader", fields: f_IndexPageHeader };
#[allow(non_snake_case)] fn f_IndexPageHeader() -> Vec<FieldDef> { vec![] }
pub static D_DICTIONARYPAGEHEADER: StructDef = StructDef { name: "DictionaryPageHeader", fields: f_DictionaryPageHeader };
#[allow(non_snake_case)] fn f_DictionaryPageHeader() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "num_values", ty: Ty::I32 }, FieldDef { id: 2, required: true, name: "encoding", ty: Ty::Enum("Encoding") }, FieldDef { id: 3, required: false, name: "is_sorted", ty: Ty::Bool }] }
pub static D_DATAPAGEHEADERV2: StructDef = StructDef { name: "DataPageHeaderV2", fields: f_DataPageHeaderV2 };
#[allow(non_snake_case)] fn f_DataPageHeaderV2() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "num_values", ty: Ty::I32 }, FieldDef { id: 2, required: true, name: "num_nulls", ty: Ty::I32 }, FieldDef { id: 3, required: true, name: "num_rows", ty: Ty::I32 }, FieldDef { id: 4, required: true, name: "encoding", ty: Ty::Enum("Encoding") }, FieldDef { id: 5, required: true, name: "definition_levels_byte_length", ty: Ty::I32 }, FieldDef { id: 6, required: true, name: "repetition_levels_byte_length", ty: Ty::I32 }, FieldDef { id: 7, required: false, name: "is_compressed", ty: Ty::Bool }, FieldDef { id: 8, required: false, name: "statistics", ty: Ty::Struct(&D_STATISTICS) }] }
pub static D_SPLITBLOCKALGORITHM: StructDef = StructDef { name: "SplitBlockAlgorithm", fields: f_SplitBlockAlgorithm };
#[allow(non_snake_case)] fn f_SplitBlockAlgorithm() -> Vec<FieldDef> { vec![] }
pub static D_BLOOMFILTERALGORITHM: StructDef = StructDef { name: "BloomFilterAlgorithm", fields: f_BloomFilterAlgorithm };
#[allow(non_snake_case)] fn f_BloomFilterAlgorithm() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "BLOCK", ty: Ty::Struct(&D_SPLITBLOCKALGORITHM) }] }
pub static D_XXHASH: StructDef = StructDef { name: "XxHash", fields: f_XxHash };
#[allow(non_snake_case)] fn f_XxHash() -> Vec<FieldDef> { vec![] }
pub static D_BLOOMFILTERHASH: StructDef = StructDef { name: "BloomFilterHash", fields: f_BloomFilterHash };
#[allow(non_snake_case)] fn f_BloomFilterHash() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "XXHASH", ty: Ty::Struct(&D_XXHASH) }] }
pub static D_UNCOMPRESSED: StructDef = StructDef { name: "Uncompressed", fields: f_Uncompressed };
#[allow(non_snake_case)] fn f_Uncompressed() -> Vec<FieldDef> { vec![] }
pub static D_BLOOMFILTERCOMPRESSION: StructDef = StructDef { name: "BloomFilterCompression", fields: f_BloomFilterCompression };
#[allow(non_snake_case)] fn f_BloomFilterCompression() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "UNCOMPRESSED", ty: Ty::Struct(&D_UNCOMPRESSED) }] }
pub static D_BLOOMFILTERHEADER: StructDef = StructDef { name: "BloomFilterHeader", fields: f_BloomFilterHeader };
#[allow(non_snake_case)] fn f_BloomFilterHeader() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "numBytes", ty: Ty::I32 }, FieldDef { id: 2, required: true, name: "algorithm", ty: Ty::Union(&D_BLOOMFILTERALGORITHM) }, FieldDef { id: 3, required: true, name: "hash", ty: Ty::Union(&D_BLOOMFILTERHASH) }, FieldDef { id: 4, required: true, name: "compression", ty: Ty::Union(&D_BLOOMFILTERCOMPRESSION) }] }
pub static D_PAGEHEADER: StructDef = StructDef { name: "PageHeader", fields: f_PageHeader };
#[allow(non_snake_case)] fn f_PageHeader() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "type_", ty: Ty::Enum("PageType") }, FieldDef { id: 2, required: true, name: "uncompressed_page_size", ty: Ty::I32 }, FieldDef { id: 3, required: true, name: "compressed_page_size", ty: Ty::I32 }, FieldDef { id: 4, required: false, name: "crc", ty: Ty::I32 }, FieldDef { id: 5, required: false, name: "data_page_header", ty: Ty::Struct(&D_DATAPAGEHEADER) }, FieldDef { id: 6, required: false, name: "index_page_header", ty: Ty::Struct(&D_INDEXPAGEHEADER) }, FieldDef { id: 7, required: false, name: "dictionary_page_header", ty: Ty::Struct(&D_DICTIONARYPAGEHEADER) }, FieldDef { id: 8, required: false, name: "data_page_header_v2", ty: Ty::Struct(&D_DATAPAGEHEADERV2) }] }
pub static D_KEYVALUE: StructDef = StructDef { name: "KeyValue", fields: f_KeyValue };
#[allow(non_snake_case)] fn f_KeyValue() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "key", ty: Ty::Str }, FieldDef { id: 2, required: false, name: "value", ty: Ty::Str }] }
pub static D_SORTINGCOLUMN: StructDef = StructDef { name: "SortingColumn", fields: f_SortingColumn };
#[allow(non_snake_case)] fn f_SortingColumn() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "column_idx", ty: Ty::I32 }, FieldDef { id: 2, required: true, name: "descending", ty: Ty::Bool }, FieldDef { id: 3, required: true, name: "nulls_first", ty: Ty::Bool }] }
pub static D_PAGEENCODINGSTATS: StructDef = StructDef { name: "PageEncodingStats", fields: f_PageEncodingStats };
#[allow(non_snake_case)] fn f_PageEncodingStats() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "page_type", ty: Ty::Enum("PageType") }, FieldDef { id: 2, required: true, name: "encoding", ty: Ty::Enum("Encoding") }, FieldDef { id: 3, required: true, name: "count", ty: Ty::I32 }] }
pub static D_COLUMNMETADATA: StructDef = StructDef { name: "ColumnMetaData", fields: f_ColumnMetaData };
#[allow(non_snake_case)] fn f_ColumnMetaData() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "type_", ty: Ty::Enum("Type") }, FieldDef { id: 2, required: true, name: "encodings", ty: Ty::EncSet }, FieldDef { id: 4, required: true, name: "codec", ty: Ty::Enum("CompressionCodec") }, FieldDef { id: 5, required: true, name: "num_values", ty: Ty::I64 }, FieldDef { id: 6, required: true, name: "total_uncompressed_size", ty: Ty::I64 }, FieldDef { id: 7, required: true, name: "total_compressed_size", ty: Ty::I64 }, FieldDef { id: 8, required: false, name: "key_value_metadata", ty: Ty::List(Box::new(Ty::Struct(&D_KEYVALUE))) }, FieldDef { id: 9, required: true, name: "data_page_offset", ty: Ty::I64 }, FieldDef { id: 11, required: false, name: "dictionary_page_offset", ty: Ty::I64 }, FieldDef { id: 12, required: false, name: "statistics", ty: Ty::Struct(&D_STATISTICS) }, FieldDef { id: 13, required: false, name: "encoding_stats", ty: Ty::List(Box::new(Ty::Struct(&D_PAGEENCODINGSTATS))) }, FieldDef { id: 14, required: false, name: "bloom_filter_offset", ty: Ty::I64 }, FieldDef { id: 15, required: false, name: "bloom_filter_length", ty: Ty::I32 }, FieldDef { id: 16, required: false, name: "size_statistics", ty: Ty::Struct(&D_SIZESTATISTICS) }, FieldDef { id: 17, required: false, name: "geospatial_statistics", ty: Ty::Struct(&D_GEOSPATIALSTATISTICS) }] }
pub static D_ENCRYPTIONWITHFOOTERKEY: StructDef = StructDef { name: "EncryptionWithFooterKey", fields: f_EncryptionWithFooterKey };
#[allow(non_snake_case)] fn f_EncryptionWithFooterKey() -> Vec<FieldDef> { vec![] }
pub static D_ENCRYPTIONWITHCOLUMNKEY: StructDef = StructDef { name: "EncryptionWithColumnKey", fields: f_EncryptionWithColumnKey };
#[allow(non_snake_case)] fn f_EncryptionWithColumnKey() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "path_in_schema", ty: Ty::List(Box::new(Ty::Str)) }, FieldDef { id: 2, required: false, name: "key_metadata", ty: Ty::Bin }] }
pub static D_COLUMNCRYPTOMETADATA: StructDef = StructDef { name: "ColumnCryptoMetaData", fields: f_ColumnCryptoMetaData };
#[allow(non_snake_case)] fn f_ColumnCryptoMetaData() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "ENCRYPTION_WITH_FOOTER_KEY", ty: Ty::Struct(&D_ENCRYPTIONWITHFOOTERKEY) }, FieldDef { id: 2, required: true, name: "ENCRYPTION_WITH_COLUMN_KEY", ty: Ty::Struct(&D_ENCRYPTIONWITHCOLUMNKEY) }] }
pub static D_COLUMNCHUNK: StructDef = StructDef { name: "ColumnChunk", fields: f_ColumnChunk };
#[allow(non_snake_case)] fn f_ColumnChunk() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "file_path", ty: Ty::Str }, FieldDef { id: 2, required: true, name: "file_offset", ty: Ty::I64 }, FieldDef { id: 3, required: false, name: "meta_data", ty: Ty::Struct(&D_COLUMNMETADATA) }, FieldDef { id: 4, required: false, name: "offset_index_offset", ty: Ty::I64 }, FieldDef { id: 5, required: false, name: "offset_index_length", ty: Ty::I32 }, FieldDef { id: 6, required: false, name: "column_index_offset", ty: Ty::I64 }, FieldDef { id: 7, required: false, name: "column_index_length", ty: Ty::I32 }, FieldDef { id: 8, required: false, name: "crypto_metadata", ty: Ty::Union(&D_COLUMNCRYPTOMETADATA) }, FieldDef { id: 9, required: false, name: "encrypted_column_metadata", ty: Ty::Bin }] }
pub static D_ROWGROUP: StructDef = StructDef { name: "RowGroup", fields: f_RowGroup };
#[allow(non_snake_case)] fn f_RowGroup() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "columns", ty: Ty::List(Box::new(Ty::Struct(&D_COLUMNCHUNK))) }, FieldDef { id: 2, required: true, name: "total_byte_size", ty: Ty::I64 }, FieldDef { id: 3, required: true, name: "num_rows", ty: Ty::I64 }, FieldDef { id: 4, required: false, name: "sorting_columns", ty: Ty::List(Box::new(Ty::Struct(&D_SORTINGCOLUMN))) }, FieldDef { id: 5, required: false, name: "file_offset", ty: Ty::I64 }, FieldDef { id: 6, required: false, name: "total_compressed_size", ty: Ty::I64 }, FieldDef { id: 7, required: false, name: "ordinal", ty: Ty::I16 }] }
pub static D_TYPEDEFINEDORDER: StructDef = StructDef { name: "TypeDefinedOrder", fields: f_TypeDefinedOrder };
#[allow(non_snake_case)] fn f_TypeDefinedOrder() -> Vec<FieldDef> { vec![] }
pub static D_COLUMNORDER: StructDef = StructDef { name: "ColumnOrder", fields: f_ColumnOrder };
#[allow(non_snake_case)] fn f_ColumnOrder() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "TYPE_ORDER", ty: Ty::Struct(&D_TYPEDEFINEDORDER) }] }
pub static D_PAGELOCATION: StructDef = StructDef { name: "PageLocation", fields: f_PageLocation };
#[allow(non_snake_case)] fn f_PageLocation() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "offset", ty: Ty::I64 }, FieldDef { id: 2, required: true, name: "compressed_page_size", ty: Ty::I32 }, FieldDef { id: 3, required: true, name: "first_row_index", ty: Ty::I64 }] }
pub static D_OFFSETINDEX: StructDef = StructDef { name: "OffsetIndex", fields: f_OffsetIndex };
#[allow(non_snake_case)] fn f_OffsetIndex() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "page_locations", ty: Ty::List(Box::new(Ty::Struct(&D_PAGELOCATION))) }, FieldDef { id: 2, required: false, name: "unencoded_byte_array_data_bytes", ty: Ty::List(Box::new(Ty::I64)) }] }
pub static D_COLUMNINDEX: StructDef = StructDef { name: "ColumnIndex", fields: f_ColumnIndex };
#[allow(non_snake_case)] fn f_ColumnIndex() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "null_pages", ty: Ty::List(Box::new(Ty::Bool)) }, FieldDef { id: 2, required: true, name: "min_values", ty: Ty::List(Box::new(Ty::Bin)) }, FieldDef { id: 3, required: true, name: "max_values", ty: Ty::List(Box::new(Ty::Bin)) }, FieldDef { id: 4, required: true, name: "boundary_order", ty: Ty::Enum("BoundaryOrder") }, FieldDef { id: 5, required: false, name: "null_counts", ty: Ty::List(Box::new(Ty::I64)) }, FieldDef { id: 6, required: false, name: "repetition_level_histograms", ty: Ty::List(Box::new(Ty::I64)) }, FieldDef { id: 7, required: false, name: "definition_level_histograms", ty: Ty::List(Box::new(Ty::I64)) }] }
pub static D_AESGCMV1: StructDef = StructDef { name: "AesGcmV1", fields: f_AesGcmV1 };
#[allow(non_snake_case)] fn f_AesGcmV1() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "aad_prefix", ty: Ty::Bin }, FieldDef { id: 2, required: false, name: "aad_file_unique", ty: Ty::Bin }, FieldDef { id: 3, required: false, name: "supply_aad_prefix", ty: Ty::Bool }] }
pub static D_AESGCMCTRV1: StructDef = StructDef { name: "AesGcmCtrV1", fields: f_AesGcmCtrV1 };
#[allow(non_snake_case)] fn f_AesGcmCtrV1() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "aad_prefix", ty: Ty::Bin }, FieldDef { id: 2, required: false, name: "aad_file_unique", ty: Ty::Bin }, FieldDef { id: 3, required: false, name: "supply_aad_prefix", ty: Ty::Bool }] }
pub static D_ENCRYPTIONALGORITHM: StructDef = StructDef { name: "EncryptionAlgorithm", fields: f_EncryptionAlgorithm };
#[allow(non_snake_case)] fn f_EncryptionAlgorithm() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "AES_GCM_V1", ty: Ty::Struct(&D_AESGCMV1) }, FieldDef { id: 2, required: true, name: "AES_GCM_CTR_V1", ty: Ty::Struct(&D_AESGCMCTRV1) }] }
pub static D_FILEMETADATA: StructDef = StructDef { name: "FileMetaData", fields: f_FileMetaData };
#[allow(non_snake_case)] fn f_FileMetaData() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "version", ty: Ty::I32 }, FieldDef { id: 2, required: true, name: "schema", ty: Ty::List(Box::new(Ty::Struct(&D_SCHEMAELEMENT))) }, FieldDef { id: 3, required: true, name: "num_rows", ty: Ty::I64 }, FieldDef { id: 4, required: true, name: "row_groups", ty: Ty::List(Box::new(Ty::Struct(&D_ROWGROUP))) }, FieldDef { id: 5, required: false, name: "key_value_metadata", ty: Ty::List(Box::new(Ty::Struct(&D_KEYVALUE))) }, FieldDef { id: 6, required: false, name: "created_by", ty: Ty::Str }, FieldDef { id: 7, required: false, name: "column_orders", ty: Ty::List(Box::new(Ty::Union(&D_COLUMNORDER))) }, FieldDef { id: 8, required: false, name: "encryption_algorithm", ty: Ty::Union(&D_ENCRYPTIONALGORITHM) }, FieldDef { id: 9, required: false, name: "footer_signing_key_metadata", ty: Ty::Bin }] }
pub static D_FILECRYPTOMETADATA: StructDef = StructDef { name: "FileCryptoMetaData", fields: f_FileCryptoMetaData };
#[allow(non_snake_case)] fn f_FileCryptoMetaData() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "encryption_algorithm", ty: Ty::Union(&D_ENCRYPTIONALGORITHM) }, FieldDef { id: 2, required: false, name: "key_metadata", ty: Ty::Bin }] }
pub fn pq_ops() -> Vec<Ops> { vec![ops_dbg::<format::Type>("Type", Ty::Enum("Type")), ops_dbg::<format::ConvertedType>("ConvertedType", Ty::Enum("ConvertedType")), ops_dbg::<format::FieldRepetitionType>("FieldRepetitionType", Ty::Enum("FieldRepetitionType")), ops_dbg::<format::SizeStatistics>("SizeStatistics", Ty::Struct(&D_SIZESTATISTICS)), ops_dbg::<format::BoundingBox>("BoundingBox", Ty::Struct(&D_BOUNDINGBOX)), ops_dbg::<format::GeospatialStatistics>("GeospatialStatistics", Ty::Struct(&D_GEOSPATIALSTATISTICS)), ops_dbg::<format::Statistics>("Statistics", Ty::Struct(&D_STATISTICS)), ops_dbg::<format::StringType>("StringType", Ty::Struct(&D_STRINGTYPE)), ops_dbg::<format::UUIDType>("UUIDType", Ty::Struct(&D_UUIDTYPE)), ops_dbg::<format::MapType>("MapType", Ty::Struct(&D_MAPTYPE)), ops_dbg::<format::ListType>("ListType", Ty::Struct(&D_LISTTYPE)), ops_dbg::<format::EnumType>("EnumType", Ty::Struct(&D_ENUMTYPE)), ops_dbg::<format::DateType>("DateType", Ty::Struct(&D_DATETYPE)), ops_dbg::<format::Float16Type>("Float16Type", Ty::Struct(&D_FLOAT16TYPE)), ops_dbg::<format::NullType>("NullType", Ty::Struct(&D_NULLTYPE)), ops_dbg::<format::DecimalType>("DecimalType", Ty::Struct(&D_DECIMALTYPE)), ops_dbg::<format::MilliSeconds>("MilliSeconds", Ty::Struct(&D_MILLISECONDS)), ops_dbg::<format::MicroSeconds>("MicroSeconds", Ty::Struct(&D_MICROSECONDS)), ops_dbg::<format::NanoSeconds>("NanoSeconds", Ty::Struct(&D_NANOSECONDS)), ops_dbg::<format::TimeUnit>("TimeUnit", Ty::Union(&D_TIMEUNIT)), ops_dbg::<format::TimestampType>("TimestampType", Ty::Struct(&D_TIMESTAMPTYPE)), ops_dbg::<format::TimeType>("TimeType", Ty::Struct(&D_TIMETYPE)), ops_dbg::<format::IntType>("IntType", Ty::Struct(&D_INTTYPE)), ops_dbg::<format::JsonType>("JsonType", Ty::Struct(&D_JSONTYPE)), ops_dbg::<format::BsonType>("BsonType", Ty::Struct(&D_BSONTYPE)), ops_dbg::<format::VariantType>("VariantType", Ty::Struct(&D_VARIANTTYPE)), ops_dbg::<format::EdgeInterpolationAlgorithm>("EdgeInterpolationAlgorithm", Ty::Enum("EdgeInterpolationAlgorithm")), ops_dbg::<format::GeometryType>("GeometryType", Ty::Struct(&D_GEOMETRYTYPE)), ops_dbg::<format::GeographyType>("GeographyType", Ty::Struct(&D_GEOGRAPHYTYPE)), ops_dbg::<format::LogicalType>("LogicalType", Ty::Union(&D_LOGICALTYPE)), ops_dbg::<format::SchemaElement>("SchemaElement", Ty::Struct(&D_SCHEMAELEMENT)), ops_dbg::<format::Encoding>("Encoding", Ty::Enum("Encoding")), ops_dbg::<format::CompressionCodec>("CompressionCodec", Ty::Enum("CompressionCodec")), ops_dbg::<format::PageType>("PageType", Ty::Enum("PageType")), ops_dbg::<format::BoundaryOrder>("BoundaryOrder", Ty::Enum("BoundaryOrder")), ops_dbg::<format::DataPageHeader>("DataPageHeader", Ty::Struct(&D_DATAPAGEHEADER)), ops_dbg::<format::IndexPageHeader>("IndexPageHeader", Ty::Struct(&D_INDEXPAGEHEADER)), ops_dbg::<format::DictionaryPageHeader>("DictionaryPageHeader", Ty::Struct(&D_DICTIONARYPAGEHEADER)), ops_dbg::<format::DataPageHeaderV2>("DataPageHeaderV2", Ty::Struct(&D_DATAPAGEHEADERV2)), ops_dbg::<format::SplitBlockAlgorithm>("SplitBlockAlgorithm", Ty::Struct(&D_SPLITBLOCKALGORITHM)), ops_dbg::<format::BloomFilterAlgorithm>("BloomFilterAlgorithm", Ty::Union(&D_BLOOMFILTERALGORITHM)), ops_dbg::<format::XxHash>("XxHash", Ty::Struct(&D_XXHASH)), ops_dbg::<format::BloomFilterHash>("BloomFilterHash", Ty::Union(&D_BLOOMFILTERHASH)), ops_dbg::<format::Uncompressed>("Uncompressed", Ty::Struct(&D_UNCOMPRESSED)), ops_dbg::<format::BloomFilterCompression>("BloomFilterCompression", Ty::Union(&D_BLOOMFILTERCOMPRESSION)), ops_dbg::<format::BloomFilterHeader>("BloomFilterHeader", Ty::Struct(&D_BLOOMFILTERHEADER)), ops_dbg::<format::PageHeader>("PageHeader", Ty::Struct(&D_PAGEHEADER)), ops_dbg::<format::KeyValue>("KeyValue", Ty::Struct(&D_KEYVALUE)), ops_dbg::<format::SortingColumn>("SortingColumn", Ty::Struct(&D_SORTINGCOLUMN)), ops_dbg::<format::PageEncodingStats>("PageEncodingStats", Ty::Struct(&D_PAGEENCODINGSTATS)), ops_dbg::<format::ColumnMetaData>("ColumnMetaData", Ty::Struct(&D_COLUMNMETADATA)), ops_dbg::<format::EncryptionWithFooterKey>("EncryptionWithFooterKey", Ty::Struct(&D_ENCRYPTIONWITHFOOTERKEY)), ops_dbg::<format::EncryptionWithColumnKey>("EncryptionWithColumnKey", Ty::Struct(&D_ENCRYPTIONWITHCOLUMNKEY)), ops_dbg::<format::ColumnCryptoMetaData>("ColumnCryptoMetaData", Ty::Union(&D_COLUMNCRYPTOMETADATA)), ops_dbg::<format::ColumnChunk>("ColumnChunk", Ty::Struct(&D_COLUMNCHUNK)), ops_dbg::<format::RowGroup>("RowGroup", Ty::Struct(&D_ROWGROUP)), ops_dbg::<format::TypeDefinedOrder>("TypeDefinedOrder", Ty::Struct(&D_TYPEDEFINEDORDER)), ops_dbg::<format::ColumnOrder>("ColumnOrder", Ty::Union(&D_COLUMNORDER)), ops_dbg::<format::PageLocation>("PageLocation", Ty::Struct(&D_PAGELOCATION)), ops_dbg::<format::OffsetIndex>("OffsetIndex", Ty::Struct(&D_OFFSETINDEX)), ops_dbg::<format::ColumnIndex>("ColumnIndex", Ty::Struct(&D_COLUMNINDEX)), ops_dbg::<format::AesGcmV1>("AesGcmV1", Ty::Struct(&D_AESGCMV1)), ops_dbg::<format::AesGcmCtrV1>("AesGcmCtrV1", Ty::Struct(&D_AESGCMCTRV1)), ops_dbg::<format::EncryptionAlgorithm>("EncryptionAlgorithm", Ty::Union(&D_ENCRYPTIONALGORITHM)), ops_dbg::<format::FileMetaData>("FileMetaData", Ty::Struct(&D_FILEMETADATA)), ops_dbg::<format::FileCryptoMetaData>("FileCryptoMetaData", Ty::Struct(&D_FILECRYPTOMETADATA))] }
pub fn enum_values() -> Vec<(&'static str, i32, i32)> { vec![("Type::BOOLEAN", format::Type::BOOLEAN.0, 0), ("Type::INT32", format::Type::INT32.0, 1), ("Type::INT64", format::Type::INT64.0, 2), ("Type::INT96", format::Type::INT96.0, 3), ("Type::FLOAT", format::Type::FLOAT.0, 4), ("Type::DOUBLE", format::Type::DOUBLE.0, 5), ("Type::BYTE_ARRAY", format::Type::BYTE_ARRAY.0, 6), ("Type::FIXED_LEN_BYTE_ARRAY", format::Type::FIXED_LEN_BYTE_ARRAY.0, 7), ("ConvertedType::UTF8", format::ConvertedType::UTF8.0, 0), ("ConvertedType::MAP", format::ConvertedType::MAP.0, 1), ("ConvertedType::MAP_KEY_VALUE", format::ConvertedType::MAP_KEY_VALUE.0, 2), ("ConvertedType::LIST", format::ConvertedType::LIST.0, 3), ("ConvertedType::ENUM", format::ConvertedType::ENUM.0, 4), ("ConvertedType::DECIMAL", format::ConvertedType::DECIMAL.0, 5), ("ConvertedType::DATE", format::ConvertedType::DATE.0, 6), ("ConvertedType::TIME_MILLIS", format::ConvertedType::TIME_MILLIS.0, 7), ("ConvertedType::TIME_MICROS", format::ConvertedType::TIME_MICROS.0, 8), ("ConvertedType::TIMESTAMP_MILLIS", format::ConvertedType::TIMESTAMP_MILLIS.0, 9), ("ConvertedType::TIMESTAMP_MICROS", format::ConvertedType::TIMESTAMP_MICROS.0, 10), ("ConvertedType::UINT_8", format::ConvertedType::UINT_8.0, 11), ("ConvertedType::UINT_16", format::ConvertedType::UINT_16.0, 12), ("ConvertedType::UINT_32", format::ConvertedType::UINT_32.0, 13), ("ConvertedType::UINT_64", format::ConvertedType::UINT_64.0, 14), ("ConvertedType::INT_8", format::ConvertedType::INT_8.0, 15), ("ConvertedType::INT_16", format::ConvertedType::INT_16.0, 16), ("ConvertedType::INT_32", format::ConvertedType::INT_32.0, 17), ("ConvertedType::INT_64", format::ConvertedType::INT_64.0, 18), ("ConvertedType::JSON", format::ConvertedType::JSON.0, 19), ("ConvertedType::BSON", format::ConvertedType::BSON.0, 20), ("ConvertedType::INTERVAL", format::ConvertedType::INTERVAL.0, 21), ("FieldRepetitionType::REQUIRED", format::FieldRepetitionType::REQUIRED.0, 0), ("FieldRepetitionType::OPTIONAL", format::FieldRepetitionType::OPTIONAL.0, 1), ("FieldRepetitionType::REPEATED", format::FieldRepetitionType::REPEATED.0, 2), ("EdgeInterpolationAlgorithm::SPHERICAL", format::EdgeInterpolationAlgorithm::SPHERICAL.0, 0), ("EdgeInterpolationAlgorithm::VINCENTY", format::EdgeInterpolationAlgorithm::VINCENTY.0, 1), ("EdgeInterpolationAlgorithm::THOMAS", format::EdgeInterpolationAlgorithm::THOMAS.0, 2), ("EdgeInterpolationAlgorithm::ANDOYER", format::EdgeInterpolationAlgorithm::ANDOYER.0, 3), ("EdgeInterpolationAlgorithm::KARNEY", format::EdgeInterpolationAlgorithm::KARNEY.0, 4), ("Encoding::PLAIN", format::Encoding::PLAIN.0, 0), ("Encoding::PLAIN_DICTIONARY", format::Encoding::PLAIN_DICTIONARY.0, 2), ("Encoding::RLE", format::Encoding::RLE.0, 3), ("Encoding::BIT_PACKED", format::Encoding::BIT_PACKED.0, 4), ("Encoding::DELTA_BINARY_PACKED", format::Encoding::DELTA_BINARY_PACKED.0, 5), ("Encoding::DELTA_LENGTH_BYTE_ARRAY", format::Encoding::DELTA_LENGTH_BYTE_ARRAY.0, 6), ("Encoding::DELTA_BYTE_ARRAY", format::Encoding::DELTA_BYTE_ARRAY.0, 7), ("Encoding::RLE_DICTIONARY", format::Encoding::RLE_DICTIONARY.0, 8), ("Encoding::BYTE_STREAM_SPLIT", format::Encoding::BYTE_STREAM_SPLIT.0, 9), ("CompressionCodec::UNCOMPRESSED", format::CompressionCodec::UNCOMPRESSED.0, 0), ("CompressionCodec::SNAPPY", format::CompressionCodec::SNAPPY.0, 1), ("CompressionCodec::GZIP", format::CompressionCodec::GZIP.0, 2), ("CompressionCodec::LZO", format::CompressionCodec::LZO.0, 3), ("CompressionCodec::BROTLI", format::CompressionCodec::BROTLI.0, 4), ("CompressionCodec::LZ4", format::CompressionCodec::LZ4.0, 5), ("CompressionCodec::ZSTD", format::CompressionCodec::ZSTD.0, 6), ("CompressionCodec::LZ4_RAW", format::CompressionCodec::LZ4_RAW.0, 7), ("PageType::DATA_PAGE", format::PageType::DATA_PAGE.0, 0), ("PageType::INDEX_PAGE", format::PageType::INDEX_PAGE.0, 1), ("PageType::DICTIONARY_PAGE", format::PageType::DICTIONARY_PAGE.0, 2), ("PageType::DATA_PAGE_V2", format::PageType::DATA_PAGE_V2.0, 3), ("BoundaryOrder::UNORDERED", format::BoundaryOrder::UNORDERED.0, 0), ("BoundaryOrder::ASCENDING", format::BoundaryOrder::ASCENDING.0, 1), ("BoundaryOrder::DESCENDING", format::BoundaryOrder::DESCENDING.0, 2)] }
#[allow(dead_code)] pub fn enum_name(k: usize) -> &'static str { ["STRING", "MAP", "LIST", "ENUM", "DECIMAL", "DATE", "TIME", "TIMESTAMP", "INTEGER", "UNKNOWN", "JSON", "BSON", "UUID", "FLOAT16", "VARIANT", "GEOMETRY", "GEOGRAPHY"][k] }
#[allow(dead_code)] pub fn logical_len() -> usize { 17 }

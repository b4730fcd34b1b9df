"""parquet.thrift (parquet-format 2.9, commit 43c891a) as data.

Written down once and reviewed against the Parquet IDL; it is the reference the specification and the harness glue
are generated from (gen.py).  Nothing re-reads it from /repo: a change to an id, a wire type or a requiredness in
/repo therefore shows up as a difference from this table.
Field: (id, IDL name, IDL type, requiredness, Rust name).
"""
ENUMS = [
    ('Type', [
        ('BOOLEAN', 0),
        ('INT32', 1),
        ('INT64', 2),
        ('INT96', 3),
        ('FLOAT', 4),
        ('DOUBLE', 5),
        ('BYTE_ARRAY', 6),
        ('FIXED_LEN_BYTE_ARRAY', 7),
    ]),
    ('ConvertedType', [
        ('UTF8', 0),
        ('MAP', 1),
        ('MAP_KEY_VALUE', 2),
        ('LIST', 3),
        ('ENUM', 4),
        ('DECIMAL', 5),
        ('DATE', 6),
        ('TIME_MILLIS', 7),
        ('TIME_MICROS', 8),
        ('TIMESTAMP_MILLIS', 9),
        ('TIMESTAMP_MICROS', 10),
        ('UINT_8', 11),
        ('UINT_16', 12),
        ('UINT_32', 13),
        ('UINT_64', 14),
        ('INT_8', 15),
        ('INT_16', 16),
        ('INT_32', 17),
        ('INT_64', 18),
        ('JSON', 19),
        ('BSON', 20),
        ('INTERVAL', 21),
    ]),
    ('FieldRepetitionType', [
        ('REQUIRED', 0),
        ('OPTIONAL', 1),
        ('REPEATED', 2),
    ]),
    ('Encoding', [
        ('PLAIN', 0),
        ('PLAIN_DICTIONARY', 2),
        ('RLE', 3),
        ('BIT_PACKED', 4),
        ('DELTA_BINARY_PACKED', 5),
        ('DELTA_LENGTH_BYTE_ARRAY', 6),
        ('DELTA_BYTE_ARRAY', 7),
        ('RLE_DICTIONARY', 8),
        ('BYTE_STREAM_SPLIT', 9),
    ]),
    ('CompressionCodec', [
        ('UNCOMPRESSED', 0),
        ('SNAPPY', 1),
        ('GZIP', 2),
        ('LZO', 3),
        ('BROTLI', 4),
        ('LZ4', 5),
        ('ZSTD', 6),
        ('LZ4_RAW', 7),
    ]),
    ('PageType', [
        ('DATA_PAGE', 0),
        ('INDEX_PAGE', 1),
        ('DICTIONARY_PAGE', 2),
        ('DATA_PAGE_V2', 3),
    ]),
    ('BoundaryOrder', [
        ('UNORDERED', 0),
        ('ASCENDING', 1),
        ('DESCENDING', 2),
    ]),
]

TYPES = [
    ('Statistics', 'struct', [
        (1, 'max', 'binary', 'optional', 'max'),
        (2, 'min', 'binary', 'optional', 'min'),
        (3, 'null_count', 'i64', 'optional', 'null_count'),
        (4, 'distinct_count', 'i64', 'optional', 'distinct_count'),
        (5, 'max_value', 'binary', 'optional', 'max_value'),
        (6, 'min_value', 'binary', 'optional', 'min_value'),
    ]),
    ('StringType', 'struct', [
    ]),
    ('UUIDType', 'struct', [
    ]),
    ('MapType', 'struct', [
    ]),
    ('ListType', 'struct', [
    ]),
    ('EnumType', 'struct', [
    ]),
    ('DateType', 'struct', [
    ]),
    ('NullType', 'struct', [
    ]),
    ('DecimalType', 'struct', [
        (1, 'scale', 'i32', 'required', 'scale'),
        (2, 'precision', 'i32', 'required', 'precision'),
    ]),
    ('MilliSeconds', 'struct', [
    ]),
    ('MicroSeconds', 'struct', [
    ]),
    ('NanoSeconds', 'struct', [
    ]),
    ('TimeUnit', 'union', [
        (1, 'MILLIS', 'MilliSeconds', 'optional', 'MILLIS'),
        (2, 'MICROS', 'MicroSeconds', 'optional', 'MICROS'),
        (3, 'NANOS', 'NanoSeconds', 'optional', 'NANOS'),
    ]),
    ('TimestampType', 'struct', [
        (1, 'isAdjustedToUTC', 'bool', 'required', 'is_adjusted_to_u_t_c'),
        (2, 'unit', 'TimeUnit', 'required', 'unit'),
    ]),
    ('TimeType', 'struct', [
        (1, 'isAdjustedToUTC', 'bool', 'required', 'is_adjusted_to_u_t_c'),
        (2, 'unit', 'TimeUnit', 'required', 'unit'),
    ]),
    ('IntType', 'struct', [
        (1, 'bitWidth', 'i8', 'required', 'bit_width'),
        (2, 'isSigned', 'bool', 'required', 'is_signed'),
    ]),
    ('JsonType', 'struct', [
    ]),
    ('BsonType', 'struct', [
    ]),
    ('LogicalType', 'union', [
        (1, 'STRING', 'StringType', 'optional', 'STRING'),
        (2, 'MAP', 'MapType', 'optional', 'MAP'),
        (3, 'LIST', 'ListType', 'optional', 'LIST'),
        (4, 'ENUM', 'EnumType', 'optional', 'ENUM'),
        (5, 'DECIMAL', 'DecimalType', 'optional', 'DECIMAL'),
        (6, 'DATE', 'DateType', 'optional', 'DATE'),
        (7, 'TIME', 'TimeType', 'optional', 'TIME'),
        (8, 'TIMESTAMP', 'TimestampType', 'optional', 'TIMESTAMP'),
        (10, 'INTEGER', 'IntType', 'optional', 'INTEGER'),
        (11, 'UNKNOWN', 'NullType', 'optional', 'UNKNOWN'),
        (12, 'JSON', 'JsonType', 'optional', 'JSON'),
        (13, 'BSON', 'BsonType', 'optional', 'BSON'),
        (14, 'UUID', 'UUIDType', 'optional', 'UUID'),
    ]),
    ('SchemaElement', 'struct', [
        (1, 'type', 'Type', 'optional', 'type_'),
        (2, 'type_length', 'i32', 'optional', 'type_length'),
        (3, 'repetition_type', 'FieldRepetitionType', 'optional', 'repetition_type'),
        (4, 'name', 'string', 'required', 'name'),
        (5, 'num_children', 'i32', 'optional', 'num_children'),
        (6, 'converted_type', 'ConvertedType', 'optional', 'converted_type'),
        (7, 'scale', 'i32', 'optional', 'scale'),
        (8, 'precision', 'i32', 'optional', 'precision'),
        (9, 'field_id', 'i32', 'optional', 'field_id'),
        (10, 'logicalType', 'LogicalType', 'optional', 'logical_type'),
    ]),
    ('DataPageHeader', 'struct', [
        (1, 'num_values', 'i32', 'required', 'num_values'),
        (2, 'encoding', 'Encoding', 'required', 'encoding'),
        (3, 'definition_level_encoding', 'Encoding', 'required', 'definition_level_encoding'),
        (4, 'repetition_level_encoding', 'Encoding', 'required', 'repetition_level_encoding'),
        (5, 'statistics', 'Statistics', 'optional', 'statistics'),
    ]),
    ('IndexPageHeader', 'struct', [
    ]),
    ('DictionaryPageHeader', 'struct', [
        (1, 'num_values', 'i32', 'required', 'num_values'),
        (2, 'encoding', 'Encoding', 'required', 'encoding'),
        (3, 'is_sorted', 'bool', 'optional', 'is_sorted'),
    ]),
    ('DataPageHeaderV2', 'struct', [
        (1, 'num_values', 'i32', 'required', 'num_values'),
        (2, 'num_nulls', 'i32', 'required', 'num_nulls'),
        (3, 'num_rows', 'i32', 'required', 'num_rows'),
        (4, 'encoding', 'Encoding', 'required', 'encoding'),
        (5, 'definition_levels_byte_length', 'i32', 'required', 'definition_levels_byte_length'),
        (6, 'repetition_levels_byte_length', 'i32', 'required', 'repetition_levels_byte_length'),
        (7, 'is_compressed', 'bool', 'optional', 'is_compressed'),
        (8, 'statistics', 'Statistics', 'optional', 'statistics'),
    ]),
    ('SplitBlockAlgorithm', 'struct', [
    ]),
    ('BloomFilterAlgorithm', 'union', [
        (1, 'BLOCK', 'SplitBlockAlgorithm', 'optional', 'BLOCK'),
    ]),
    ('XxHash', 'struct', [
    ]),
    ('BloomFilterHash', 'union', [
        (1, 'XXHASH', 'XxHash', 'optional', 'XXHASH'),
    ]),
    ('Uncompressed', 'struct', [
    ]),
    ('BloomFilterCompression', 'union', [
        (1, 'UNCOMPRESSED', 'Uncompressed', 'optional', 'UNCOMPRESSED'),
    ]),
    ('BloomFilterHeader', 'struct', [
        (1, 'numBytes', 'i32', 'required', 'num_bytes'),
        (2, 'algorithm', 'BloomFilterAlgorithm', 'required', 'algorithm'),
        (3, 'hash', 'BloomFilterHash', 'required', 'hash'),
        (4, 'compression', 'BloomFilterCompression', 'required', 'compression'),
    ]),
    ('PageHeader', 'struct', [
        (1, 'type', 'PageType', 'required', 'type_'),
        (2, 'uncompressed_page_size', 'i32', 'required', 'uncompressed_page_size'),
        (3, 'compressed_page_size', 'i32', 'required', 'compressed_page_size'),
        (4, 'crc', 'i32', 'optional', 'crc'),
        (5, 'data_page_header', 'DataPageHeader', 'optional', 'data_page_header'),
        (6, 'index_page_header', 'IndexPageHeader', 'optional', 'index_page_header'),
        (7, 'dictionary_page_header', 'DictionaryPageHeader', 'optional', 'dictionary_page_header'),
        (8, 'data_page_header_v2', 'DataPageHeaderV2', 'optional', 'data_page_header_v2'),
    ]),
    ('KeyValue', 'struct', [
        (1, 'key', 'string', 'required', 'key'),
        (2, 'value', 'string', 'optional', 'value'),
    ]),
    ('SortingColumn', 'struct', [
        (1, 'column_idx', 'i32', 'required', 'column_idx'),
        (2, 'descending', 'bool', 'required', 'descending'),
        (3, 'nulls_first', 'bool', 'required', 'nulls_first'),
    ]),
    ('PageEncodingStats', 'struct', [
        (1, 'page_type', 'PageType', 'required', 'page_type'),
        (2, 'encoding', 'Encoding', 'required', 'encoding'),
        (3, 'count', 'i32', 'required', 'count'),
    ]),
    ('ColumnMetaData', 'struct', [
        (1, 'type', 'Type', 'required', 'type_'),
        (2, 'encodings', 'list<Encoding>', 'required', 'encodings'),
        (3, 'path_in_schema', 'list<string>', 'required', 'path_in_schema'),
        (4, 'codec', 'CompressionCodec', 'required', 'codec'),
        (5, 'num_values', 'i64', 'required', 'num_values'),
        (6, 'total_uncompressed_size', 'i64', 'required', 'total_uncompressed_size'),
        (7, 'total_compressed_size', 'i64', 'required', 'total_compressed_size'),
        (8, 'key_value_metadata', 'list<KeyValue>', 'optional', 'key_value_metadata'),
        (9, 'data_page_offset', 'i64', 'required', 'data_page_offset'),
        (10, 'index_page_offset', 'i64', 'optional', 'index_page_offset'),
        (11, 'dictionary_page_offset', 'i64', 'optional', 'dictionary_page_offset'),
        (12, 'statistics', 'Statistics', 'optional', 'statistics'),
        (13, 'encoding_stats', 'list<PageEncodingStats>', 'optional', 'encoding_stats'),
        (14, 'bloom_filter_offset', 'i64', 'optional', 'bloom_filter_offset'),
    ]),
    ('EncryptionWithFooterKey', 'struct', [
    ]),
    ('EncryptionWithColumnKey', 'struct', [
        (1, 'path_in_schema', 'list<string>', 'required', 'path_in_schema'),
        (2, 'key_metadata', 'binary', 'optional', 'key_metadata'),
    ]),
    ('ColumnCryptoMetaData', 'union', [
        (1, 'ENCRYPTION_WITH_FOOTER_KEY', 'EncryptionWithFooterKey', 'optional', 'ENCRYPTIONWITHFOOTERKEY'),
        (2, 'ENCRYPTION_WITH_COLUMN_KEY', 'EncryptionWithColumnKey', 'optional', 'ENCRYPTIONWITHCOLUMNKEY'),
    ]),
    ('ColumnChunk', 'struct', [
        (1, 'file_path', 'string', 'optional', 'file_path'),
        (2, 'file_offset', 'i64', 'required', 'file_offset'),
        (3, 'meta_data', 'ColumnMetaData', 'optional', 'meta_data'),
        (4, 'offset_index_offset', 'i64', 'optional', 'offset_index_offset'),
        (5, 'offset_index_length', 'i32', 'optional', 'offset_index_length'),
        (6, 'column_index_offset', 'i64', 'optional', 'column_index_offset'),
        (7, 'column_index_length', 'i32', 'optional', 'column_index_length'),
        (8, 'crypto_metadata', 'ColumnCryptoMetaData', 'optional', 'crypto_metadata'),
        (9, 'encrypted_column_metadata', 'binary', 'optional', 'encrypted_column_metadata'),
    ]),
    ('RowGroup', 'struct', [
        (1, 'columns', 'list<ColumnChunk>', 'required', 'columns'),
        (2, 'total_byte_size', 'i64', 'required', 'total_byte_size'),
        (3, 'num_rows', 'i64', 'required', 'num_rows'),
        (4, 'sorting_columns', 'list<SortingColumn>', 'optional', 'sorting_columns'),
        (5, 'file_offset', 'i64', 'optional', 'file_offset'),
        (6, 'total_compressed_size', 'i64', 'optional', 'total_compressed_size'),
        (7, 'ordinal', 'i16', 'optional', 'ordinal'),
    ]),
    ('TypeDefinedOrder', 'struct', [
    ]),
    ('ColumnOrder', 'union', [
        (1, 'TYPE_ORDER', 'TypeDefinedOrder', 'optional', 'TYPEORDER'),
    ]),
    ('PageLocation', 'struct', [
        (1, 'offset', 'i64', 'required', 'offset'),
        (2, 'compressed_page_size', 'i32', 'required', 'compressed_page_size'),
        (3, 'first_row_index', 'i64', 'required', 'first_row_index'),
    ]),
    ('OffsetIndex', 'struct', [
        (1, 'page_locations', 'list<PageLocation>', 'required', 'page_locations'),
    ]),
    ('ColumnIndex', 'struct', [
        (1, 'null_pages', 'list<bool>', 'required', 'null_pages'),
        (2, 'min_values', 'list<binary>', 'required', 'min_values'),
        (3, 'max_values', 'list<binary>', 'required', 'max_values'),
        (4, 'boundary_order', 'BoundaryOrder', 'required', 'boundary_order'),
        (5, 'null_counts', 'list<i64>', 'optional', 'null_counts'),
    ]),
    ('AesGcmV1', 'struct', [
        (1, 'aad_prefix', 'binary', 'optional', 'aad_prefix'),
        (2, 'aad_file_unique', 'binary', 'optional', 'aad_file_unique'),
        (3, 'supply_aad_prefix', 'bool', 'optional', 'supply_aad_prefix'),
    ]),
    ('AesGcmCtrV1', 'struct', [
        (1, 'aad_prefix', 'binary', 'optional', 'aad_prefix'),
        (2, 'aad_file_unique', 'binary', 'optional', 'aad_file_unique'),
        (3, 'supply_aad_prefix', 'bool', 'optional', 'supply_aad_prefix'),
    ]),
    ('EncryptionAlgorithm', 'union', [
        (1, 'AES_GCM_V1', 'AesGcmV1', 'optional', 'AESGCMV1'),
        (2, 'AES_GCM_CTR_V1', 'AesGcmCtrV1', 'optional', 'AESGCMCTRV1'),
    ]),
    ('FileMetaData', 'struct', [
        (1, 'version', 'i32', 'required', 'version'),
        (2, 'schema', 'list<SchemaElement>', 'required', 'schema'),
        (3, 'num_rows', 'i64', 'required', 'num_rows'),
        (4, 'row_groups', 'list<RowGroup>', 'required', 'row_groups'),
        (5, 'key_value_metadata', 'list<KeyValue>', 'optional', 'key_value_metadata'),
        (6, 'created_by', 'string', 'optional', 'created_by'),
        (7, 'column_orders', 'list<ColumnOrder>', 'optional', 'column_orders'),
        (8, 'encryption_algorithm', 'EncryptionAlgorithm', 'optional', 'encryption_algorithm'),
        (9, 'footer_signing_key_metadata', 'binary', 'optional', 'footer_signing_key_metadata'),
    ]),
    ('FileCryptoMetaData', 'struct', [
        (1, 'encryption_algorithm', 'EncryptionAlgorithm', 'required', 'encryption_algorithm'),
        (2, 'key_metadata', 'binary', 'optional', 'key_metadata'),
    ]),
]

------------------------------- MODULE Schema -------------------------------
(* parquet.thrift as data; generated by tools/gen.py from tools/schema.py.              *)
(* Type codes: 1 bool 3 i8 4 i16 5 i32 6 i64 7 double 8 binary 9 string;                *)
(* 100+k structs and unions, 200+k enums (i32 on the wire), 1000+t list of t.           *)
(* A field is <<id, type, required>>.                                                   *)
EXTENDS Integers, Sequences

TypeIds == 100..150
EnumIds == 200..206

TypeNames == <<"Statistics", "StringType", "UUIDType", "MapType", "ListType", "EnumType", "DateType", "NullType", "DecimalType", "MilliSeconds", "MicroSeconds", "NanoSeconds", "TimeUnit", "TimestampType", "TimeType", "IntType", "JsonType", "BsonType", "LogicalType", "SchemaElement", "DataPageHeader", "IndexPageHeader", "DictionaryPageHeader", "DataPageHeaderV2", "SplitBlockAlgorithm", "BloomFilterAlgorithm", "XxHash", "BloomFilterHash", "Uncompressed", "BloomFilterCompression", "BloomFilterHeader", "PageHeader", "KeyValue", "SortingColumn", "PageEncodingStats", "ColumnMetaData", "EncryptionWithFooterKey", "EncryptionWithColumnKey", "ColumnCryptoMetaData", "ColumnChunk", "RowGroup", "TypeDefinedOrder", "ColumnOrder", "PageLocation", "OffsetIndex", "ColumnIndex", "AesGcmV1", "AesGcmCtrV1", "EncryptionAlgorithm", "FileMetaData", "FileCryptoMetaData">>

UnionIds == {112, 118, 125, 127, 129, 138, 142, 148}

FieldTable == <<
  (* 100 Statistics *) <<<<1, 8, 0>>, <<2, 8, 0>>, <<3, 6, 0>>, <<4, 6, 0>>, <<5, 8, 0>>, <<6, 8, 0>>>>,
  (* 101 StringType *) <<>>,
  (* 102 UUIDType *) <<>>,
  (* 103 MapType *) <<>>,
  (* 104 ListType *) <<>>,
  (* 105 EnumType *) <<>>,
  (* 106 DateType *) <<>>,
  (* 107 NullType *) <<>>,
  (* 108 DecimalType *) <<<<1, 5, 1>>, <<2, 5, 1>>>>,
  (* 109 MilliSeconds *) <<>>,
  (* 110 MicroSeconds *) <<>>,
  (* 111 NanoSeconds *) <<>>,
  (* 112 TimeUnit *) <<<<1, 109, 0>>, <<2, 110, 0>>, <<3, 111, 0>>>>,
  (* 113 TimestampType *) <<<<1, 1, 1>>, <<2, 112, 1>>>>,
  (* 114 TimeType *) <<<<1, 1, 1>>, <<2, 112, 1>>>>,
  (* 115 IntType *) <<<<1, 3, 1>>, <<2, 1, 1>>>>,
  (* 116 JsonType *) <<>>,
  (* 117 BsonType *) <<>>,
  (* 118 LogicalType *) <<<<1, 101, 0>>, <<2, 103, 0>>, <<3, 104, 0>>, <<4, 105, 0>>, <<5, 108, 0>>, <<6, 106, 0>>, <<7, 114, 0>>, <<8, 113, 0>>, <<10, 115, 0>>, <<11, 107, 0>>, <<12, 116, 0>>, <<13, 117, 0>>, <<14, 102, 0>>>>,
  (* 119 SchemaElement *) <<<<1, 200, 0>>, <<2, 5, 0>>, <<3, 202, 0>>, <<4, 9, 1>>, <<5, 5, 0>>, <<6, 201, 0>>, <<7, 5, 0>>, <<8, 5, 0>>, <<9, 5, 0>>, <<10, 118, 0>>>>,
  (* 120 DataPageHeader *) <<<<1, 5, 1>>, <<2, 203, 1>>, <<3, 203, 1>>, <<4, 203, 1>>, <<5, 100, 0>>>>,
  (* 121 IndexPageHeader *) <<>>,
  (* 122 DictionaryPageHeader *) <<<<1, 5, 1>>, <<2, 203, 1>>, <<3, 1, 0>>>>,
  (* 123 DataPageHeaderV2 *) <<<<1, 5, 1>>, <<2, 5, 1>>, <<3, 5, 1>>, <<4, 203, 1>>, <<5, 5, 1>>, <<6, 5, 1>>, <<7, 1, 0>>, <<8, 100, 0>>>>,
  (* 124 SplitBlockAlgorithm *) <<>>,
  (* 125 BloomFilterAlgorithm *) <<<<1, 124, 0>>>>,
  (* 126 XxHash *) <<>>,
  (* 127 BloomFilterHash *) <<<<1, 126, 0>>>>,
  (* 128 Uncompressed *) <<>>,
  (* 129 BloomFilterCompression *) <<<<1, 128, 0>>>>,
  (* 130 BloomFilterHeader *) <<<<1, 5, 1>>, <<2, 125, 1>>, <<3, 127, 1>>, <<4, 129, 1>>>>,
  (* 131 PageHeader *) <<<<1, 205, 1>>, <<2, 5, 1>>, <<3, 5, 1>>, <<4, 5, 0>>, <<5, 120, 0>>, <<6, 121, 0>>, <<7, 122, 0>>, <<8, 123, 0>>>>,
  (* 132 KeyValue *) <<<<1, 9, 1>>, <<2, 9, 0>>>>,
  (* 133 SortingColumn *) <<<<1, 5, 1>>, <<2, 1, 1>>, <<3, 1, 1>>>>,
  (* 134 PageEncodingStats *) <<<<1, 205, 1>>, <<2, 203, 1>>, <<3, 5, 1>>>>,
  (* 135 ColumnMetaData *) <<<<1, 200, 1>>, <<2, 1203, 1>>, <<3, 1009, 1>>, <<4, 204, 1>>, <<5, 6, 1>>, <<6, 6, 1>>, <<7, 6, 1>>, <<8, 1132, 0>>, <<9, 6, 1>>, <<10, 6, 0>>, <<11, 6, 0>>, <<12, 100, 0>>, <<13, 1134, 0>>, <<14, 6, 0>>>>,
  (* 136 EncryptionWithFooterKey *) <<>>,
  (* 137 EncryptionWithColumnKey *) <<<<1, 1009, 1>>, <<2, 8, 0>>>>,
  (* 138 ColumnCryptoMetaData *) <<<<1, 136, 0>>, <<2, 137, 0>>>>,
  (* 139 ColumnChunk *) <<<<1, 9, 0>>, <<2, 6, 1>>, <<3, 135, 0>>, <<4, 6, 0>>, <<5, 5, 0>>, <<6, 6, 0>>, <<7, 5, 0>>, <<8, 138, 0>>, <<9, 8, 0>>>>,
  (* 140 RowGroup *) <<<<1, 1139, 1>>, <<2, 6, 1>>, <<3, 6, 1>>, <<4, 1133, 0>>, <<5, 6, 0>>, <<6, 6, 0>>, <<7, 4, 0>>>>,
  (* 141 TypeDefinedOrder *) <<>>,
  (* 142 ColumnOrder *) <<<<1, 141, 0>>>>,
  (* 143 PageLocation *) <<<<1, 6, 1>>, <<2, 5, 1>>, <<3, 6, 1>>>>,
  (* 144 OffsetIndex *) <<<<1, 1143, 1>>>>,
  (* 145 ColumnIndex *) <<<<1, 1001, 1>>, <<2, 1008, 1>>, <<3, 1008, 1>>, <<4, 206, 1>>, <<5, 1006, 0>>>>,
  (* 146 AesGcmV1 *) <<<<1, 8, 0>>, <<2, 8, 0>>, <<3, 1, 0>>>>,
  (* 147 AesGcmCtrV1 *) <<<<1, 8, 0>>, <<2, 8, 0>>, <<3, 1, 0>>>>,
  (* 148 EncryptionAlgorithm *) <<<<1, 146, 0>>, <<2, 147, 0>>>>,
  (* 149 FileMetaData *) <<<<1, 5, 1>>, <<2, 1119, 1>>, <<3, 6, 1>>, <<4, 1140, 1>>, <<5, 1132, 0>>, <<6, 9, 0>>, <<7, 1142, 0>>, <<8, 148, 0>>, <<9, 8, 0>>>>,
  (* 150 FileCryptoMetaData *) <<<<1, 148, 1>>, <<2, 8, 0>>>>
>>

EnumTable == <<
  (* 200 Type *) <<0, 1, 2, 3, 4, 5, 6, 7>>,
  (* 201 ConvertedType *) <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21>>,
  (* 202 FieldRepetitionType *) <<0, 1, 2>>,
  (* 203 Encoding *) <<0, 2, 3, 4, 5, 6, 7, 8, 9>>,
  (* 204 CompressionCodec *) <<0, 1, 2, 3, 4, 5, 6, 7>>,
  (* 205 PageType *) <<0, 1, 2, 3>>,
  (* 206 BoundaryOrder *) <<0, 1, 2>>
>>

\* names as bytes: <<struct, fields>>
NameTable == <<
  (* 100 Statistics *) <<<<83, 116, 97, 116, 105, 115, 116, 105, 99, 115>>, <<<<109, 97, 120>>, <<109, 105, 110>>, <<110, 117, 108, 108, 95, 99, 111, 117, 110, 116>>, <<100, 105, 115, 116, 105, 110, 99, 116, 95, 99, 111, 117, 110, 116>>, <<109, 97, 120, 95, 118, 97, 108, 117, 101>>, <<109, 105, 110, 95, 118, 97, 108, 117, 101>>>> >>,
  (* 101 StringType *) <<<<83, 116, 114, 105, 110, 103, 84, 121, 112, 101>>, <<>> >>,
  (* 102 UUIDType *) <<<<85, 85, 73, 68, 84, 121, 112, 101>>, <<>> >>,
  (* 103 MapType *) <<<<77, 97, 112, 84, 121, 112, 101>>, <<>> >>,
  (* 104 ListType *) <<<<76, 105, 115, 116, 84, 121, 112, 101>>, <<>> >>,
  (* 105 EnumType *) <<<<69, 110, 117, 109, 84, 121, 112, 101>>, <<>> >>,
  (* 106 DateType *) <<<<68, 97, 116, 101, 84, 121, 112, 101>>, <<>> >>,
  (* 107 NullType *) <<<<78, 117, 108, 108, 84, 121, 112, 101>>, <<>> >>,
  (* 108 DecimalType *) <<<<68, 101, 99, 105, 109, 97, 108, 84, 121, 112, 101>>, <<<<115, 99, 97, 108, 101>>, <<112, 114, 101, 99, 105, 115, 105, 111, 110>>>> >>,
  (* 109 MilliSeconds *) <<<<77, 105, 108, 108, 105, 83, 101, 99, 111, 110, 100, 115>>, <<>> >>,
  (* 110 MicroSeconds *) <<<<77, 105, 99, 114, 111, 83, 101, 99, 111, 110, 100, 115>>, <<>> >>,
  (* 111 NanoSeconds *) <<<<78, 97, 110, 111, 83, 101, 99, 111, 110, 100, 115>>, <<>> >>,
  (* 112 TimeUnit *) <<<<84, 105, 109, 101, 85, 110, 105, 116>>, <<<<77, 73, 76, 76, 73, 83>>, <<77, 73, 67, 82, 79, 83>>, <<78, 65, 78, 79, 83>>>> >>,
  (* 113 TimestampType *) <<<<84, 105, 109, 101, 115, 116, 97, 109, 112, 84, 121, 112, 101>>, <<<<105, 115, 65, 100, 106, 117, 115, 116, 101, 100, 84, 111, 85, 84, 67>>, <<117, 110, 105, 116>>>> >>,
  (* 114 TimeType *) <<<<84, 105, 109, 101, 84, 121, 112, 101>>, <<<<105, 115, 65, 100, 106, 117, 115, 116, 101, 100, 84, 111, 85, 84, 67>>, <<117, 110, 105, 116>>>> >>,
  (* 115 IntType *) <<<<73, 110, 116, 84, 121, 112, 101>>, <<<<98, 105, 116, 87, 105, 100, 116, 104>>, <<105, 115, 83, 105, 103, 110, 101, 100>>>> >>,
  (* 116 JsonType *) <<<<74, 115, 111, 110, 84, 121, 112, 101>>, <<>> >>,
  (* 117 BsonType *) <<<<66, 115, 111, 110, 84, 121, 112, 101>>, <<>> >>,
  (* 118 LogicalType *) <<<<76, 111, 103, 105, 99, 97, 108, 84, 121, 112, 101>>, <<<<83, 84, 82, 73, 78, 71>>, <<77, 65, 80>>, <<76, 73, 83, 84>>, <<69, 78, 85, 77>>, <<68, 69, 67, 73, 77, 65, 76>>, <<68, 65, 84, 69>>, <<84, 73, 77, 69>>, <<84, 73, 77, 69, 83, 84, 65, 77, 80>>, <<73, 78, 84, 69, 71, 69, 82>>, <<85, 78, 75, 78, 79, 87, 78>>, <<74, 83, 79, 78>>, <<66, 83, 79, 78>>, <<85, 85, 73, 68>>>> >>,
  (* 119 SchemaElement *) <<<<83, 99, 104, 101, 109, 97, 69, 108, 101, 109, 101, 110, 116>>, <<<<116, 121, 112, 101>>, <<116, 121, 112, 101, 95, 108, 101, 110, 103, 116, 104>>, <<114, 101, 112, 101, 116, 105, 116, 105, 111, 110, 95, 116, 121, 112, 101>>, <<110, 97, 109, 101>>, <<110, 117, 109, 95, 99, 104, 105, 108, 100, 114, 101, 110>>, <<99, 111, 110, 118, 101, 114, 116, 101, 100, 95, 116, 121, 112, 101>>, <<115, 99, 97, 108, 101>>, <<112, 114, 101, 99, 105, 115, 105, 111, 110>>, <<102, 105, 101, 108, 100, 95, 105, 100>>, <<108, 111, 103, 105, 99, 97, 108, 84, 121, 112, 101>>>> >>,
  (* 120 DataPageHeader *) <<<<68, 97, 116, 97, 80, 97, 103, 101, 72, 101, 97, 100, 101, 114>>, <<<<110, 117, 109, 95, 118, 97, 108, 117, 101, 115>>, <<101, 110, 99, 111, 100, 105, 110, 103>>, <<100, 101, 102, 105, 110, 105, 116, 105, 111, 110, 95, 108, 101, 118, 101, 108, 95, 101, 110, 99, 111, 100, 105, 110, 103>>, <<114, 101, 112, 101, 116, 105, 116, 105, 111, 110, 95, 108, 101, 118, 101, 108, 95, 101, 110, 99, 111, 100, 105, 110, 103>>, <<115, 116, 97, 116, 105, 115, 116, 105, 99, 115>>>> >>,
  (* 121 IndexPageHeader *) <<<<73, 110, 100, 101, 120, 80, 97, 103, 101, 72, 101, 97, 100, 101, 114>>, <<>> >>,
  (* 122 DictionaryPageHeader *) <<<<68, 105, 99, 116, 105, 111, 110, 97, 114, 121, 80, 97, 103, 101, 72, 101, 97, 100, 101, 114>>, <<<<110, 117, 109, 95, 118, 97, 108, 117, 101, 115>>, <<101, 110, 99, 111, 100, 105, 110, 103>>, <<105, 115, 95, 115, 111, 114, 116, 101, 100>>>> >>,
  (* 123 DataPageHeaderV2 *) <<<<68, 97, 116, 97, 80, 97, 103, 101, 72, 101, 97, 100, 101, 114, 86, 50>>, <<<<110, 117, 109, 95, 118, 97, 108, 117, 101, 115>>, <<110, 117, 109, 95, 110, 117, 108, 108, 115>>, <<110, 117, 109, 95, 114, 111, 119, 115>>, <<101, 110, 99, 111, 100, 105, 110, 103>>, <<100, 101, 102, 105, 110, 105, 116, 105, 111, 110, 95, 108, 101, 118, 101, 108, 115, 95, 98, 121, 116, 101, 95, 108, 101, 110, 103, 116, 104>>, <<114, 101, 112, 101, 116, 105, 116, 105, 111, 110, 95, 108, 101, 118, 101, 108, 115, 95, 98, 121, 116, 101, 95, 108, 101, 110, 103, 116, 104>>, <<105, 115, 95, 99, 111, 109, 112, 114, 101, 115, 115, 101, 100>>, <<115, 116, 97, 116, 105, 115, 116, 105, 99, 115>>>> >>,
  (* 124 SplitBlockAlgorithm *) <<<<83, 112, 108, 105, 116, 66, 108, 111, 99, 107, 65, 108, 103, 111, 114, 105, 116, 104, 109>>, <<>> >>,
  (* 125 BloomFilterAlgorithm *) <<<<66, 108, 111, 111, 109, 70, 105, 108, 116, 101, 114, 65, 108, 103, 111, 114, 105, 116, 104, 109>>, <<<<66, 76, 79, 67, 75>>>> >>,
  (* 126 XxHash *) <<<<88, 120, 72, 97, 115, 104>>, <<>> >>,
  (* 127 BloomFilterHash *) <<<<66, 108, 111, 111, 109, 70, 105, 108, 116, 101, 114, 72, 97, 115, 104>>, <<<<88, 88, 72, 65, 83, 72>>>> >>,
  (* 128 Uncompressed *) <<<<85, 110, 99, 111, 109, 112, 114, 101, 115, 115, 101, 100>>, <<>> >>,
  (* 129 BloomFilterCompression *) <<<<66, 108, 111, 111, 109, 70, 105, 108, 116, 101, 114, 67, 111, 109, 112, 114, 101, 115, 115, 105, 111, 110>>, <<<<85, 78, 67, 79, 77, 80, 82, 69, 83, 83, 69, 68>>>> >>,
  (* 130 BloomFilterHeader *) <<<<66, 108, 111, 111, 109, 70, 105, 108, 116, 101, 114, 72, 101, 97, 100, 101, 114>>, <<<<110, 117, 109, 66, 121, 116, 101, 115>>, <<97, 108, 103, 111, 114, 105, 116, 104, 109>>, <<104, 97, 115, 104>>, <<99, 111, 109, 112, 114, 101, 115, 115, 105, 111, 110>>>> >>,
  (* 131 PageHeader *) <<<<80, 97, 103, 101, 72, 101, 97, 100, 101, 114>>, <<<<116, 121, 112, 101>>, <<117, 110, 99, 111, 109, 112, 114, 101, 115, 115, 101, 100, 95, 112, 97, 103, 101, 95, 115, 105, 122, 101>>, <<99, 111, 109, 112, 114, 101, 115, 115, 101, 100, 95, 112, 97, 103, 101, 95, 115, 105, 122, 101>>, <<99, 114, 99>>, <<100, 97, 116, 97, 95, 112, 97, 103, 101, 95, 104, 101, 97, 100, 101, 114>>, <<105, 110, 100, 101, 120, 95, 112, 97, 103, 101, 95, 104, 101, 97, 100, 101, 114>>, <<100, 105, 99, 116, 105, 111, 110, 97, 114, 121, 95, 112, 97, 103, 101, 95, 104, 101, 97, 100, 101, 114>>, <<100, 97, 116, 97, 95, 112, 97, 103, 101, 95, 104, 101, 97, 100, 101, 114, 95, 118, 50>>>> >>,
  (* 132 KeyValue *) <<<<75, 101, 121, 86, 97, 108, 117, 101>>, <<<<107, 101, 121>>, <<118, 97, 108, 117, 101>>>> >>,
  (* 133 SortingColumn *) <<<<83, 111, 114, 116, 105, 110, 103, 67, 111, 108, 117, 109, 110>>, <<<<99, 111, 108, 117, 109, 110, 95, 105, 100, 120>>, <<100, 101, 115, 99, 101, 110, 100, 105, 110, 103>>, <<110, 117, 108, 108, 115, 95, 102, 105, 114, 115, 116>>>> >>,
  (* 134 PageEncodingStats *) <<<<80, 97, 103, 101, 69, 110, 99, 111, 100, 105, 110, 103, 83, 116, 97, 116, 115>>, <<<<112, 97, 103, 101, 95, 116, 121, 112, 101>>, <<101, 110, 99, 111, 100, 105, 110, 103>>, <<99, 111, 117, 110, 116>>>> >>,
  (* 135 ColumnMetaData *) <<<<67, 111, 108, 117, 109, 110, 77, 101, 116, 97, 68, 97, 116, 97>>, <<<<116, 121, 112, 101>>, <<101, 110, 99, 111, 100, 105, 110, 103, 115>>, <<112, 97, 116, 104, 95, 105, 110, 95, 115, 99, 104, 101, 109, 97>>, <<99, 111, 100, 101, 99>>, <<110, 117, 109, 95, 118, 97, 108, 117, 101, 115>>, <<116, 111, 116, 97, 108, 95, 117, 110, 99, 111, 109, 112, 114, 101, 115, 115, 101, 100, 95, 115, 105, 122, 101>>, <<116, 111, 116, 97, 108, 95, 99, 111, 109, 112, 114, 101, 115, 115, 101, 100, 95, 115, 105, 122, 101>>, <<107, 101, 121, 95, 118, 97, 108, 117, 101, 95, 109, 101, 116, 97, 100, 97, 116, 97>>, <<100, 97, 116, 97, 95, 112, 97, 103, 101, 95, 111, 102, 102, 115, 101, 116>>, <<105, 110, 100, 101, 120, 95, 112, 97, 103, 101, 95, 111, 102, 102, 115, 101, 116>>, <<100, 105, 99, 116, 105, 111, 110, 97, 114, 121, 95, 112, 97, 103, 101, 95, 111, 102, 102, 115, 101, 116>>, <<115, 116, 97, 116, 105, 115, 116, 105, 99, 115>>, <<101, 110, 99, 111, 100, 105, 110, 103, 95, 115, 116, 97, 116, 115>>, <<98, 108, 111, 111, 109, 95, 102, 105, 108, 116, 101, 114, 95, 111, 102, 102, 115, 101, 116>>>> >>,
  (* 136 EncryptionWithFooterKey *) <<<<69, 110, 99, 114, 121, 112, 116, 105, 111, 110, 87, 105, 116, 104, 70, 111, 111, 116, 101, 114, 75, 101, 121>>, <<>> >>,
  (* 137 EncryptionWithColumnKey *) <<<<69, 110, 99, 114, 121, 112, 116, 105, 111, 110, 87, 105, 116, 104, 67, 111, 108, 117, 109, 110, 75, 101, 121>>, <<<<112, 97, 116, 104, 95, 105, 110, 95, 115, 99, 104, 101, 109, 97>>, <<107, 101, 121, 95, 109, 101, 116, 97, 100, 97, 116, 97>>>> >>,
  (* 138 ColumnCryptoMetaData *) <<<<67, 111, 108, 117, 109, 110, 67, 114, 121, 112, 116, 111, 77, 101, 116, 97, 68, 97, 116, 97>>, <<<<69, 78, 67, 82, 89, 80, 84, 73, 79, 78, 95, 87, 73, 84, 72, 95, 70, 79, 79, 84, 69, 82, 95, 75, 69, 89>>, <<69, 78, 67, 82, 89, 80, 84, 73, 79, 78, 95, 87, 73, 84, 72, 95, 67, 79, 76, 85, 77, 78, 95, 75, 69, 89>>>> >>,
  (* 139 ColumnChunk *) <<<<67, 111, 108, 117, 109, 110, 67, 104, 117, 110, 107>>, <<<<102, 105, 108, 101, 95, 112, 97, 116, 104>>, <<102, 105, 108, 101, 95, 111, 102, 102, 115, 101, 116>>, <<109, 101, 116, 97, 95, 100, 97, 116, 97>>, <<111, 102, 102, 115, 101, 116, 95, 105, 110, 100, 101, 120, 95, 111, 102, 102, 115, 101, 116>>, <<111, 102, 102, 115, 101, 116, 95, 105, 110, 100, 101, 120, 95, 108, 101, 110, 103, 116, 104>>, <<99, 111, 108, 117, 109, 110, 95, 105, 110, 100, 101, 120, 95, 111, 102, 102, 115, 101, 116>>, <<99, 111, 108, 117, 109, 110, 95, 105, 110, 100, 101, 120, 95, 108, 101, 110, 103, 116, 104>>, <<99, 114, 121, 112, 116, 111, 95, 109, 101, 116, 97, 100, 97, 116, 97>>, <<101, 110, 99, 114, 121, 112, 116, 101, 100, 95, 99, 111, 108, 117, 109, 110, 95, 109, 101, 116, 97, 100, 97, 116, 97>>>> >>,
  (* 140 RowGroup *) <<<<82, 111, 119, 71, 114, 111, 117, 112>>, <<<<99, 111, 108, 117, 109, 110, 115>>, <<116, 111, 116, 97, 108, 95, 98, 121, 116, 101, 95, 115, 105, 122, 101>>, <<110, 117, 109, 95, 114, 111, 119, 115>>, <<115, 111, 114, 116, 105, 110, 103, 95, 99, 111, 108, 117, 109, 110, 115>>, <<102, 105, 108, 101, 95, 111, 102, 102, 115, 101, 116>>, <<116, 111, 116, 97, 108, 95, 99, 111, 109, 112, 114, 101, 115, 115, 101, 100, 95, 115, 105, 122, 101>>, <<111, 114, 100, 105, 110, 97, 108>>>> >>,
  (* 141 TypeDefinedOrder *) <<<<84, 121, 112, 101, 68, 101, 102, 105, 110, 101, 100, 79, 114, 100, 101, 114>>, <<>> >>,
  (* 142 ColumnOrder *) <<<<67, 111, 108, 117, 109, 110, 79, 114, 100, 101, 114>>, <<<<84, 89, 80, 69, 95, 79, 82, 68, 69, 82>>>> >>,
  (* 143 PageLocation *) <<<<80, 97, 103, 101, 76, 111, 99, 97, 116, 105, 111, 110>>, <<<<111, 102, 102, 115, 101, 116>>, <<99, 111, 109, 112, 114, 101, 115, 115, 101, 100, 95, 112, 97, 103, 101, 95, 115, 105, 122, 101>>, <<102, 105, 114, 115, 116, 95, 114, 111, 119, 95, 105, 110, 100, 101, 120>>>> >>,
  (* 144 OffsetIndex *) <<<<79, 102, 102, 115, 101, 116, 73, 110, 100, 101, 120>>, <<<<112, 97, 103, 101, 95, 108, 111, 99, 97, 116, 105, 111, 110, 115>>>> >>,
  (* 145 ColumnIndex *) <<<<67, 111, 108, 117, 109, 110, 73, 110, 100, 101, 120>>, <<<<110, 117, 108, 108, 95, 112, 97, 103, 101, 115>>, <<109, 105, 110, 95, 118, 97, 108, 117, 101, 115>>, <<109, 97, 120, 95, 118, 97, 108, 117, 101, 115>>, <<98, 111, 117, 110, 100, 97, 114, 121, 95, 111, 114, 100, 101, 114>>, <<110, 117, 108, 108, 95, 99, 111, 117, 110, 116, 115>>>> >>,
  (* 146 AesGcmV1 *) <<<<65, 101, 115, 71, 99, 109, 86, 49>>, <<<<97, 97, 100, 95, 112, 114, 101, 102, 105, 120>>, <<97, 97, 100, 95, 102, 105, 108, 101, 95, 117, 110, 105, 113, 117, 101>>, <<115, 117, 112, 112, 108, 121, 95, 97, 97, 100, 95, 112, 114, 101, 102, 105, 120>>>> >>,
  (* 147 AesGcmCtrV1 *) <<<<65, 101, 115, 71, 99, 109, 67, 116, 114, 86, 49>>, <<<<97, 97, 100, 95, 112, 114, 101, 102, 105, 120>>, <<97, 97, 100, 95, 102, 105, 108, 101, 95, 117, 110, 105, 113, 117, 101>>, <<115, 117, 112, 112, 108, 121, 95, 97, 97, 100, 95, 112, 114, 101, 102, 105, 120>>>> >>,
  (* 148 EncryptionAlgorithm *) <<<<69, 110, 99, 114, 121, 112, 116, 105, 111, 110, 65, 108, 103, 111, 114, 105, 116, 104, 109>>, <<<<65, 69, 83, 95, 71, 67, 77, 95, 86, 49>>, <<65, 69, 83, 95, 71, 67, 77, 95, 67, 84, 82, 95, 86, 49>>>> >>,
  (* 149 FileMetaData *) <<<<70, 105, 108, 101, 77, 101, 116, 97, 68, 97, 116, 97>>, <<<<118, 101, 114, 115, 105, 111, 110>>, <<115, 99, 104, 101, 109, 97>>, <<110, 117, 109, 95, 114, 111, 119, 115>>, <<114, 111, 119, 95, 103, 114, 111, 117, 112, 115>>, <<107, 101, 121, 95, 118, 97, 108, 117, 101, 95, 109, 101, 116, 97, 100, 97, 116, 97>>, <<99, 114, 101, 97, 116, 101, 100, 95, 98, 121>>, <<99, 111, 108, 117, 109, 110, 95, 111, 114, 100, 101, 114, 115>>, <<101, 110, 99, 114, 121, 112, 116, 105, 111, 110, 95, 97, 108, 103, 111, 114, 105, 116, 104, 109>>, <<102, 111, 111, 116, 101, 114, 95, 115, 105, 103, 110, 105, 110, 103, 95, 107, 101, 121, 95, 109, 101, 116, 97, 100, 97, 116, 97>>>> >>,
  (* 150 FileCryptoMetaData *) <<<<70, 105, 108, 101, 67, 114, 121, 112, 116, 111, 77, 101, 116, 97, 68, 97, 116, 97>>, <<<<101, 110, 99, 114, 121, 112, 116, 105, 111, 110, 95, 97, 108, 103, 111, 114, 105, 116, 104, 109>>, <<107, 101, 121, 95, 109, 101, 116, 97, 100, 97, 116, 97>>>> >>
>>

FieldsOf(t) == FieldTable[t - 99]
EnumOf(t) == EnumTable[t - 199]
IsStruct(t) == t >= 100 /\ t < 200
IsUnion(t) == t \in UnionIds
IsEnum(t) == t >= 200 /\ t < 1000
IsList(t) == t >= 1000
ElemOf(t) == t - 1000
\* position of field id in FieldsOf(t), 0 if the id is unknown
FieldIx(t, id) == LET fs == FieldsOf(t)
                      S == {i \in 1..Len(fs) : fs[i][1] = id}
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* compact-protocol wire type of a schema type
WireOf(t) == IF IsList(t) THEN 9 ELSE IF IsStruct(t) THEN 12 ELSE IF IsEnum(t) THEN 5
             ELSE IF t = 9 THEN 8 ELSE t
=============================================================================

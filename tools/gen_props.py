import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    pass
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("C01","Integer run-length streams round-trip exactly",
 "Any sequence of 64-bit integers, signed or unsigned, that is encoded with the version-2 integer run-length encoding and flushed decodes to exactly the same sequence, with nothing lost, added, reordered or altered. This holds whatever the values, the sequence length and the points at which runs are emitted or flushed. Encoding never fails or crashes on a value of the declared type.",
 ["inputs","histories"],"all finite sequences of int64 / uint64 values and all interleavings of encode and flush calls",
 "The tests encode a dozen hand-picked sequences of at most a few hundred small values; run selection depends on every value, on the 512-value buffer boundary and on bit widths 1..64, a space no sample covers.",
 ["orc/encoding/int.go","orc/encoding/package.go"],
 [("run selection and buffering","intRLV2Encoder.Encode/write/Flush"),("sub-encodings","writeShortRepeat, writeDirect, writeDelta, tryDeltaEncoding, tryPatch, writePatch"),("bit packing","writeBits, writeLeftBits, readBits"),("decoder","intRLV2Decoder.decode, readPatched, DecodeInt, DecodeUInt"),("zigzag","Zigzag, UnZigzag")],
 [("pending values","values accepted by Encode and not yet emitted")],"bytes appended to the output buffer and the sequence returned by repeated decoding",False)
p("C02","Byte run-length streams round-trip exactly",
 "Any sequence of bytes encoded with the byte run-length encoding and flushed decodes to exactly the same sequence. Every run emitted is well formed: 3 to 130 copies of one byte, or 1 to 128 literal bytes, as the ORC specification defines.",
 ["inputs","histories"],"all finite byte sequences, all interleavings of encode and flush calls",
 "Tests use three short sequences; the run/literal split and the 128-value buffer boundary interact with every content.",
 ["orc/encoding/byte.go"],
 [("encoder","byteRunLength.Encode, Flush, encodeBytes, findRepeats"),("decoder","DecodeByteRL")],
 [("pending values","bytes accepted and not yet emitted")],"encoded bytes and decoded sequence",False)
p("C03","Boolean streams round-trip exactly",
 "Any sequence of booleans that is encoded and flushed decodes to the same sequence, followed only by at most seven padding values that are false. Bits are packed most significant first, and an encoder that is used again after a flush starts from a clean state.",
 ["inputs","histories"],"all finite boolean sequences, all interleavings of encode and flush calls on one encoder",
 "The tests encode one short sequence and flush once, so neither packing of arbitrary patterns nor reuse after flush is reached.",
 ["orc/encoding/bool.go","orc/stream/bool.go"],
 [("bit packing","boolRunLength.Encode, Flush"),("unpacking","DecodeBools, DecodeBoolsFromByte")],
 [("partial byte","bits accepted since the last whole byte")],"encoded bytes and decoded booleans",False)
p("C04","Fixed-width, varint and raw encodings are exact inverses",
 "Every 32-bit and 64-bit floating point value (all NaN payloads, infinities and signed zeros included), every variable-length 64-bit integer, every date and every byte string that is encoded decodes to the identical value and consumes exactly the bytes that were produced. Zigzag mapping is a bijection on 64-bit integers.",
 ["inputs"],"all values of each type and all concatenations of encoded values",
 "Tests use a few values per type; a wrong byte order, shift or length shows only on particular bit patterns.",
 ["orc/encoding/float.go","orc/encoding/string.go","orc/encoding/int.go","orc/encoding/package.go","orc/encoding/time.go"],
 [("float and double","float.Encode, double.Encode, DecodeFloat, DecodeDouble"),("varint","varint64Encoder.Encode, DecodeVarInt64"),("raw bytes","stringContents.Encode, DecodeBytes"),("zigzag","Zigzag, UnZigzag"),("date","dateV2Encoder.Encode, dateV2Decoder.Decode")],None,"encoded bytes and decoded values",False)
p("C05","The integer decoder implements the ORC run-length v2 format",
 "For every well-formed short-repeat, direct, delta (fixed and variable) and patched-base run, as defined by the ORC specification, the decoder yields exactly the values the specification assigns to that run and consumes exactly the bytes of that run. This includes runs that this library's own encoder never emits.",
 ["inputs"],"all well-formed runs: every width code, length 1..512, base, delta, patch list, signed and unsigned",
 "Interop tests read four small files; whole header combinations (fixed delta, wide patches, odd bit widths, length one) are never exercised.",
 ["orc/encoding/int.go","orc/encoding/package.go"],
 [("decoder","intRLV2Decoder.decode, readPatched, readBits, forgetBits"),("width table","widthDecoding")],None,"values returned by decoding and bytes left in the input",False)
p("C06","Compression chunks are well formed and lossless",
 "Splitting any data into compressed chunks and decompressing the result yields exactly the original data; every chunk holds at most the configured chunk size of original bytes, and its 3-byte header states its exact stored length and whether it is stored uncompressed. No data remains in the source once everything has been compressed, and with no compression the bytes pass through unchanged.",
 ["inputs","configurations"],"all byte sequences, all chunk sizes from 1 to the format maximum, all supported compression kinds",
 "Tests check one header value and a few buffers; correctness depends on chunk boundaries, incompressible content and sizes around powers of two.",
 ["orc/common/misc.go"],
 [("chunk header","encChunkHeader, DecChunkHeader"),("chunking","CompressingAllInChunks, CompressingChunks, CompressingLeft, zlibCompressingToChunks, zlibCompressingLeft"),("decompression","DecompressChunks, Decompress")],None,"destination and source buffers",False)
p("C07","A column stream reads back what was written, in order",
 "For every kind of value stream, every chunk size and either compression setting, the values written to a stream writer, flushed and written out are returned by the matching stream reader in the same order; the reader reports that it is finished exactly when all values were consumed (booleans fill whole bytes, so up to seven padding values may precede the end), and the recorded stream length equals the number of bytes written out. After a reset the writer starts an independent, equally correct stream.",
 ["inputs","histories","configurations"],"all value sequences, chunk sizes, compression kinds, and write/flush/write-out/reset histories",
 "Stream tests use one or two chunk sizes and no reuse after reset; boundary positions of values across chunks are not sampled.",
 ["orc/stream/writer.go","orc/stream/reader.go","orc/stream/int.go","orc/stream/byte.go","orc/stream/bool.go","orc/stream/float.go","orc/stream/string.go","orc/stream/time.go"],
 [("writer","writer.Write, Flush, WriteOut, Reset, Size"),("chunked reader","reader.ReadByte, Read, readAChunk, finished"),("typed readers","Next*, Finished")],
 [("stream buffers","encoded bytes not yet compressed, compressed bytes not yet written")],"file bytes, stream length, values returned, finished flag",False)
p("C08","Seeking to a recorded stream position resumes at the right value",
 "A position recorded by a stream writer after any number of values identifies that point: seeking a reader of the finished stream to it makes the next value returned the one that was written immediately after the recording, and all later values follow in order.",
 ["inputs","histories","configurations"],"all value sequences, all recording points, chunk sizes and compression kinds",
 "Tests seek to one or two strides of one sequence; errors show only for particular alignments of run, byte and chunk boundaries.",
 ["orc/stream/writer.go","orc/stream/reader.go","orc/stream/int.go","orc/stream/byte.go","orc/stream/bool.go","orc/encoding/int.go","orc/encoding/byte.go","orc/encoding/bool.go"],
 [("recording","writer.GetPosition, encoders' GetPosition"),("seeking","reader.seek and typed Seek methods")],
 [("position","chunk offset, offset in chunk, values into the current run, bits into the current byte")],"values returned after a seek",False)
p("C09","Date and timestamp conversions are lossless",
 "Every nanosecond count below one second survives the trailing-zero encoding used for timestamps; converting a time to a timestamp value and back gives the same instant, and converting a day number to a date and back gives the same day number.",
 ["inputs"],"all nanosecond counts in [0, 1e9), all representable days and instants",
 "Tests check a handful of constants; the encoding branches on decimal trailing zeros and the calendar code on sign and range.",
 ["orc/api/vector.go","orc/encoding/package.go"],
 [("nanosecond packing","EncodingTimestampNanos, DecodingTimestampNanos, EncodingNano, DecodingNano"),("dates","FromDays, ToDays"),("timestamps","GetTimestamp, Timestamp.Time")],None,"returned values",False)
p("C10","Columns keep nulls and values aligned",
 "For every supported primitive column type, with or without nulls, the rows written to a column are read back identically: a row is null exactly when it was written null, and every non-null row carries exactly the value written, regardless of how the read is split into batches.",
 ["inputs","histories","configurations"],"all null patterns, values, batch splits, compression settings and column types",
 "Column tests fix one null pattern per type and read everything in one batch; two of them already fail on this code base.",
 ["orc/column/int.go","orc/column/byte.go","orc/column/bool.go","orc/column/float.go","orc/column/string.go","orc/column/binary.go","orc/column/decimal.go","orc/column/time.go","orc/column/struct.go"],
 [("present stream","Write and NextBatch of each column type"),("data streams","Write and NextBatch of each column type")],
 [("present bits","one boolean per row"),("data values","one per non-null row")],"vectors returned by batch reads",False)
p("C11","Column statistics describe the data written",
 "The number-of-values statistic of a column equals the number of non-null values written, its has-null flag agrees with the schema's nullability, integer sums equal the sum of the values modulo 2^64, and minimum and maximum bound every value written. Statistics cover all stripes of the file.",
 ["inputs","histories"],"all value sequences and null patterns",
 "Existing tests do not check statistics against data at all.",
 ["orc/column/int.go","orc/column/byte.go","orc/column/bool.go","orc/column/float.go","orc/column/string.go","orc/column/binary.go","orc/column/decimal.go","orc/column/time.go","orc/column/writer.go"],
 [("statistics update","Write of each column writer"),("statistics access","GetStats, reset")],
 [("column statistics","count, sum, minimum, maximum, has-null")],"statistics returned by the writer and stored in the file footer",False)
p("C12","Reading a file returns every row exactly once",
 "Reading a file batch by batch until the reader signals the end returns every row exactly once, in order, whatever the batch size, the number of stripes and the rows per stripe; the end is signalled exactly when the last row has been returned. The rows equal those written.",
 ["inputs","histories","configurations"],"all row counts from 1, stripe splits, batch sizes and schemas of supported column types",
 "File tests use one row count and batch size each; off-by-one errors at stripe and batch boundaries depend on their exact combination.",
 ["orc/reader.go","orc/stripe.go","orc/writer.go","orc/api/vector.go"],
 [("batching","batchReader.Next, stripeReader.next, prepareVector, setVectorSize"),("writing","writer.Write, stripeWriter.write, forward, Close")],
 [("cursor","rows returned so far, per file and per stripe")],"row count and values returned until end",False)
p("C13","File layout metadata is consistent and always located",
 "In every file written, stripes lie contiguously after the header, each stripe's index, data and footer lengths equal the bytes written for it, the footer's content length and row count are the sums over stripes, and the per-stream lengths add up to the stripe's data length. The reader recovers the footer whatever its size and whatever the compression setting.",
 ["inputs","configurations"],"all schemas, data volumes, stripe sizes, compression kinds and footer sizes",
 "Tests write small single- or few-stripe compressed files whose footer always fits the reader's first guess.",
 ["orc/writer.go","orc/stripe.go","orc/reader.go"],
 [("stripe accounting","stripeWriter.flushOut, writeFooter, forward"),("file tail","writer.writeFileTail, extractFileTail")],
 [("stripe information","offset, index/data/footer length, rows")],"bytes of the file and the decoded footer",False)
p("C14","Schemas are numbered, stored and restored faithfully",
 "Numbering a schema assigns consecutive identifiers in depth-first pre-order starting at zero; flattening lists every node once in that order; storing a schema in a file and reading it back restores the same tree of kinds, field names and children. A schema in which a nullable composite has a nullable direct child is rejected wherever in the tree it occurs.",
 ["inputs"],"all schema trees over the supported kinds",
 "Tests use one or two small trees; skipped siblings or deeper levels need larger or differently shaped trees.",
 ["orc/api/type.go","orc/reader.go"],
 [("numbering","NormalizeSchema, SetId, traverse, addId"),("flattening","Flat, addSchema"),("storage","SchemasToTypes, marshallSchema, unmarshallSchema"),("validation","CreateVector, verifySchema, CheckNulls")],None,"identifiers, flattened list, restored tree, validation error",False)
p("C15","Decoders never crash on malformed input",
 "For arbitrary input bytes, decoding integers, bytes, booleans, floating point values and compressed chunks returns either values or an error; it never panics, reads outside its buffers or loops forever.",
 ["inputs"],"all finite byte sequences, including truncated and corrupted ones",
 "No test feeds malformed data; the failing inputs are specific header and length combinations.",
 ["orc/encoding/int.go","orc/encoding/byte.go","orc/encoding/bool.go","orc/encoding/float.go","orc/encoding/string.go","orc/common/misc.go"],
 [("integer decoder","intRLV2Decoder.decode, readPatched, readBits"),("byte and boolean decoders","DecodeByteRL, DecodeBools"),("fixed-width decoders","DecodeFloat, DecodeDouble, DecodeBytes, DecodeVarInt64"),("chunk decoder","DecompressChunks")],None,"outcome of a decode call: values, error or panic",False)
p("C16","Seeking to a row positions the reader at that row",
 "After seeking a file reader to any existing row number, the next batch starts with exactly that row and reading on to the end returns every later row exactly once, whatever was read before the seek. Seeking past the last row is refused with an error.",
 ["inputs","histories","configurations"],"all files, row numbers, prior read positions and batch sizes",
 "The one seek test calls seek four times and never looks at what is read afterwards.",
 ["orc/reader.go","orc/stripe.go","orc/column/int.go","orc/column/struct.go"],
 [("row seek","batchReader.Seek, stripeReader.Seek"),("column seek","SeekStride, Skip")],
 [("cursor","stripe index and row within the stripe")],"rows returned after a seek",False)
with open("properties.jsonl","w") as f:
    for x in P:
        f.write(json.dumps(x,ensure_ascii=False)+"\n")

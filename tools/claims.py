claim('C02', 'Encoder and decoder proved against a specification of the byte run-length format for all inputs and all histories (session lemma); trusted: bytes.Buffer and io.ByteReader contracts, vcg, solvers.')
claim('C03', 'Encoder (including reuse after flush) and decoder proved against bit packing over the byte run-length format; trusted: bytes.Buffer and io.ByteReader contracts, vcg, solvers.')
claim('C09', 'Nanosecond encoding/decoding, day/date and timestamp conversions proved for all inputs in range; trusted: package time (Unix, Date, In, UTC as abstract instants), vcg, solvers.')
claim('C04', 'Float, double, raw bytes, varint and zigzag encoders and decoders proved to invert each other and to consume exactly what was produced; the date codec rests on the integer codec contracts; trusted: bytes.Buffer, io.Reader, encoding/binary, math bit-cast contracts, vcg, solvers.')
claim('C05', 'The integer decoder (all four run kinds, bit reader, width table, stream loop) proved against a specification of the ORC run-length v2 format for every input; trusted: io readers, varint contracts, vcg, solvers; recursion of the bit reader is proved partially correct only.')
claim('C06', 'Compression into chunks, decompression of chunks and the header codec proved for all inputs and chunk sizes, with deflate abstract (the inflater inverts the deflater); trusted: klauspost/compress/flate, bytes.Buffer, io.CopyN/Copy contracts, vcg, solvers.')
claim('C15', 'The decoders named by the property are proved free of panics, out-of-bounds accesses and (where loops carry measures) endless loops for every input; the remaining decoders are run on bounded malformed inputs; trusted: io readers, bytes.Buffer, inflater contracts, vcg, solvers.')
claim('C01', 'The integer encoder (Encode, Flush, run selection, short repeat, direct, delta, patched base, bit writer, width tables) and the decoder proved against a specification of the format, for all inputs and histories (session lemma, prefix lemmas); trusted: bytes.Buffer, varint contracts, exactness of Ceil(float64(n)/8) for small n, vcg, solvers.')
claim('C07', 'Stream writers (all encoders behind them), stream readers and typed readers proved against the formats; lemmas carry a finished writer over to the matching reader (values left to read == values given, finished iff none left); trusted: bytes.Buffer, io, os.File, deflate contracts, vcg, solvers.')
claim('C08', 'Recorded positions, seeking of the raw and typed readers proved; lemmas carry the moment of recording over to what is read after the seek, for every stream kind; trusted: bytes.Buffer, io, os.File, deflate contracts, vcg, solvers.')
claim('C10', 'Column writers and column readers (int, byte, bool, float, date, timestamp, decimal, binary, string direct) proved against the rows: Write, Flush, WriteOut, NextBatch, Skip; lemmas carry a finished column over to the batches read. The dictionary string columns, char/varchar wrappers and struct recursion are run on bounded inputs only. Trusted: bytes.Buffer, io, os.File, deflate, time, strconv, vcg, solvers.')
claim('C11', 'Statistics of the column writers (count, has-null, sum, minimum, maximum, lengths) proved for the non-dictionary writers for all histories; the dictionary writer and the file level merge are run on bounded inputs. Trusted: as C10, float addition abstract.')
claim('C12', 'The batch reader and stripe reader (which rows of which stripe go where, end of file) and the writer (row counting, stripe flushing, footer row count) proved over rows as tokens for all batch sizes, stripe counts and rows per stripe; the column readers behind the interface keep their contracts per concrete type (C10). Trusted at this level: column.Reader/Writer interface contracts for the composite columns, ColumnVector Clear/Len/Cap, setVectorSize; those are run on bounded inputs. The readers and writers made for a schema (column.NewReader, column.NewWriter, stripeReader.init: which column gets which stream, at which offset, which children) are proved. Also trusted: proto.Marshal/Unmarshal, vcg, solvers.')
claim('C13', 'Layout of the written file (stripe offsets and lengths, footer content length and row count, stream lengths) and recovery of the tail and stripe footer proved; trusted: column.Writer interface contracts, proto.Marshal/Unmarshal as inverses (the generated getters are proved), file length at most 2^62, vcg, solvers.')
claim('C16', 'Row-index entries written (count, positions), Skip of the column readers, Seek of the batch reader and stripe reader (which stripe, which stride, how many rows skipped) proved; SeekStride of the column readers is an interface contract and is run on bounded inputs. Trusted: as C10.')
claim('C14', 'Column numbering (pre-order ids), flattening, rejection of ill-formed trees, storing in the footer and restoring from it proved over schema trees of any shape with ghost pre-order numbers; a lemma joins them: the tree restored from a numbered, stored schema is that schema. Trusted: proto.Marshal/Unmarshal as inverses, the types of a file opened for reading assumed storable (newReader), partial correctness of the recursion, address of a field read as a copy, vcg, solvers.')

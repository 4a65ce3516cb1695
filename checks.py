"""What run.py builds and runs for each property."""
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
PARSE = ["parser.cpp", "parser_query.cpp", "unicode.cpp", "ascii.cpp", "allocator_pool.cpp", "allocator_memory.cpp", "asserts.cpp", "maths.cpp", "file.cpp", "hash_pearson.cpp", "top_k_qsort.cpp"]
CODECS = ["codecs"] + PARSE

CHECKS = {}
NOT_APPLICABLE = {}
CHECKS["P08"] = {
	"level": "exploration", "technique": "exhaustive bounded enumeration of sequences on the real codecs (explicit-state, round-trip oracle)",
	"note": "Every sequence of the stated families is encoded and decoded by the real code, under AddressSanitizer and again without AVX-512. Sequences outside the families (long, irregular ones) are not covered.",
	"rule": "one distinct value per (codec, family of sequences, parameter) enumerated",
	"units": [{"name": "codec", "harness": ["harness/p08.cpp"], "sources": CODECS, "shards": 16,
		"variants": {"asan": ASAN, "noavx512": ["-mno-avx512f"]}, "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P09"] = {
	"level": "exploration", "technique": "exhaustive enumeration of output buffer sizes over bounded families of sequences, canary and round-trip oracle",
	"note": "Every output buffer size (0 to 130 bytes beyond the size needed, then larger steps) for each (codec, length, shape, width) of the family; the encoders are the real code. Longer sequences are not covered.",
	"rule": "one distinct value per (codec, length, kind of sequence)",
	"units": [{"name": "bounds", "harness": ["harness/p09.cpp"], "sources": CODECS, "shards": 16, "limit": {"quick": 120, "thorough": 3000}}],
}

API = ["all", "unicode.cpp", "ascii.cpp", "/anytime/JASS_anytime_api.cpp"]
CHECKS["P01"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every small collection and query on the real index writer and search engine, against a reference ranking",
	"note": "Every collection of the stated families (all small impact matrices, all tie patterns, impact sums across the rescaling boundary, page-boundary document counts, both formats, several codecs) is written by the real serialisers and searched by the real engine with every k of the list; each result list is compared with a reference ranking. Larger collections are not covered.",
	"rule": "one distinct value per (family of collections, parameters)",
	"units": [{"name": "search", "harness": ["harness/p01.cpp"], "sources": API, "shards": 16, "opt": ["-O2"], "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P03"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every small collection and query on the real search engine under every postings budget, against a reference ranking",
	"note": "Every postings budget from 0 past the total is applied to every query of the families, through the absolute, proportional and relative setters; results are compared with the reference prefix ranking (all orders of equal segments accepted). Larger collections are not covered.",
	"rule": "one distinct value per (family of collections, parameters)",
	"units": [{"name": "search", "harness": ["harness/p03.cpp"], "sources": API, "shards": 16, "opt": ["-O2"], "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P04"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every small collection and query on the real search engine with every supplied k-th score, against a reference ranking",
	"note": "Every k-th score from 0 to past the largest score is supplied for every query and k of the families, through the real oracle file; results must be a correct top-k set (true score) or equal the unbounded search (wrong score). Larger collections are not covered.",
	"rule": "one distinct value per (family of collections, parameters)",
	"units": [{"name": "search", "harness": ["harness/p04.cpp"], "sources": API, "shards": 16, "opt": ["-O2"], "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P05"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every operation sequence up to a depth on the real search object, compared with a new object at every step",
	"note": "Every window of 2 to 4 operations out of 19 (queries and setting changes) is applied to one long-lived object (de Bruijn sequence) and every short sequence to new objects, over 96 configurations; each answer is compared with that of a new object given only the current settings. Longer dependencies than the window show only if the long-lived object meets them.",
	"rule": "one distinct value per (configuration, family of sequences)",
	"units": [{"name": "history", "harness": ["harness/p05.cpp"], "sources": API, "shards": 16, "opt": ["-O2"], "limit": {"quick": 120, "thorough": 3000}}],
}
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset", "memcmp", "strlen", "exit"))]
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-fno-builtin-memcmp", "-fno-builtin-strlen"]
def MC(name, harness, sources, **kw):
	return dict({"name": name, "harness": [harness], "sources": sources, "flags": TSAN, "runtime": ["mc/mc.cpp"], "lflags": WRAP, "shards": 16, "limit": {"quick": 200, "thorough": 3000}}, **kw)
MCLIB = ["allocator_pool.cpp", "allocator_memory.cpp", "asserts.cpp", "maths.cpp", "threads.cpp", "hash_pearson.cpp"]
CHECKS["P14"] = {
	"level": "model_checking", "technique": "stateless model checking of the real code: every interleaving (DPOR) and every schedule up to a preemption bound, with data-race detection",
	"note": "2 to 4 real threads append to one real dynamic_array; every interleaving of its atomic operations (reduced by DPOR), and every schedule within a preemption bound when the pool's operations are scheduling points too, capped at a stated number of schedules per configuration. Sequentially consistent memory; more threads or elements are not covered.",
	"rule": "one distinct value per configuration of threads",
	"units": [MC("append", "harness/p14.cpp", MCLIB)],
}
CHECKS["P13"] = {
	"level": "model_checking", "technique": "stateless model checking of the real arenas: every interleaving (DPOR) and every schedule up to a preemption bound, allocation failures injected; every short request sequence for one thread",
	"note": "2 or 3 real threads allocate from one real arena under every interleaving (two requests) or preemption bound (more), capped per configuration; malloc failures injected one at a time; one-thread request sequences enumerated under AddressSanitizer. Sequentially consistent memory; request sizes near 2^64 are not covered.",
	"rule": "one distinct value per configuration",
	"units": [MC("threads", "harness/p13.cpp", MCLIB), {"name": "sequences", "harness": ["harness/p13s.cpp"], "sources": MCLIB, "shards": 16, "variants": {"asan": ASAN}, "limit": {"quick": 60, "thorough": 3000}}],
}
CHECKS["P15"] = {
	"level": "model_checking", "technique": "stateless model checking of the real dictionaries: every interleaving (DPOR) and every schedule up to a preemption bound, with data-race detection; every short key sequence for one thread",
	"note": "2 to 4 real threads insert and look up keys in one real binary_tree or hash_table under every interleaving of its atomic operations (capped per configuration), with the pool's operations interleaved too up to a preemption bound; one-thread sequences enumerated under AddressSanitizer against a reference map. Sequentially consistent memory; more threads or keys are not covered.",
	"rule": "one distinct value per configuration",
	"units": [MC("threads", "harness/p15.cpp", MCLIB), {"name": "sequences", "harness": ["harness/p15s.cpp"], "sources": MCLIB, "shards": 16, "variants": {"asan": ASAN}, "limit": {"quick": 60, "thorough": 3000}}],
}
CHECKS["P02"] = {
	"level": "model_checking", "technique": "stateless model checking of the real search engine: every interleaving (DPOR) of the real threads of a search, with data-race detection, against searching one query at a time",
	"note": "The whole engine (parser, index reader, decoders, accumulators, heap) runs under the model checker's scheduler: every interleaving of the atomic operations of 2 to 4 threads sharing a list of up to 5 queries, capped per configuration. Sequentially consistent memory; races inside the C++ library's binary are not seen.",
	"rule": "one distinct value per (threads, list, setting, format)",
	"units": [MC("threads", "harness/p02.cpp", API, flags=TSAN + ["-UJASS_VERIFY_MAX_DOCUMENTS", "-DJASS_VERIFY_MAX_DOCUMENTS=600", "-DJASS_VERIFY_MAX_QUERY_TERMS=64"])],
}
SMALL = ["-UJASS_VERIFY_MAX_DOCUMENTS", "-DJASS_VERIFY_MAX_DOCUMENTS=600", "-DJASS_VERIFY_MAX_QUERY_TERMS=64"]
CHECKS["P25"] = {
	"level": "fault_enumeration", "technique": "exhaustive enumeration of file faults and operation sequences on the real search object, against a reference state machine",
	"note": "Every subset of the index's files damaged in each of four ways, within every short sequence of loads, settings and searches, is run on the real object under AddressSanitizer; after each step every getter and several searches are compared with a new object in the state the model predicts. Files that are present but truncated or corrupt in content are not covered.",
	"rule": "one distinct value per (fault) or pair of first operations",
	"units": [{"name": "faults", "harness": ["harness/p25.cpp"], "sources": API, "flags": SMALL, "shards": 16, "variants": {"asan": ASAN}, "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P06"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every small collection on the real indexer, index writers and index readers, against a reference inverted index",
	"note": "Every frequency vector of up to 6 (7) documents, in three orders of occurrence, and families of larger collections are indexed by the real index manager, written by the real serialisers in both formats with every codec they offer, and read back by the real readers; vocabulary, postings, impacts, lengths and keys are compared with the reference. Collections of more than 20,000 documents are not covered.",
	"rule": "one distinct value per (family of collections, parameters)",
	"units": [{"name": "roundtrip", "harness": ["harness/p06.cpp"], "sources": API, "flags": SMALL, "shards": 16, "variants": {"asan": ASAN}, "limit": {"quick": 300, "thorough": 3000}}],
}

P12V = {"keys64": ["-DACCUMULATOR_64s"], "keys64avx": ["-DACCUMULATOR_64s", "-DVF_SORT=3"], "beap": ["-DACCUMULATOR_POINTER_BEAP", "-DVF_SORT=1"], "counter8": ["-DVF_ACCUMULATORS=8", "-DVF_SORT=2"], "counter4": ["-DVF_ACCUMULATORS=4"],
	"interleaved8": ["-DVF_ACCUMULATORS=108"], "interleaved81": ["-DVF_ACCUMULATORS=118", "-DVF_SORT=1"], "interleaved4": ["-DVF_ACCUMULATORS=104"]}
CHECKS["P12"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every short sequence of score contributions on the real query processors, against a reference ranking",
	"note": "Every sequence of up to 5 (6) contributions over 4 documents is given to one object of each query processor class, one query after another, for several result depths, page widths and document placements; results are read forwards, backwards and again. Longer irregular sequences are not covered; compile-time configurations other than the default, 64-bit keys and the beap are not covered.",
	"rule": "one distinct value per (class, family, parameters)",
	"units": [{"name": "rank", "harness": ["harness/p12.cpp"], "sources": PARSE, "flags": SMALL, "shards": 16, "variants": {"asan": ASAN, **P12V}, "limit": {"quick": 120, "thorough": 3000}}],
}
READERS = ["instream_memory.cpp", "instream_file.cpp", "instream_deflate.cpp", "instream_directory_iterator.cpp", "instream_document_trec.cpp", "instream_document_warc.cpp", "instream_document_fasta.cpp", "instream_document_unicoil_json.cpp", "file.cpp", "ascii.cpp", "allocator_pool.cpp", "allocator_memory.cpp", "asserts.cpp", "compress_general_zlib.cpp", "unittest_data.cpp", "maths.cpp"]
LIB = PARSE
CHECKS["P10"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every short operation sequence on the real heaps, beap and sorts, against plain sorted containers",
	"note": "Every small starting array and every short sequence of insertions, replacements, promotions, searches and sorts is applied to the real containers, with order, contents, membership and memory past the end checked after each; partial sorts are enumerated over all small arrays and permutations and patterns up to 5000 elements.",
	"rule": "one distinct value per (container, size, family)",
	"units": [{"name": "containers", "harness": ["harness/p10.cpp"], "sources": LIB, "shards": 16, "opt": ["-O2"], "variants": {"asan": ASAN}, "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P11"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every short operation sequence on the real accumulator tables, against a plain array",
	"note": "Every sequence of 4 (5) operations (initialise, rewind, add, read, touch) from uninitialised memory, long runs of rewinds so that every counter wraps, and every accumulator alone, on every table, several element types, sizes and row widths, under AddressSanitizer.",
	"rule": "one distinct value per (table, type, size, width, family)",
	"units": [{"name": "tables", "harness": ["harness/p11.cpp"], "sources": LIB, "shards": 16, "opt": ["-O2"], "variants": {"asan": ASAN}, "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P07"] = {
	"level": "exploration", "technique": "exhaustive enumeration of small collections through the real ranking functions and quantisers, against the published formulas",
	"note": "Every matrix of small term frequencies for up to 3 documents and 3 terms with every choice of lengths, every pair of frequencies, and families of up to 1000 documents pass through the real rankers and quantisers; scores are compared with BM25 computed independently, impacts with uniform quantisation to within one step. Impacts of scores that agree to 5 digits are not ordered.",
	"rule": "one distinct value per (lengths or frequency or parameters)",
	"units": [{"name": "quantise", "harness": ["harness/p07.cpp"], "sources": ["all"], "flags": SMALL, "shards": 16, "opt": ["-O2"], "limit": {"quick": 120, "thorough": 3000}}],
}
EVAL = ["evaluate.cpp"] + ["evaluate_%s.cpp" % e for e in ("precision", "recall", "f", "map", "mean_reciprocal_rank", "mean_reciprocal_rank4k", "relevant_returned", "expected_search_length", "rank_biased_precision", "buying_power", "buying_power4k", "cheapest_precision", "selling_power", "price_based_normalized_discounted_cumulative_gain", "buying_power_normalized_discounted_cumulative_gain")]
CHECKS["P20"] = {
	"level": "exploration", "technique": "exhaustive enumeration of judgements, prices, rankings and depths through the real measures and the real program, against their definitions",
	"note": "Every judgement of 4 documents and every ranking of up to 5 is measured at 8 depths by every measure class, prices of 3 or 4 kinds for the price measures; judgements are read in every spacing, order and line ending; the program's output is parsed and compared by name. Recall is relative to min(relevant, depth), as the code defines it.",
	"rule": "one distinct value per (judgements, prices) or (kind of text) or (sample)",
	"units": [{"name": "measures", "harness": ["harness/p20.cpp"], "sources": EVAL + ["file.cpp", "statistics.cpp", "unittest_data.cpp", "asserts.cpp", "maths.cpp", "commandline.cpp"], "shards": 16, "opt": ["-O2"], "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P23"] = {
	"level": "exploration", "technique": "exhaustive enumeration of byte strings and buffer sizes, and of operation sequences, on the real compressors",
	"note": "Every string of up to 5 (thorough 7) characters over 3, with every output buffer size and every size to decompress into, longer strings of 6 shapes around block sizes, and every sequence of 4 (5) of 9 operations (successful, too small, truncated) on one compressor; each buffer lies between guard bytes. Both the zlib and the Zstandard compressor.",
	"rule": "one distinct value per (compressor, block of strings / shape and length / first two operations)",
	"units": [{"name": "compress", "harness": ["harness/p23.cpp"], "sources": ["compress_general_zlib.cpp", "compress_general_zstd.cpp", "asserts.cpp", "unittest_data.cpp"], "shards": 16, "opt": ["-O2"], "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P28"] = {
	"level": "exploration", "technique": "exhaustive enumeration of argument lists through the real command line parser, against a reference parser",
	"note": "Every list of up to 4 (thorough 5) arguments over 32 words, and every option of 10 types, written short and long, joined and separated, with 57 values in 25 contexts; the variables, the answer and the message are compared with a reference, under AddressSanitizer with nothing readable beyond the list. An argument means the longest declared name it starts with; leading zeros (octal) and not-a-number are outside the domain.",
	"rule": "one distinct value per (option name / first two arguments)",
	"units": [{"name": "commandline", "harness": ["harness/p28.cpp"], "sources": ["asserts.cpp"], "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P19"] = {
	"level": "exploration", "technique": "exhaustive enumeration of all code points and byte sequences through the real tables and conversions, against the shipped Unicode database",
	"note": "All 1,114,112 code points: 15 character classes and the normal form against an independent reading of UnicodeData, PropList and CaseFolding, and UTF-8 into buffers of every size; every byte sequence of up to three bytes and four byte ones around the boundaries, each ending exactly at the end of an allocation under AddressSanitizer. The tables are generated from the working tree. Surrogates may be accepted or refused, and non-P dashes and terminators may count as punctuation or not.",
	"rule": "one distinct value per (class / block of code points / lead byte)",
	"units": [{"name": "unicode", "harness": ["harness/p19.cpp"], "sources": ["unicode.cpp", "ascii.cpp", "asserts.cpp"], "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 200, "thorough": 3000}}],
}
CHECKS["P17"] = {
	"level": "exploration", "technique": "exhaustive enumeration of small documents through the real tokeniser, against a reference tokeniser, at the edge of the document's memory",
	"note": "Every document of up to 5 (thorough 6) of 18 characters, every code point in several contexts, every sequence of 3 (4) of 36 pieces of markup and text with truncations, and over-long tokens of 11 kinds of characters. The type and text of every token are compared with a reference; the document ends where its allocation ends under AddressSanitizer. Of markup that is never finished only termination and memory safety are judged. Character classes and foldings are those of the tables P19 checks.",
	"rule": "one distinct value per (first two characters / block of code points / first piece / kind of character)",
	"units": [{"name": "tokens", "harness": ["harness/p17.cpp"], "sources": PARSE, "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 200, "thorough": 3000}}],
}
CHECKS["P18"] = {
	"level": "exploration", "technique": "exhaustive enumeration of small queries through the real query tokeniser, against a reference and differentially against the document tokeniser",
	"note": "Every query of up to 5 (thorough 6) of 16 characters including malformed UTF-8, every code point in several contexts, every sequence of up to 5 (6) of 12 words, markup, over-long words of 11 kinds of characters and queries of up to 65535 terms. Terms, counts and order are compared with a reference; without markup the query's terms are also those of the document tokeniser for the same text, and each term is its own query. NUL in raw queries is outside the domain. Most cases run with JASS_VERIFY_MAX_QUERY_TERMS=400 so that a term list is small; the largest queries run without it.",
	"rule": "one distinct value per (first two characters / block of code points / first word / kind of character / size)",
	"units": [
		{"name": "queries", "harness": ["harness/p18.cpp"], "sources": PARSE, "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN + ["-DJASS_VERIFY_MAX_QUERY_TERMS=400"]}, "limit": {"quick": 200, "thorough": 3000}},
		{"name": "long", "harness": ["harness/p18.cpp"], "sources": PARSE, "shards": 4, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 120, "thorough": 600}},
	],
}
CHECKS["P16"] = {
	"level": "exploration", "technique": "exhaustive enumeration of streams, splits into reads, and internal buffer sizes on the real readers, against references that have the whole text",
	"note": "Every sequence of 3 (thorough 4) pieces of documents, markers, parts of markers and other text is delivered to each of the five document readers whole, in equal parts and cut at every place (every pair of places for short streams), with every small internal buffer that holds the longest document; the documents, keys and the end (asked for three more times) are compared with a reference, under AddressSanitizer. The real buffers (16 MB, 1 MB, 8 KB lines, 10 MB of compressed data) are crossed at every small offset. Files, pipes, memory, compressed streams (several in one file) and directories are read in every size of read. WARC contents start straight after the Content-Length line, as the existing unit test has it.",
	"rule": "one distinct value per (reader, first two pieces), buffer crossing, text or directory",
	"units": [{"name": "streams", "harness": ["harness/p16.cpp"], "sources": READERS, "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 300, "thorough": 3000}}],
}
CHECKS["P30"] = {
	"level": "exploration", "technique": "exhaustive enumeration of small sequences and weighted vectors through the real tokenisers, against references, at the edge of the document's memory",
	"note": "Every sequence of up to 7 (thorough 9) of 7 characters (bases, spaces, others) for k of 1 to 4, headers with unfinished markup, and k around and beyond the longest token; every vector of up to 5 (6) of 12 pieces of JSON, and pairs of terms (escapes, over-long) and weights (0, around 1024 and 65536, beyond 64 bits). Types, texts and counts are compared with a reference under AddressSanitizer. The tokens of a FASTA header are those of the general tokeniser (P17) for the header alone. k is at least 1. In a vector a term's weight is the next run of digits.",
	"rule": "one distinct value per (first two characters / header / k / first two pieces / term)",
	"units": [{"name": "special", "harness": ["harness/p30.cpp"], "sources": PARSE + ["parser_fasta.cpp", "parser_unicoil_json.cpp"], "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 200, "thorough": 3000}}],
}
CHECKS["P24"] = {
	"level": "model_checking", "technique": "exhaustive enumeration of operation histories and single failing transfers of the real file object on an in-memory device, against a byte-string model; and of small contents, channel histories and topic files",
	"note": "Every history of up to 3 (thorough 4) of 17 operations (writes around the buffer's end, reads, seeks, flushes, size) for buffers of 1 to 7 bytes, buffered and unbuffered C streams, empty and existing files: return values, tell(), bytes read and final contents must be those of a byte string with a position. Then each transfer in turn fails or is cut short: a lost write must be reported by write() or flush(), a failed seek must throw. Whole-file reads and writes, mappings, lines, channel reads and writes, TREC topics in four styles, unopenable files and full devices, and the real indexer with each of its files unwritable. The device model is glibc's fopencookie; setvbuf is called on an empty buffer with a size of at least 1, as documented.",
	"rule": "one distinct value per (buffer, first operation), (fault kind, first operation), (first two bytes of the contents), (channel item), (topic style, tags, first number)",
	"units": [{"name": "files", "harness": ["harness/p24.cpp"], "sources": API, "flags": SMALL, "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 200, "thorough": 3000}}],
}
CHECKS["P29"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every small collection on the real exporters and printing tools, against a reference inverted index",
	"note": "Every collection of up to 2 (thorough 3) documents over three terms, and families of larger ones, is indexed by the real index manager, as it is and quantised, and written by the real exporters; the integer lists, the forward index and the generated source are read back by independent readers (the source also compiled and run for some collections) and must have exactly the postings, impacts and primary keys the index holds. The printing programs must print exactly the same postings from both index formats with every codec, and indexing again must give the same bytes. The forward index's line layout is the one an existing test pins.",
	"rule": "one distinct value per small collection, or (family of collections, size, quantised or not), or byte",
	"units": [{"name": "exports", "harness": ["harness/p29.cpp"], "sources": API, "flags": SMALL, "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 200, "thorough": 3000}}],
}
CHECKS["P26"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every small interchange file through the real reader and converter, against an independent writer and the index it describes",
	"note": "Integers, fixed-width numbers, strings and tags of the wire format are decoded from buffers of exactly their size (AddressSanitizer sees one byte beyond). Files are generated by an independent encoder in eight styles (default values written or left out, fields in either order, integers longer than necessary) and read by the real iterators. The real converter runs with every option and both index formats, and the index is read back: with -passthrough the impacts must be the file's frequencies (up to the largest impact), with -scalepassthrough their linear image, and otherwise what the real indexer gives for the same documents (whose ranking P07 decides). Files with unknown fields must be refused. Field numbers up to 15; truncated files are outside the domain (the reader does not know the file's length).",
	"rule": "one distinct value per highest bit, field, small index, or (family, size)",
	"units": [{"name": "ciff", "harness": ["harness/p26.cpp"], "sources": API, "flags": SMALL, "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 200, "thorough": 3000}}],
}
CHECKS["P21"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every small collection through the real indexing and searching programs, against a reference index and a reference search",
	"note": "The programs' own main functions run, each in a process of its own: the indexer on generated TREC, FASTA and (compressed) uniCOIL collections with its options, in both index formats; then the searcher on that index with query files in four styles, both query parsers, several depths, threads, budgets and accumulator widths. The index is read back and must have exactly the collection's documents, keys, terms and impacts (the impacts of the real quantiser, which P07 decides); ranking.txt must have exactly the lines a reference search of those impacts gives, together for each query, and the statistics each query once with its number of postings. Threads run freely here (P02 explores their schedules).",
	"rule": "one distinct value per small collection, or (format, size, options, index format)",
	"units": [{"name": "programs", "harness": ["harness/p21.cpp"], "sources": API, "flags": SMALL, "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 240, "thorough": 3000}}],
}
CHECKS["P32"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every small collection and list of queries on the real search program of a compiled index, against a reference ranking",
	"note": "The program's own main function answers lists of queries over a vocabulary of functions that do what the generated ones do (P29 compiles the generated ones): every collection of up to 4 (thorough 5) documents over two terms, larger patterned collections, every dictionary size up to 60 (300), lines of many forms and files with every ending. The run files' writer is also called directly with every list of up to 5 results. Sums of impacts above 255 are outside.",
	"rule": "one distinct value per (number of documents, pattern), dictionary size, or form of run file",
	"units": [{"name": "compiled", "harness": ["harness/p32.cpp"], "sources": PARSE + ["compress_integer.cpp", "compress_integer_none.cpp"], "shards": 16, "flags": ["-UJASS_VERIFY_MAX_DOCUMENTS", "-DJASS_VERIFY_MAX_DOCUMENTS=2100", "-DJASS_VERIFY_MAX_QUERY_TERMS=4000"], "opt": ["-O1"], "variants": {"": [], "asan": ASAN}, "limit": {"quick": 300, "thorough": 3000}},
		{"name": "large", "harness": ["harness/p32.cpp"], "sources": PARSE + ["compress_integer.cpp", "compress_integer_none.cpp"], "shards": 8, "flags": ["-DLARGE", "-DJASS_VERIFY_MAX_QUERY_TERMS=4000"], "opt": ["-O1"], "variants": {"asan": ASAN}, "limit": {"quick": 300, "thorough": 3000}}],
}
CHECKS["P31"] = {
	"level": "exploration", "technique": "exhaustive enumeration of small integers, byte strings, vectors and samples through the real primitives, against their definitions",
	"note": "Integer logarithms, first set bits and roots for every integer of a range and around every power of two; orders, copies, hashes and checksums for every short byte string and pair of them; gathers, scatters, running sums and bit counts of vector registers for every choice of lanes (with and without AVX-512); ranks, correlations and paired tests for every pair of short samples, against numerical integration of Student's distribution.",
	"rule": "one distinct value per block of integers, block of strings, or size",
	"units": [{"name": "primitives", "harness": ["harness/p31.cpp"], "sources": MCLIB + ["checksum.cpp", "statistics.cpp", "unittest_data.cpp"], "shards": 16, "opt": ["-O1"], "variants": {"asan": ASAN, "noavx512": ["-mno-avx512f"]}, "limit": {"quick": 200, "thorough": 3000}}],
}
CHECKS["P27"] = {
	"level": "model_checking", "technique": "explicit-state exploration of every sequence of operations up to a depth on real bit strings, against a set model; exhaustive enumeration of bit streams and buffer sizes",
	"note": "Every sequence of 4 (thorough 5) of 24 operations on three bit strings (resizing both ways, setting, combining, aliasing) is run under AddressSanitizer and the full state compared; bit streams are written in every small way into every buffer size and read back. Positions beyond the length are used only through the checked operations; members are numbered from 1.",
	"rule": "one distinct value per (first two operations) or (family of streams)",
	"units": [{"name": "bits", "harness": ["harness/p27.cpp"], "sources": ["bitstring.cpp", "maths.cpp", "asserts.cpp"], "shards": 16, "opt": ["-O2"], "variants": {"asan": ASAN}, "limit": {"quick": 120, "thorough": 3000}}],
}
CHECKS["P22"] = {
	"level": "exploration", "technique": "exhaustive enumeration of words through the real stemmer, against the published algorithm",
	"note": "Every word of up to 5 (thorough 6) letters, and every stem of up to 4 (6) letters over an 8-letter alphabet with every pair of the algorithm's suffixes, compared with an independent implementation of Porter's 1980 paper (not his later revisions). One and two letter words may be left alone or treated as the paper's rules say.",
	"rule": "one distinct value per (ending or pair of suffixes)",
	"units": [{"name": "stem", "harness": ["harness/p22.cpp"], "sources": PARSE + ["stem_porter.cpp"], "shards": 16, "opt": ["-O2"], "limit": {"quick": 120, "thorough": 3000}}],
}

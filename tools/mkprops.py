#!/usr/bin/env python3
# Source of truth for /verif/properties.jsonl (run it to regenerate the file).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Search returns exactly the top-k documents by summed impact",
  "For any loaded index and any query, a search without a postings budget returns exactly the k documents (or every matching document when fewer match) whose sums of stored impacts over the query's distinct terms are largest, best first, equal scores ordered by larger document number first. Every result carries the primary key and score of its own document, no document is returned twice, and no document without a query term is returned. If the sum of the query terms' largest impacts exceeds the accumulator's range (255), impacts are rescaled linearly first, so that scores never wrap around.",
  ["inputs", "configurations"], "every index content, both index formats, every query, every k from 1 up",
  "The unit tests search one ten-document index with a handful of queries; exactness under ties, k boundaries, score overflow, segment order and page boundaries quantifies over all indexes, queries and k.",
  ["anytime/JASS_anytime_api.cpp", "source/query_heap_clean.h", "source/query.h", "source/heap.h", "source/accumulator_2d.h", "source/deserialised_jass_v1.cpp", "source/deserialised_jass_v2.cpp", "source/pointer_box.h", "source/simd.h"],
  [("segment gathering, impact ordering, scaling and processing loop", "anytime/JASS_anytime_api.cpp"), ("heap with tie-break by address", "source/query_heap_clean.h"), ("segment decoding", "source/deserialised_jass_v2.cpp")],
  observe=["JASS_anytime_api::search result"])

p("P02", "Threaded search answers every query once, as serial search would",
  "Searching a list of queries with any number of threads gives, under every interleaving of those threads, exactly the per-query results that searching the same queries one after another gives. Every query of the list is answered exactly once, no thread interferes with another's result, and no two threads access the same memory without synchronisation.",
  ["schedules", "inputs"], "every interleaving of the worker threads, every query list and thread count",
  "The unit tests run one list through a free-running scheduler, so a schedule that loses, duplicates or corrupts an answer is met only by luck.",
  ["anytime/JASS_anytime_api.cpp", "anytime/JASS_anytime_api.h", "anytime/JASS_anytime_query.h", "anytime/JASS_anytime_thread_result.h", "source/threads.cpp", "source/channel_buffer.cpp"],
  [("atomic query claim", "anytime/JASS_anytime_query.h"), ("per-thread result sets joined in order", "anytime/JASS_anytime_api.cpp"), ("per-thread engine objects", "anytime/JASS_anytime_api.cpp")],
  observe=["JASS_anytime_api::search(output, queries, threads)", "JASS_anytime_api::threaded_search"])

p("P03", "A postings budget truncates a search at an impact-ordered prefix",
  "With a postings budget, a search scores exactly the segments of a prefix of the query's segments taken in order of decreasing impact (shorter segments first among equals), the longest prefix whose total number of postings does not exceed the budget, and its result is the exact top-k for those contributions. A budget at least as large as the query's total postings gives the same result as no budget, and the reported number of postings processed equals that prefix's size. Budgets expressed as a proportion of the collection or of the query's postings behave as the equivalent absolute budget.",
  ["inputs", "configurations", "histories"], "every index, query, budget setting and sequence of settings",
  "Tests use budgets far above the index size; the boundary behaviour quantifies over every budget and segment layout.",
  ["anytime/JASS_anytime_api.cpp", "anytime/JASS_anytime_api.h"],
  [("segment sort and budget test", "anytime/JASS_anytime_api.cpp")], observe=["results of search under set_postings_to_process*"])

p("P04", "Supplying the true k-th score up front never loses a top-k document",
  "When searches are given, per query, the true score of the k-th best document (from an oracle file), the documents returned are still a correct top-k set: k documents whose full scores are at least the k-th best score. When the supplied score is wrong (too high to be reached by k documents), the search still returns the same documents as a search without an oracle. A search told to process a minimum number of postings does not stop before it has.",
  ["inputs", "configurations"], "every index, query, k and supplied k-th score",
  "No existing test enables the early-termination path on data where it triggers.",
  ["anytime/JASS_anytime_api.cpp", "source/query_heap_clean.h", "source/top_k_limit.cpp", "source/top_k_limit.h"],
  [("lower-bound filter, early termination and top-up", "source/query_heap_clean.h"), ("oracle table", "source/top_k_limit.h")])

p("P05", "A search engine object carries nothing over from earlier queries",
  "The result of a query does not depend on which queries, result depths, or budgets the same search object was used with before: for every sequence of searches and setting changes, each answer equals the one a newly created search object with the same current settings gives. Loading is needed only once, and a repeated query gives the identical answer.",
  ["histories", "configurations"], "every sequence of queries and setter calls on one search object",
  "Tests issue one or two queries per object; stale accumulators, heap entries, flags or settings show only in specific sequences.",
  ["anytime/JASS_anytime_api.cpp", "source/query_heap_clean.h", "source/accumulator_2d.h", "source/query.h"],
  [("rewind between queries", "source/query_heap_clean.h"), ("dirty-page flags", "source/accumulator_2d.h")])

p("P06", "An index written to disk and read back holds exactly the collection",
  "Indexing any sequence of documents, writing the index in either format with any supported postings codec, and reading it back yields exactly the collection: the same vocabulary, for each term exactly the documents containing it each once, each with the impact computed for it, and the primary keys in document order. Terms never indexed are reported as absent.",
  ["inputs", "configurations", "programs"], "every document sequence, term distribution, index format, codec and delta distance",
  "The unit tests serialise one ten-document collection; vocabulary ordering, delta boundaries, list lengths, tf saturation and codec combinations are sampled at a single point.",
  ["source/index_manager_sequential.h", "source/index_postings.h", "source/index_postings_impact.h", "source/serialise_jass_v1.cpp", "source/serialise_jass_v2.cpp", "source/deserialised_jass_v1.cpp", "source/deserialised_jass_v2.cpp", "source/hash_table.h", "source/binary_tree.h", "source/dynamic_array.h", "source/quantize.h"],
  [("postings accumulation", "source/index_postings.h"), ("impact ordering", "source/index_postings_impact.h"), ("writers", "source/serialise_jass_v1.cpp, source/serialise_jass_v2.cpp"), ("readers", "source/deserialised_jass_v1.cpp, source/deserialised_jass_v2.cpp")])

p("P07", "Quantisation is monotone, in range and uses the full range",
  "Quantised impacts always lie in the index's impact range, the posting with the collection's smallest ranking score gets the smallest impact and the one with the largest gets the largest, and a posting with a larger ranking score never gets a smaller impact than one with a smaller score. Ranking scores are those of the documented BM25 formula for the posting's term frequency, the document's length, and the collection statistics. Without quantisation, term frequencies pass through unchanged.",
  ["inputs"], "every collection, ranking parameters and score distribution",
  "One small fixed collection is checked, by final string comparison only.",
  ["source/quantize.h", "source/quantize_none.h", "source/ranking_function_atire_bm25.h", "source/ranking_function_none.h", "source/index_manager_sequential.h"],
  [("min/max pass then linear map", "source/quantize.h"), ("BM25", "source/ranking_function_atire_bm25.h")])

p("P08", "Every integer codec decodes exactly what it encoded",
  "For every integer codec and every sequence of integers in the codec's domain, decoding the encoded bytes gives back the sequence exactly, for every sequence length; a codec that cannot represent a sequence says so by returning zero rather than producing bytes that decode to something else. Delta coding at any distance and undoing it is the identity, in place or not.",
  ["inputs"], "every codec, length, and arrangement of integer magnitudes",
  "Tests use a few hand-picked sequences and constant runs of 1024; packing decisions depend on the arrangement of bit widths and the position of block ends.",
  ["source/compress_integer_all.cpp", "source/compress_integer.h", "source/compress_integer_elias_gamma_simd_vb.cpp", "source/compress_integer_qmx_jass_v1.cpp", "source/compress_integer_bitpack.cpp", "source/compress_integer_simple_8b_packed.cpp", "source/compress_integer_carryover_12.cpp"],
  [("codec encode/decode pairs", "source/compress_integer_*.cpp")])

p("P09", "Integer encoders respect the output buffer they are given",
  "Encoding into a buffer of any size either returns zero or returns a byte count no larger than the buffer and leaves bytes that decode to the input, and in both cases writes nothing outside the buffer. A buffer that is large enough for the result it reports with an ample buffer plus the codec's documented slack is never refused.",
  ["inputs", "configurations"], "every codec, sequence and buffer size",
  "The tests call encoders with one generous and a few one-byte buffers.",
  ["source/compress_integer_all.cpp", "source/compress_integer_variable_byte.cpp", "source/compress_integer_simple_9.cpp", "source/compress_integer_elias_gamma_simd.cpp", "source/bitstream.h"],
  [("overflow tests in encode", "source/compress_integer_*.cpp")])

p("P10", "Top-k containers keep and order the k best of whatever they were given",
  "For every sequence of insertions, removals of the smallest, promotions and searches, each of the heap-ordered top-k containers holds exactly the largest k elements it was given, keeps its order invariant, reports an element as present exactly when it is, and yields its contents in sorted order. The partial sort leaves the k largest elements of any array at its front in descending order and the array a permutation of what it was.",
  ["histories", "inputs"], "every operation sequence and array, with duplicates, for every k",
  "Tests run one fixed sequence per structure.",
  ["source/heap.h", "source/beap.h", "source/top_k_heap.h", "source/top_k_qsort.h", "source/top_k_qsort.cpp", "source/pointer_box.h"],
  [("heap promotion", "source/heap.h"), ("bi-parental heap", "source/beap.h"), ("top-k quicksort", "source/top_k_qsort.h")])

p("P11", "Accumulator tables behave as arrays of zeros after every rewind",
  "Each accumulator table behaves, for every sequence of initialisations, rewinds, additions and reads, exactly as a plain array that each rewind sets to all zeros, for every number of accumulators, row width and element type. Looking up an accumulator's index from its address gives the index it was obtained with.",
  ["histories", "configurations"], "every operation sequence, table size and row width; arbitrarily many rewinds",
  "Tests perform a single short sequence; lazy clearing errors need particular sequences (for instance 255 rewinds, or a partly filled last row).",
  ["source/accumulator_2d.h", "source/accumulator_counter.h", "source/accumulator_counter_interleaved.h"],
  [("dirty flags", "source/accumulator_2d.h"), ("generation counters and wrap-around", "source/accumulator_counter.h, source/accumulator_counter_interleaved.h")])

p("P12", "All query-processing back ends give the same correct ranking",
  "For every sequence of score contributions over several queries, each of the interchangeable query processors yields the k best-scoring documents best first with equal scores ordered the same way, equal to the ranking computed from plain sums. The result may be iterated forwards and backwards, repeatedly, with consistent contents.",
  ["histories", "inputs", "configurations"], "every sequence of contributions, k, document count and back end",
  "Each back end is unit-tested with the same five additions.",
  ["source/query_heap.h", "source/query_heap_clean.h", "source/query_bucket.h", "source/query_maxblock.h", "source/query_maxblock_heap.h"],
  [("incremental top-k maintenance", "source/query_heap.h, source/query_heap_clean.h"), ("block maxima", "source/query_maxblock.h, source/query_maxblock_heap.h"), ("score buckets", "source/query_bucket.h")])

p("P13", "Concurrent allocations never overlap and are always aligned",
  "Under every interleaving of threads allocating from one shared memory arena, every allocation that succeeds is inside memory the arena owns, aligned as requested, and disjoint from every other live allocation; bookkeeping totals account for every byte handed out. A growable arena never fails or hangs while the system has memory, and a fixed-size arena fails only when the request does not fit.",
  ["schedules", "histories", "fault_sequences"], "every interleaving and every sequence of sizes and alignments, including failures of the underlying allocator",
  "The unit tests allocate from one thread.",
  ["source/allocator_pool.cpp", "source/allocator_pool.h", "source/allocator_memory.cpp", "source/allocator_memory.h", "source/allocator.h"],
  [("compare-and-swap bump pointer and chunk list", "source/allocator_pool.cpp"), ("compare-and-swap bump offset", "source/allocator_memory.cpp")])

p("P14", "Concurrent appends to a shared growable array are never lost",
  "Under every interleaving of threads appending to one shared growable array, once they have finished every appended element is present exactly once, elements appended by one thread keep their order, and iterating, indexing and serialising agree with each other. Used from one thread, the array equals the sequence of elements appended.",
  ["schedules", "histories"], "every interleaving of appends, every initial size and growth factor",
  "The unit test appends from one thread.",
  ["source/dynamic_array.h"], [("slot claim and node chaining by compare-and-swap", "source/dynamic_array.h")])

p("P15", "Concurrent inserts into the shared dictionary lose and duplicate nothing",
  "Under every interleaving of threads inserting into one shared dictionary (hash table or binary tree), inserting or looking up a key gives every thread the same element for that key, distinct keys get distinct elements, no key is lost, and none appears twice. Afterwards iteration reports each key exactly once with its element, the tree in key order.",
  ["schedules", "histories"], "every interleaving and sequence of inserts and lookups over every key set",
  "The unit test exercises a single thread and a small fixed key set.",
  ["source/binary_tree.h", "source/hash_table.h", "source/hash_pearson.cpp", "source/hash_pearson.h"],
  [("compare-and-swap insertion", "source/binary_tree.h"), ("bucket creation by compare-and-swap", "source/hash_table.h")])

p("P16", "Documents read from a stream do not depend on how it arrives",
  "For every input stream, the sequence of documents (contents and primary key) produced by each document reader is that of the stream's text alone: it is the same for every way the bytes are split into reads and for every internal buffer size that can hold a document, every document of the stream appears once and in order, and after the last one the reader reports the end and keeps doing so. Reading files, memory, directories and decompressed streams in pieces of any size gives the same bytes as reading them whole.",
  ["inputs", "configurations", "histories"], "every stream, every split into reads and every buffer size",
  "Tests use one in-memory example in a buffer that holds all of it.",
  ["source/instream_document_trec.cpp", "source/instream_document_warc.cpp", "source/instream_document_fasta.cpp", "source/instream_document_unicoil_json.cpp", "source/instream_deflate.cpp", "source/instream_file.cpp", "source/instream_memory.cpp", "source/instream_directory_iterator.cpp", "source/instream.h"],
  [("buffer refill and marker search", "source/instream_document_trec.cpp"), ("inflate loop", "source/instream_deflate.cpp")])

p("P17", "Tokenising a document is exact and stays inside the document",
  "For every document, the tokeniser yields exactly the document's tokens in order: maximal runs of alphabetic characters and of digits, case folded, XML markup recognised as such, and other characters singly, then end of input for ever. It always terminates, and neither reads nor lets a token depend on anything outside the document's bytes; over-long tokens are truncated, not overrun.",
  ["inputs"], "every byte string, including malformed UTF-8 and unterminated markup, whatever follows it in memory",
  "Tests cover three hand-written strings.",
  ["source/parser.cpp", "source/parser.h", "source/parser_fasta.cpp", "source/parser_unicoil_json.h", "source/unicode.h", "source/ascii.h"],
  [("token scanners", "source/parser.cpp"), ("k-mer scanner", "source/parser_fasta.cpp"), ("JSON term/weight scanner", "source/parser_unicoil_json.h")])

p("P18", "Queries are tokenised the way documents are",
  "Parsing any query gives the distinct case-folded words and numbers in it, each with the number of times it occurs, sorted by length then bytes, and in raw mode the distinct space-separated strings unchanged. A word or number of a document, used as a query, always gives the very term under which the document was indexed.",
  ["inputs", "histories"], "every query string and every document word, including malformed UTF-8; parser reused any number of times",
  "Tests cover ten short queries; agreement with the document tokeniser is not tested at all.",
  ["source/parser_query.cpp", "source/parser_query.h", "source/query_term_list.h", "source/query_term.h", "source/parser.cpp"],
  [("query tokeniser", "source/parser_query.cpp"), ("sort and merge duplicates", "source/query_term_list.h")])

p("P19", "Character classes and UTF-8 conversion match the Unicode database",
  "For every Unicode code point, each character class and the case-folded normal form agree with the Unicode character database shipped with the source, with letters, marks and digits folded to the same base characters wherever they occur. Encoding any code point as UTF-8 and decoding it is the identity, no well-formed sequence is refused, no malformed or truncated one is accepted, and neither conversion touches bytes outside its buffer.",
  ["inputs"], "every code point and every byte sequence up to the longest encoding",
  "Tests check the first 128 code points and six sequences.",
  ["tools/unicode_database_to_c.cpp", "tools/ascii_database_to_c.cpp", "source/unicode.h", "source/ascii.h"],
  [("table generator", "tools/unicode_database_to_c.cpp"), ("UTF-8 codec", "source/unicode.h")])

p("P20", "Evaluation measures equal their definitions on every ranking",
  "For every set of relevance judgements, prices, ranking and depth, each evaluation measure (precision, recall, F, average precision, reciprocal rank and its k-variant, rank-biased precision, expected search length, number relevant returned, and the price-based measures) equals its textbook definition. Reading judgements from a file gives exactly the judgements written in it, in any order and spacing, and the evaluation program reports those measures under their own names.",
  ["inputs", "configurations"], "every judgement set, ranking, price list, depth and parameter",
  "Each measure is tested on one five-document ranking.",
  ["source/evaluate.h", "source/evaluate.cpp", "source/evaluate_map.cpp", "source/evaluate_precision.cpp", "source/evaluate_recall.cpp", "source/evaluate_f.cpp", "source/evaluate_rank_biased_precision.cpp", "source/evaluate_mean_reciprocal_rank4k.cpp", "source/evaluate_buying_power.cpp", "source/evaluate_selling_power.cpp", "tools/JASS_eval.cpp"],
  [("measures", "source/evaluate_*.cpp"), ("reporting", "tools/JASS_eval.cpp")])

p("P21", "Indexing and searching from the command line agree with the collection",
  "Indexing any collection with the indexing program, with any of its document formats, index formats and thread-independent options, and searching it with the search program yields for every query the documents that contain its terms, ranked by the index's impacts, written as one well-formed result line each with ranks counting up from one and scores not increasing. Every document of the collection is indexed once under its own primary key.",
  ["inputs", "configurations", "programs"], "every collection, document format, index option, query list, thread count and result depth",
  "No existing test runs the programs.",
  ["tools/JASS_index.cpp", "anytime/JASS_anytime.cpp", "anytime/JASS_anytime_api.cpp", "source/run_export_trec.h", "source/run_export.h", "source/channel_file.cpp"],
  [("indexing pipeline", "tools/JASS_index.cpp"), ("search driver", "anytime/JASS_anytime.cpp"), ("result lines", "source/run_export_trec.h")])

p("P22", "The English stemmer implements the Porter algorithm",
  "For every lower-case word, the stemmer returns the stem defined by Porter's published algorithm, never longer than the word, and never writes outside the caller's buffers. Words of fewer than three letters are returned unchanged.",
  ["inputs"], "every word over the alphabet",
  "The unit test checks a sample vocabulary only.",
  ["source/stem_porter.cpp", "source/stem_porter.h", "source/stem.h"], [("rule steps", "source/stem_porter.cpp")])

p("P23", "General compression round-trips and reports overflow",
  "For each general-purpose compressor and every byte string, decompressing what was compressed gives back the string exactly, and compressing or decompressing into a buffer that is too small reports failure and writes nothing outside the buffer.",
  ["inputs", "configurations"], "every byte string and every buffer size",
  "The tests compress one string; one of the compressors is never run by them.",
  ["source/compress_general_zlib.cpp", "source/compress_general_zstd.cpp", "source/compress_general.h"],
  [("wrappers", "source/compress_general_zlib.cpp, source/compress_general_zstd.cpp")])

p("P24", "Buffered file output is exactly what was written, in order",
  "After any sequence of writes of any sizes to a file or output channel and closing it, the file holds exactly the concatenation of what was written, and the position reported at any moment is the number of bytes written so far. Reading a file whole, by lines, or through a memory-mapped view gives exactly its bytes, and failure to open, read or write is reported to the caller.",
  ["histories", "inputs", "fault_sequences"], "every sequence of writes, every read size, every internal-buffer boundary, and every single failing system call",
  "Tests write one short string and read it back; buffer boundaries and failures are not reached.",
  ["source/file.cpp", "source/file.h", "source/channel_file.cpp", "source/channel_buffer.cpp", "source/channel_trec.cpp", "source/channel.h"],
  [("write buffering and flush", "source/file.h, source/file.cpp"), ("channel input by block, line and separator", "source/channel_file.cpp")])

p("P25", "A failed index load is reported and leaves a usable object",
  "Loading an index any of whose files is missing or unreadable reports an error and leaves the search object as if nothing had been loaded: searching reports that no index is loaded, and a later load of a good index succeeds and searches correctly. Asking for an unknown index format, loading twice, and setting values out of range are reported as errors and change nothing.",
  ["fault_sequences", "histories"], "every subset of missing files, every order of loads, searches and settings",
  "Only the success path is tested.",
  ["anytime/JASS_anytime_api.cpp", "source/deserialised_jass_v1.cpp", "source/deserialised_jass_v2.cpp", "source/file.cpp"],
  [("load_index error handling", "anytime/JASS_anytime_api.cpp")])

p("P26", "Importing a common index file preserves the index it describes",
  "Reading an index in the common interchange format yields exactly its header, postings lists and document records, for every well-formed file, and converting it gives an index whose postings, impacts, primary keys and document lengths are those of the file. Variable-length integers and fixed-width fields of every value are decoded exactly.",
  ["inputs", "configurations"], "every well-formed interchange file and conversion option",
  "The importer has no tests.",
  ["tools/ciff_lin.h", "tools/protobuf.h", "tools/ciff_to_JASS.cpp", "source/index_manager_sequential.h"],
  [("wire-format reader", "tools/protobuf.h"), ("record iterators", "tools/ciff_lin.h"), ("conversion", "tools/ciff_to_JASS.cpp")])

p("P27", "Bit strings and bit streams are exact sequences of bits",
  "For every sequence of operations, a bit string behaves as a finite set of positions: setting, clearing, testing, counting, finding the n-th member, union, intersection, difference and symmetric difference are exact for every length. Reading back a bit stream gives exactly the bits written, and running out of space is reported.",
  ["histories", "inputs"], "every operation sequence and length",
  "Tests use one or two fixed bit patterns.",
  ["source/bitstring.cpp", "source/bitstring.h", "source/bitstream.h"], [("word-parallel operations", "source/bitstring.cpp"), ("bit packing", "source/bitstream.h")])

p("P28", "Command-line options are parsed exactly or rejected",
  "For every argument list over a set of declared options, parsing either succeeds having set exactly the variables of the options given, to the values given, whether an option is written short or long, joined or separated from its value, or fails with a message naming the problem. Nothing is read beyond the argument list and parameters not mentioned keep their values.",
  ["inputs", "configurations"], "every argument list over every mix of option types",
  "The test parses two fixed argument lists.",
  ["source/commandline.h"], [("recursive option matcher", "source/commandline.h")])

p("P29", "Exports of an index in other forms are faithful",
  "Writing an index as a forward index, as plain integer lists, or as source code gives exactly the same postings, in the documented layout: every posting of every term appears exactly once with its own document and impact. The same collection gives the same file on every run.",
  ["inputs", "programs"], "every collection",
  "Tests export one ten-document collection and compare checksums.",
  ["source/serialise_integers.cpp", "source/serialise_forward_index.cpp", "source/serialise_ci.cpp", "source/index_postings.h"],
  [("exporters", "source/serialise_integers.cpp, source/serialise_forward_index.cpp, source/serialise_ci.cpp")])

p("P30", "Tokenisers of special formats yield exactly their tokens",
  "Tokenising a FASTA sequence gives the tokens of its header and then every k-mer of every maximal run of DNA bases, in order and once each, ignoring white space and never spanning any other character; tokenising a uniCOIL vector gives every term with its weight (at most the largest impact) and nothing for weights of zero. No document is read outside its bytes, no token exceeds its buffer, and after the last token the tokeniser reports the end.",
  ["inputs", "configurations"], "every document and every k-mer length",
  "Tests tokenise one sequence of 30 bases and one vector of two terms.",
  ["source/parser_fasta.cpp", "source/parser_fasta.h", "source/parser_unicoil_json.h"],
  [("k-mer window", "source/parser_fasta.cpp"), ("term and weight scanner", "source/parser_unicoil_json.h")])

p("P31", "The arithmetic, ordering, hashing and statistical primitives are exact",
  "For every value, the logarithms, square root and lowest set bit of an integer, and the larger and smaller of values, are what their definitions say. Slices of bytes order by length then content, a total order that agrees with equality, and their copies are exact and independent. Vector gather, scatter, running-sum and bit-count operations equal the element-by-element computation for every choice of lanes. Hashes depend on content alone and stay in range, checksums are the published Fletcher sums, and correlations, ranks and t-tests equal their definitions.",
  ["inputs", "programs"], "every integer, byte string, choice of lanes and sample",
  "Unit tests check a handful of values of each.",
  ["source/maths.h", "source/slice.h", "source/simd.h", "source/hash_pearson.h", "source/checksum.cpp", "source/statistics.cpp", "source/pointer_box.h", "source/reverse.h", "source/allocator_cpp.h"],
  [("bit tricks and roots", "source/maths.h"), ("vector registers", "source/simd.h"), ("string order and copies", "source/slice.h"), ("distribution functions", "source/statistics.cpp")])

p("P32", "A compiled index answers queries as the collection it was compiled from",
  "The search program of an index compiled into source code prints, for each query, exactly the documents with the highest sums of the impacts of the query's terms, best first, under the query's own number, for every collection and every list of queries; terms that are not in the dictionary add nothing. A run file lists the given ranking in order, with its query, document names, ranks and scores.",
  ["inputs", "histories"], "every collection, dictionary and list of queries",
  "The compiled index has no tests; the run-file test checks one ranking.",
  ["compiled_index/JASS_compiled_index.cpp", "compiled_index/JASS_vocabulary.h", "source/run_export.h", "source/run_export_trec.h", "source/query_heap.h"],
  [("search loop and output", "compiled_index/JASS_compiled_index.cpp"), ("run format", "source/run_export_trec.h")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

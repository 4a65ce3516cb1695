From 28dd285c023bf9b4a6afccb121a85e2c3999a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 01/96] fix: Carry-8b refused short sequences and decoded
 4x15-bit words wrongly

---
 source/compress_integer_carry_8b.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/compress_integer_carry_8b.cpp b/source/compress_integer_carry_8b.cpp
index 92533bb..7497ce7 100644
--- a/source/compress_integer_carry_8b.cpp
+++ b/source/compress_integer_carry_8b.cpp
@@ -232,9 +232,15 @@ printf("Selector:%d (%d x %d-bits)\n", (int)(base + selector), (int)integers_to_
 		destination++;
 
 		/*
-			Now pack according to the selector table
+			A sequence that fits entirely in the first word - but a lone integer larger than 28 bits is treated as overflow.
 		*/
-		do
+		if (used == source_integers && largest >= 1 << 28)
+			return 0;
+
+		/*
+			Now pack the remainder according to the selector table
+		*/
+		while (used < source_integers)
 			{
 			/*
 				Make sure we fit in the output buffer
@@ -258,7 +264,6 @@ printf("Selector:%d (%d x %d-bits)\n", (int)(base + selector), (int)integers_to_
 			used += took;
 			destination++;
 			}
-		while (used < source_integers);
 
 		return reinterpret_cast<uint8_t *>(destination) - reinterpret_cast<uint8_t *>(encoded);
 		}
@@ -566,7 +571,7 @@ printf("[%d] Decode:%d\n", (int)(destination - destination_at_start), (int)(sele
 					*(destination + 0) = payload >> 0 & 0x7FFF;
 					*(destination + 1) = payload >> 15 & 0x7FFF;
 					*(destination + 2) = payload >> 30 & 0x7FFF;
-					*(destination + 3) = payload >> 15 & 0x7FFF;
+					*(destination + 3) = payload >> 45 & 0x7FFF;
 					destination += 4;
 
 					source++;
-- 
2.43.0


From f4ad94fd670b97a108ceaff4eed78370348984f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 02/96] fix: Carryover-12 truncated 30-bit integers on decode

---
 source/compress_integer_carryover_12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carryover_12.cpp b/source/compress_integer_carryover_12.cpp
index ed7b2c4..01dd3ad 100644
--- a/source/compress_integer_carryover_12.cpp
+++ b/source/compress_integer_carryover_12.cpp
@@ -575,7 +575,7 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 					payload = *source >> 2;
 					break;
 				case 23:
-					*(destination + 0) = payload >> 0 & 0x0FFFFFFF;
+					*(destination + 0) = payload >> 0 & 0x3FFFFFFF;
 					destination++;
 
 #ifdef CARRY_DEBUG
-- 
2.43.0


From b207b16d198e2910a83897f377e1be1572a62ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 03/96] fix: QMX zero-padding could overrun its padding buffer

---
 source/compress_integer_qmx_improved.h   | 2 +-
 source/compress_integer_qmx_original.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_qmx_improved.h b/source/compress_integer_qmx_improved.h
index 5319aa4..6c6fc6b 100644
--- a/source/compress_integer_qmx_improved.h
+++ b/source/compress_integer_qmx_improved.h
@@ -73,7 +73,7 @@ namespace JASS
 			compress_integer_qmx_improved() :
 				length_buffer(nullptr),
 				length_buffer_length(0),
-				full_length_buffer(new uint32_t [256 * 16])
+				full_length_buffer(new uint32_t [256 * 17])			// a full batch, and room to 0-pad its final (partial) codeword
 				{
 				/* Nothing */
 				}
diff --git a/source/compress_integer_qmx_original.cpp b/source/compress_integer_qmx_original.cpp
index bbc0c07..be5a6f1 100644
--- a/source/compress_integer_qmx_original.cpp
+++ b/source/compress_integer_qmx_original.cpp
@@ -40,7 +40,7 @@ namespace JASS
 		{
 		length_buffer = NULL;
 		length_buffer_length = 0;
-		full_length_buffer = new uint32_t [256 * 16];
+		full_length_buffer = new uint32_t [256 * 17];		// a full batch, and room to 0-pad its final (partial) codeword
 		}
 
 	/*
-- 
2.43.0


From d5a6488e882f6ec9ccd3da3292a2dcd9e08f215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 04/96] fix: Relative-10 decoded the fourth 3-bit integer from
 the wrong shift

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2d67112..2943b2a 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -243,7 +243,7 @@ namespace JASS
 						*destination++ = value & 0x7;
 						*destination++ = (value >> 3) & 0x7;
 						*destination++ = (value >> 6) & 0x7;
-						*destination++ = (value >> 8) & 0x7;
+						*destination++ = (value >> 9) & 0x7;
 						*destination++ = (value >> 12) & 0x7;
 						*destination++ = (value >> 15) & 0x7;
 						*destination++ = (value >> 18) & 0x7;
-- 
2.43.0


From 3ef84e6831feec571321b9771d0da674095b636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 05/96] fix: packed Simple-9 and Simple-16 truncated a final
 integer of 28 bits or more

---
 source/compress_integer_simple_16_packed.cpp | 4 +++-
 source/compress_integer_simple_9_packed.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 7bb0fde..67e6ff6 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28)
 				return 0;
 
 			/*
@@ -159,6 +159,8 @@ namespace JASS
 			Init last value to pack-by-self
 		*/
 		pos = source_integers - 1;
+		if (source[pos] >= 1 << 28)
+			return 0;				// LCOV_EXCL_LINE
 		blocks_needed[pos] = 0;
 		masks[pos] = 15;
 		
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index c984ffd..d990311 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -125,7 +125,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28)
 				return 0;
 				
 			/*
@@ -152,6 +152,8 @@ namespace JASS
 			init last value to pack-by-self
 		*/
 		pos = source_integers - 1;
+		if (source[pos] >= 1 << 28)
+			return 0;				// LCOV_EXCL_LINE
 		blocks_needed[pos] = 0;
 		masks[pos] = 8;
 		
-- 
2.43.0


From 6d3ea10124d3476fbcd11271dd903d392b8d52cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 06/96] fix: Lyck-16 truncated sequences of mixed widths

---
 source/compress_integer_lyck_16.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/compress_integer_lyck_16.cpp b/source/compress_integer_lyck_16.cpp
index ef9c462..73a09cd 100644
--- a/source/compress_integer_lyck_16.cpp
+++ b/source/compress_integer_lyck_16.cpp
@@ -34,7 +34,7 @@ namespace JASS
 				return 0;
 
 			uint32_t integers_to_encode;
-			size_t cumulative = 0;
+			size_t widest = 0;
 			uint32_t ending = source_integers > 16 ? 16 : (uint32_t)source_integers;
 			for (integers_to_encode = 0; integers_to_encode < ending; integers_to_encode++)
 				{
@@ -48,8 +48,8 @@ namespace JASS
 				/*
 					Check to see if we still fit in the current word
 				*/
-				cumulative += bits;
-				if (cumulative > 16)
+				widest = bits > widest ? bits : widest;
+				if (widest * (integers_to_encode + 1) > 16)
 					break;
 				}
 
-- 
2.43.0


From 6e7c52f045cc3325c365895933f8624bbc18132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 07/96] fix: Elias delta and gamma check the output buffer
 before writing each codeword

---
 source/compress_integer_elias_delta.cpp | 6 ++++++
 source/compress_integer_elias_gamma.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/source/compress_integer_elias_delta.cpp b/source/compress_integer_elias_delta.cpp
index 9a5f799..ce32d92 100644
--- a/source/compress_integer_elias_delta.cpp
+++ b/source/compress_integer_elias_delta.cpp
@@ -41,6 +41,12 @@ namespace JASS
 			*/
 			uint32_t unary = maths::floor_log2(n);
 
+			/*
+				Make sure we fit in the output buffer (we write in 64-bit words)
+			*/
+			if ((into + unary + unary + 1) / 8 + sizeof(uint64_t) > encoded_buffer_length)
+				return 0;
+
 
 			/*
 				Write unary numner of 0-bits (no write necessary as the bits are already 0).
diff --git a/source/compress_integer_elias_gamma.cpp b/source/compress_integer_elias_gamma.cpp
index 51c3758..9eb09fa 100644
--- a/source/compress_integer_elias_gamma.cpp
+++ b/source/compress_integer_elias_gamma.cpp
@@ -36,6 +36,12 @@ namespace JASS
 			*/
 			uint32_t n = maths::floor_log2(*value);
 
+			/*
+				Make sure we fit in the output buffer (we write in 64-bit words)
+			*/
+			if ((into + n) / 8 + sizeof(uint64_t) > encoded_buffer_length)
+				return 0;
+
 			/*
 				Write n 0-bits (no write necessary as the bits are already 0).
 			*/
-- 
2.43.0


From f036529f36a9e1c6ff0d0739456f0b3ad11bf351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 08/96] fix: Elias delta/gamma SIMD encoders do not write
 outside the output buffer

---
 source/compress_integer_elias_delta_simd.cpp    | 4 ++--
 source/compress_integer_elias_gamma_simd_vb.cpp | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/compress_integer_elias_delta_simd.cpp b/source/compress_integer_elias_delta_simd.cpp
index 4b14046..60337cb 100644
--- a/source/compress_integer_elias_delta_simd.cpp
+++ b/source/compress_integer_elias_delta_simd.cpp
@@ -18,6 +18,7 @@
 
 #define WORD_WIDTH 32
 #define WORDS (512 / WORD_WIDTH)
+#define SELECTOR_WORDS 11		// a block holds at most 32 columns, each with an 11-bit (or shorter) selector
 
 namespace JASS
 	{
@@ -102,7 +103,6 @@ namespace JASS
 		uint64_t accumulated_selector = 0;
 
 		uint32_t *destination = reinterpret_cast<uint32_t *>(encoded);
-		uint32_t *end_of_destination = (uint32_t *)((uint8_t *)encoded + encoded_buffer_length);
 		uint32_t carryover = 0;
 		uint32_t actual_max_width = 0;
 
@@ -125,7 +125,7 @@ namespace JASS
 			/*
 				Check for overflow of the output buffer
 			*/
-			if (destination > end_of_destination)
+			if (destination + WORDS + SELECTOR_WORDS > selector)
 				return 0;
 
 			/*
diff --git a/source/compress_integer_elias_gamma_simd_vb.cpp b/source/compress_integer_elias_gamma_simd_vb.cpp
index 6769573..e1d5ff0 100755
--- a/source/compress_integer_elias_gamma_simd_vb.cpp
+++ b/source/compress_integer_elias_gamma_simd_vb.cpp
@@ -58,6 +58,8 @@ namespace JASS
 		/*
 			Store the length of the variable byte part
 		*/
+		if (encoded_buffer_length < sizeof(*destination))
+			return 0;
 		*destination++ = 0;			// store as a 4-byte integer to start with (variable byte encode it later)
 		while (1)
 			{
@@ -155,7 +157,7 @@ namespace JASS
 							if (vbyte_size < elias_size)
 								{
 								// re-code the codeword
-								vbyte_size = compress_integer_variable_byte::encode(selector, end_of_destination - selector, array_at_start_of_codeword, elements_at_start_of_codeword);
+								vbyte_size = compress_integer_variable_byte::encode(selector, (uint8_t *)end_of_destination - (uint8_t *)selector, array_at_start_of_codeword, elements_at_start_of_codeword);
 								destination = selector;
 								}
 							else
@@ -167,8 +169,11 @@ namespace JASS
 								encodings[slice - 1] += encodings[slice];
 								encodings[slice] = 0;
 								*selector = compute_selector(encodings);
-								vbyte_size = compress_integer_variable_byte::encode(destination, end_of_destination - selector, array, elements);
+								vbyte_size = compress_integer_variable_byte::encode(destination, (uint8_t *)end_of_destination - (uint8_t *)destination, array, elements);
 								}
+							if (vbyte_size == 0 && elements_at_start_of_codeword != 0)
+								return 0;			// the variable byte part did not fit in the output buffer
+
 							uint32_t *vb_length_locaton = (uint32_t *)encoded;
 							*vb_length_locaton = vbyte_size;
 
-- 
2.43.0


From 8e73d7a010062160f44258612bc1d3ab6932b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 09/96] fix: Relative-10 and packed Simple-9/16/8b do not write
 a word that only partly fits

---
 source/compress_integer_relative_10.cpp      | 2 +-
 source/compress_integer_simple_16_packed.cpp | 2 ++
 source/compress_integer_simple_8b_packed.cpp | 2 ++
 source/compress_integer_simple_9_packed.cpp  | 2 ++
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2943b2a..4fff96e 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -127,7 +127,7 @@ namespace JASS
 		*/
 		for (words_in_compressed_string = 1; pos < source_integers; words_in_compressed_string++)  //outer loop: loops thru' all the elements in source[]
 			{
-			if (into >= end)
+			if (into + 1 > end)
 				return 0;
 			needed = 0;
 			for (term = 0; term < 30 && pos + term < source_integers; term++)
diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 67e6ff6..a180efa 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -134,6 +134,8 @@ namespace JASS
 			*/
 			if (*source >= 1 << 28)
 				return 0;
+			if (into + 1 > end)
+				return 0;
 
 			/*
 				Choose largest bits-per-integer mask, single integer => '15'
diff --git a/source/compress_integer_simple_8b_packed.cpp b/source/compress_integer_simple_8b_packed.cpp
index f535d73..9cea138 100644
--- a/source/compress_integer_simple_8b_packed.cpp
+++ b/source/compress_integer_simple_8b_packed.cpp
@@ -156,6 +156,8 @@ namespace JASS
 			/* coverity[CONSTANT_EXPRESSION_RESULT] */
 			if (static_cast<uint64_t>(*source) > (1ULL << 60))
 				return 0;
+			if (into + 1 > end)
+				return 0;
 
 			/*
 				Choose largest bits-per-integer mask, single integer => '15'
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index d990311..fd2f6b9 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -127,6 +127,8 @@ namespace JASS
 			*/
 			if (*source >= 1 << 28)
 				return 0;
+			if (into + 1 > end)
+				return 0;
 				
 			/*
 				choose largest bits-per-integer mask, single integer => '8'
-- 
2.43.0


From 9d14882ca471c250ed13ba0685ea4a755e8e4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 10/96] fix: Stream VByte encoder honours the output buffer
 length

---
 source/compress_integer_stream_vbyte.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/compress_integer_stream_vbyte.cpp b/source/compress_integer_stream_vbyte.cpp
index b66ffbf..8c1a262 100644
--- a/source/compress_integer_stream_vbyte.cpp
+++ b/source/compress_integer_stream_vbyte.cpp
@@ -30,6 +30,15 @@ namespace JASS
 	*/
 	size_t compress_integer_stream_vbyte::encode(void *encoded_as_void, size_t encoded_buffer_length, const integer *source, size_t source_integers)
 		{
+		/*
+			Make sure we fit in the output buffer.  The encoder writes 16 bytes at a time so there might be up to 16 bytes of slop.
+		*/
+		size_t needed = (source_integers + 3) / 4 + sizeof(__m128i);
+		for (size_t which = 0; which < source_integers; which++)
+			needed += source[which] < (1U << 8) ? 1 : source[which] < (1U << 16) ? 2 : source[which] < (1U << 24) ? 3 : 4;
+		if (needed > encoded_buffer_length)
+			return 0;
+
 		return streamvbyte::streamvbyte_encode(const_cast<integer *>(source), static_cast<uint32_t>(source_integers), static_cast<uint8_t *>(encoded_as_void));
 		}
 
-- 
2.43.0


From 2c57f2ed96cadeb29cff702ca54678893949df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 11/96] hook: JASS_VERIFY_MAX_DOCUMENTS sets the size of the
 accumulator tables

---
 source/query.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/query.h b/source/query.h
index d05e019..7dadafd 100755
--- a/source/query.h
+++ b/source/query.h
@@ -132,7 +132,11 @@ namespace JASS
 			typedef uint32_t DOCID_TYPE;										///< the type of a document id (from a compressor)
 
 		public:
+#ifdef JASS_VERIFY_MAX_DOCUMENTS
+			static constexpr size_t MAX_DOCUMENTS = JASS_VERIFY_MAX_DOCUMENTS;			///< Small tables, for verification harnesses
+#else
 			static constexpr size_t MAX_DOCUMENTS = 155000000;					///< the maximum number of documents an index can hold
+#endif
 			static constexpr size_t MAX_TOP_K = 1000;							///< the maximum top-k value
 			static constexpr size_t MAX_RSV = (std::numeric_limits<ACCUMULATOR_TYPE>::max)();
 
-- 
2.43.0


From 0db84f85e3cc23d8ebae9375230b03e99cfd9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:30 +0000
Subject: [PATCH 12/96] fix: searching for an empty string dereferenced the end
 of an empty results list

---
 anytime/JASS_anytime_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 8b18ae7..520ef27 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -365,6 +365,9 @@ JASS_anytime_result JASS_anytime_api::search(const std::string &query)
 	query_list.push_back(query);
 	anytime(output, query_list, 0);
 
+	if (output.results.empty())
+		return JASS_anytime_result();			// an empty query has no results
+
 	return output.results.begin()->second;
 	}
 
-- 
2.43.0


From 4f4d65841a849b480bb906564bba05499a1fff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 13/96] fix: oracle scores too large for an accumulator wrapped
 around and lost results

---
 anytime/JASS_anytime_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 520ef27..0115ab0 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -564,7 +564,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 			*/
 			smallest_possible_rsv = smallest_possible_rsv == 0 ? 1 : smallest_possible_rsv;
 			}
-		rsv_at_k = rsv_at_k == 0 ? 1 : rsv_at_k;			// rsv_at_k cannot be 0 (because at least one search term must be in the document)
+		rsv_at_k = (rsv_at_k == 0 || rsv_at_k > JASS::query::MAX_RSV) ? 1 : rsv_at_k;			// rsv_at_k cannot be 0 (because at least one search term must be in the document), and scores too large for an accumulator cannot be reached
 
 		local.jass_query->rewind(smallest_possible_rsv, rsv_at_k, largest_possible_rsv);
 //std::cout << "MAXRSV:" << largest_possible_rsv << " MINRSV:" << smallest_possible_rsv << "\n";
-- 
2.43.0


From 8620464d5d9bf9b07bb56999fb11d0b2c9658ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 14/96] fix: the relative postings budget of one query leaked
 into later queries and other threads

---
 anytime/JASS_anytime_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 0115ab0..e3922f1 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -572,6 +572,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		/*
 			Check to see if we've got a rho stopping condition relative to the number of postings in this query.
 		*/
+		size_t postings_to_process = this->postings_to_process;			// the budget for this query only (other queries and other threads have their own)
 		if (relative_postings_to_process != 1)
 			postings_to_process = total_postings_for_query * relative_postings_to_process;
 
-- 
2.43.0


From efbbb57db794938103e4676fff52ac1e14ae8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:37 +0000
Subject: [PATCH 15/96] fix: search threads changed shared maps without
 synchronisation

---
 anytime/JASS_anytime_api.cpp | 6 ++++++
 source/top_k_limit.h         | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index e3922f1..005d632 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -414,6 +414,12 @@ JASS_ERROR JASS_anytime_api::search(std::vector<JASS_anytime_thread_result> &out
 		anytime(output[0], query_list, 0);
 	else
 		{
+		/*
+			Each thread's local data must exist before any thread starts because the threads share the map
+		*/
+		for (size_t which = 0; which < thread_count ; which++)
+			get_thread_local_data(which);
+
 		/*
 			Multiple threads, so start each worker
 		*/
diff --git a/source/top_k_limit.h b/source/top_k_limit.h
index 5bb4866..834bf65 100644
--- a/source/top_k_limit.h
+++ b/source/top_k_limit.h
@@ -74,7 +74,8 @@ namespace JASS
 			*/
 			uint32_t operator[](std::string query_id)
 				{
-				return table[query_id];
+				const auto found = table.find(query_id);		// must not add to the table because threads share it
+				return found == table.end() ? 0 : found->second;
 				}
 
 			/*
-- 
2.43.0


From 5a28bf22e527f16d7855a2224bca4ef8ea321640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:37 +0000
Subject: [PATCH 16/96] fix: an empty query in a list ended the search thread
 that met it

---
 anytime/JASS_anytime_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 005d632..e892979 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -456,7 +456,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 	std::string query = JASS_anytime_query::get_next_query(query_list, next_query);
 	std::string query_id;
 
-	while (query.size() != 0)
+	while (next_query < query_list.size())
 		{
 		static const std::string seperators_between_id_and_query = " \t:";
 
-- 
2.43.0


From fc0ba128907a1bc8f4cbdf56b1c3a49729da88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:37 +0000
Subject: [PATCH 17/96] fix: a failed index load was reported as success and
 left an unusable index in place

---
 anytime/JASS_anytime_api.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index e892979..ef2baa6 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -111,7 +111,12 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 				return JASS_ERROR_BAD_INDEX_VERSION;
 			}
 
-		index->read_index(directory);
+		if (index->read_index(directory) == 0)
+			{
+			delete index;
+			index = nullptr;
+			return JASS_ERROR_FAIL;
+			}
 
 		if (index->document_count() > JASS::query::MAX_DOCUMENTS)
 			{
@@ -129,6 +134,9 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 		}
 	catch (...)
 		{
+		thread_local_data.clear();
+		delete index;
+		index = nullptr;
 		return JASS_ERROR_FAIL;
 		}
 	}
-- 
2.43.0


From 3232b32cb995fd0d87afa08113d820a3a26633dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:37 +0000
Subject: [PATCH 18/96] fix: an oracle file with a line without a score
 crashed, and a failed load left a dangling table

---
 anytime/JASS_anytime_api.cpp | 3 ++-
 source/top_k_limit.cpp       | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index ef2baa6..126e177 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -149,8 +149,9 @@ JASS_ERROR JASS_anytime_api::load_oracle_scores(std::string filename)
 	{
 	try
 		{
+		auto replacement = new JASS::top_k_limit(filename);
 		delete precomputed_minimum_rsv_table;
-		precomputed_minimum_rsv_table = new JASS::top_k_limit(filename);
+		precomputed_minimum_rsv_table = replacement;
 		}
 	catch(...)
 		{
diff --git a/source/top_k_limit.cpp b/source/top_k_limit.cpp
index dc921e7..5f41b45 100644
--- a/source/top_k_limit.cpp
+++ b/source/top_k_limit.cpp
@@ -44,6 +44,8 @@ namespace JASS
 				Then has a space
 			*/
 			uint8_t *rsv_position = (uint8_t *)strchr((char *)query_id, ' ');
+			if (rsv_position == nullptr)
+				continue;				// a line without an rsv says nothing about the query
 			*rsv_position++ = '\0';
 			while (isspace(*rsv_position))
 				rsv_position++;
-- 
2.43.0


From 17923b28f85b905c73a0217f277e0d681e425e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:17 +0000
Subject: [PATCH 19/96] fix: failure to memory-map a file was not noticed

---
 source/file.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/file.cpp b/source/file.cpp
index 03477a0..3da6653 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -96,8 +96,11 @@ namespace JASS
 			*/
 			close(reader);
 
-			if (file_contents == nullptr)
+			if (file_contents == nullptr || file_contents == MAP_FAILED)
+				{
+				file_contents = nullptr;
 				return 0;
+				}
 
 			/*
 				Remember the file size
-- 
2.43.0


From 1cb7bab1bdf8b2ae275bd4429311f4825eddc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 20/96] fix: dynamic_array::serialise() wrote past the end of a
 buffer too small for the array

---
 source/dynamic_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/dynamic_array.h b/source/dynamic_array.h
index 3a0b308..605ee64 100644
--- a/source/dynamic_array.h
+++ b/source/dynamic_array.h
@@ -368,10 +368,11 @@ namespace JASS
 					*/
 					for (node *current = head; current != nullptr; current = current->next)
 						{
-						std::copy(current->data, current->data + (current->used <= size_of_into ? current->used.load() : size_of_into), into);
-						size_of_into -= current->used;
+						size_t elements = current->used <= size_of_into ? current->used.load() : size_of_into;
+						std::copy(current->data, current->data + elements, into);
+						size_of_into -= elements;
 						would_take += current->used;
-						into += current->used;
+						into += elements;
 						}
 					}
 				return would_take;
-- 
2.43.0


From 67d92b5f245a7e4ceab12165f5c7f5f7be49f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:09 +0000
Subject: [PATCH 21/96] fix: allocator_pool never ended when a chunk could not
 hold the alignment padding

---
 source/allocator_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/allocator_pool.cpp b/source/allocator_pool.cpp
index c72e4af..5f347b1 100644
--- a/source/allocator_pool.cpp
+++ b/source/allocator_pool.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			*/
 			if (chunk == nullptr || top_of_stack + bytes + padding > chunk->chunk_end)
 				{
-				if (add_chunk(bytes) != nullptr)
+				if (add_chunk(bytes + alignment) != nullptr)		// leave room for the alignment padding
 					continue;
 				else
 					{
-- 
2.43.0


From 2b487abbe10ce9fb56e5a270bdca0b53e64c3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:18 +0000
Subject: [PATCH 22/96] hook: JASS_VERIFY_MAX_QUERY_TERMS sets the size of a
 query's list of terms

---
 source/query_term_list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/query_term_list.h b/source/query_term_list.h
index 2b33b14..79a2d56 100644
--- a/source/query_term_list.h
+++ b/source/query_term_list.h
@@ -33,7 +33,11 @@ namespace JASS
 		friend std::ostream &operator<<(std::ostream &stream, const query_term_list &object);
 
 		private:
+#ifdef JASS_VERIFY_MAX_QUERY_TERMS
+			static const size_t max_query_terms = JASS_VERIFY_MAX_QUERY_TERMS;		///< Small lists, for verification harnesses
+#else
 			static const size_t max_query_terms = 0xFFFF;			///< We allow up-to this numnber of (not necessarily unique) terms in a query.
+#endif
 
 		private:
 			size_t terms_in_query;								///< The numner of terms in this query.
-- 
2.43.0


From 1b25b20804a09a0bfa4095cfd515c69c8d9840dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 23/96] fix: the first frequency of a posting was not limited
 to the largest impact

---
 source/index_postings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/index_postings.h b/source/index_postings.h
index cd15fc1..75a1262 100644
--- a/source/index_postings.h
+++ b/source/index_postings.h
@@ -141,7 +141,7 @@ namespace JASS
 
 					for (uint8_t *byte = space; byte < ending; byte++)
 						document_ids.push_back(*byte);
-					term_frequencies.push_back(amount);
+					term_frequencies.push_back(JASS::maths::minimum(amount, (index_postings_impact::impact_type)index_postings_impact::largest_impact));
 
 					highest_document = document_id;
 					}
-- 
2.43.0


From 59ae8ded3ab3f0f6ee78008c844ad5cc638f55bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 24/96] fix: sorting an empty array with Sort512_uint64_t ran
 off the array

---
 source/sort512_uint64_t.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/sort512_uint64_t.h b/source/sort512_uint64_t.h
index b03bde9..cfae5ca 100755
--- a/source/sort512_uint64_t.h
+++ b/source/sort512_uint64_t.h
@@ -2830,7 +2830,8 @@ static void CoreSort(SortType array[], const IndexType left, const IndexType rig
 
 template <class SortType, class IndexType = size_t>
 static inline void Sort(SortType array[], const IndexType size){
-    CoreSort<SortType,IndexType>(array, 0, size-1);
+    if (size > 1)
+        CoreSort<SortType,IndexType>(array, 0, size-1);
 }
 
 }
-- 
2.43.0


From ab69047b5f8dc391db70bc95a883a5dfcaec57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 25/96] fix: the maxblock query processors looked past the last
 accumulator and used an uninitialised count

---
 source/query_maxblock.h      | 5 +++--
 source/query_maxblock_heap.h | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/query_maxblock.h b/source/query_maxblock.h
index 005a4ea..33ccd40 100755
--- a/source/query_maxblock.h
+++ b/source/query_maxblock.h
@@ -209,7 +209,8 @@ namespace JASS
 				@param documents [in] The number of documents in the collection.
 				@param top_k [in]	The top-k documents to return from the query once executed.
 			*/
-			query_maxblock()
+			query_maxblock() :
+				number_of_blocks(0)
 				{
 				rewind();
 				}
@@ -370,7 +371,7 @@ namespace JASS
 					for (size_t page = 0; page < number_of_blocks; page++)
 						if (page_maximum[page] != 0)
 							{
-							for (size_t which = page * block_width; which < page * block_width + block_width; which++)
+							for (size_t which = page * block_width; which < maths::minimum((size_t)documents, page * block_width + block_width); which++)
 								{
 								if (accumulators.get_value(which) != 0)
 									{
diff --git a/source/query_maxblock_heap.h b/source/query_maxblock_heap.h
index a88a338..8176d5e 100755
--- a/source/query_maxblock_heap.h
+++ b/source/query_maxblock_heap.h
@@ -381,7 +381,7 @@ namespace JASS
 						if (*page_maximum_pointers[page] != 0 && *page_maximum_pointers[page] >= (sorted_accumulators[0] >> 32))
 							{
 							size_t start = (page_maximum_pointers[page] - page_maximum) * block_width;
-							for (size_t which = start; which < start + block_width; which++)
+							for (size_t which = start; which < maths::minimum((size_t)documents, start + block_width); which++)
 								{
 								uint64_t key = ((uint64_t)accumulators[which] << (uint64_t)32) | which;
 								if (accumulators.get_value(which) > 0 && key > sorted_accumulators[0])			// == 0 is the case where we're the current bottom of heap so might need to be promoted
@@ -406,7 +406,7 @@ namespace JASS
 						if (*page_maximum_pointers[page] != 0 && *page_maximum_pointers[page] >= *accumulator_pointers[0])
 							{
 							size_t start = (page_maximum_pointers[page] - page_maximum) * block_width;
-							for (size_t which = start; which < start + block_width; which++)
+							for (size_t which = start; which < maths::minimum((size_t)documents, start + block_width); which++)
 								{
 								if (accumulators.get_value(which) > 0)
 									{
-- 
2.43.0


From 91fb5981299a4be5b9c1caa6b9c3f14cd28810a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 26/96] fix: query_bucket had no bucket for the largest score
 and never stopped looking for a score of zero

---
 source/query_bucket.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/query_bucket.h b/source/query_bucket.h
index c780d3c..455015e 100755
--- a/source/query_bucket.h
+++ b/source/query_bucket.h
@@ -204,7 +204,7 @@ namespace JASS
 
 			static constexpr size_t rounded_top_k_filter = rounded_top_k - 1;
 
-			static constexpr size_t number_of_buckets = (std::numeric_limits<ACCUMULATOR_TYPE>::max)() > 0xFFFF ? 0xFFFF : (std::numeric_limits<ACCUMULATOR_TYPE>::max)();
+			static constexpr size_t number_of_buckets = ((std::numeric_limits<ACCUMULATOR_TYPE>::max)() > 0xFFFF ? 0xFFFF : (std::numeric_limits<ACCUMULATOR_TYPE>::max)()) + (size_t)1;
 			DOCID_TYPE bucket[number_of_buckets][rounded_top_k];						///< The array of buckets to use.
 			ACCUMULATOR_TYPE largest_used_bucket;											///< The largest bucket used (to decrease cost of initialisation and search)
 			ACCUMULATOR_TYPE smallest_used_bucket;											///< The smallest bucket used (to decrease cost of initialisation and search)
@@ -258,7 +258,7 @@ namespace JASS
 				{
 				query::init(primary_keys, documents, top_k);
 				accumulators.init(documents, width);
-				rewind(0, number_of_buckets);
+				rewind(0, 0, (ACCUMULATOR_TYPE)(number_of_buckets - 1));
 				}
 
 			/*
@@ -352,7 +352,7 @@ namespace JASS
 						Turn into keys for sorting
 					*/
 					accumulators_used = 0;
-					for (size_t current_bucket = largest_used_bucket; current_bucket >= smallest_used_bucket; current_bucket--)
+					for (size_t current_bucket = largest_used_bucket; current_bucket > 0 && current_bucket >= smallest_used_bucket; current_bucket--)
 						{
 						size_t end_looking_at = maths::minimum((size_t)bucket_depth[current_bucket], (size_t)rounded_top_k);
 						for (size_t which = 0; which < end_looking_at; which++)
@@ -394,7 +394,7 @@ namespace JASS
 						Copy to the array of pointers for sorting
 					*/
 					accumulators_used = 0;
-					for (size_t current_bucket = largest_used_bucket; current_bucket > smallest_used_bucket; current_bucket--)
+					for (size_t current_bucket = largest_used_bucket; current_bucket > 0 && current_bucket >= smallest_used_bucket; current_bucket--)
 						{
 						size_t end_looking_at = maths::minimum((size_t)bucket_depth[current_bucket], (size_t)rounded_top_k);
 						for (size_t which = 0; which < end_looking_at; which++)
-- 
2.43.0


From b7e22471c39ba4e3f9fafbd7c3a91454b22d91a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 27/96] fix: top_k_heap lost track of its smallest element when
 not full, and after promote() on a sorted heap

---
 source/top_k_heap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/top_k_heap.h b/source/top_k_heap.h
index 9bff44f..a76fb75 100644
--- a/source/top_k_heap.h
+++ b/source/top_k_heap.h
@@ -101,6 +101,7 @@ namespace JASS
 						If adding this element hasn't yet filled the heap then don't make a heap
 					*/
 					members.push_back(element);
+					front_correct = heap_ordered = false;
 					}
 				else if (total_insertions == k)
 					{
@@ -162,7 +163,9 @@ namespace JASS
 					}
 				else
 					{
-					front_correct = true;
+					/*
+						The front remains the smallest if it already was (all other elements can only have become larger)
+					*/
 					heap_ordered = false;
 					}
 				}
-- 
2.43.0


From a114846c751900e616e2a44b98c49af209435343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 28/96] fix: quantisation gave the largest score the second
 largest impact, and divided by zero when there is only one score

---
 source/quantize.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/quantize.h b/source/quantize.h
index 4ec360a..dea4f7d 100644
--- a/source/quantize.h
+++ b/source/quantize.h
@@ -186,8 +186,18 @@ namespace JASS
 						Quantize using uniform quantization, and write back as the new term frequency (which is now an impact score).
 						This uses Uniform Quantiization as defined by Anh et al. in:
 						Vo Ngoc Anh, Owen de Kretser, and Alistair Moffat. 2001. Vector-space ranking with effective early termination. In Proceedings of the 24th annual international ACM SIGIR conference on Research and development in information retrieval (SIGIR '01). ACM, New York, NY, USA, 35-42. DOI: https://doi.org/10.1145/383952.383957
+
+						The two ends are not computed: if there is only one score then the division is 0/0, and if the compiler fuses the multiplication in
+						compute_score() with the subtraction here then the largest score comes to slightly less than 1 (and is truncated to the wrong impact).
 					*/
-					index_postings_impact::impact_type impact = static_cast<index_postings_impact::impact_type>(((score - smallest_rsv) / (largest_rsv - smallest_rsv)) * impact_range) + index_postings_impact::smallest_impact;
+					double fraction;
+					if (score <= smallest_rsv)
+						fraction = 0;
+					else if (score >= largest_rsv)
+						fraction = 1;
+					else
+						fraction = (score - smallest_rsv) / (largest_rsv - smallest_rsv);
+					index_postings_impact::impact_type impact = static_cast<index_postings_impact::impact_type>(fraction * impact_range) + index_postings_impact::smallest_impact;
 					*current_tf = impact;
 					}
 
-- 
2.43.0


From c92d20ac47d10c2d5b1cbc6a63eefdcab8da7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 29/96] fix: JASS_eval reported average precision as rank
 biased precision

---
 tools/JASS_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index 4ce053d..ab8b420 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -833,7 +833,7 @@ metric_set evaluate_query(const std::string &run_id, const std::string &query_id
 	double map = evaluate_map_computer.compute(query_id, results_list, depth);
 
 	JASS::evaluate_rank_biased_precision evaluate_rbp_computer(parameter_probability, gold_standard_assessments);
-	double rbp = evaluate_map_computer.compute(query_id, results_list, depth);
+	double rbp = evaluate_rbp_computer.compute(query_id, results_list, depth);
 
 	size_t number_of_relvant_assessments = evaluate_map_computer.relevance_count(query_id);
 
-- 
2.43.0


From 128c12d375bdca09be80a3049250e0bdfa086e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 30/96] fix: precision and number relevant returned added up
 relevance grades rather than counting relevant documents

---
 source/evaluate_precision.cpp         | 3 ++-
 source/evaluate_relevant_returned.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/evaluate_precision.cpp b/source/evaluate_precision.cpp
index 749c37d..4e6b74f 100644
--- a/source/evaluate_precision.cpp
+++ b/source/evaluate_precision.cpp
@@ -31,7 +31,8 @@ namespace JASS
 			{
 			auto assessment = find(query_id, result);
 
-			found_and_relevant += assessment.score;
+			if (assessment.score != 0)
+				found_and_relevant++;
 
 			which++;
 
diff --git a/source/evaluate_relevant_returned.cpp b/source/evaluate_relevant_returned.cpp
index d79c597..c9af58c 100644
--- a/source/evaluate_relevant_returned.cpp
+++ b/source/evaluate_relevant_returned.cpp
@@ -25,7 +25,8 @@ namespace JASS
 			{
 			auto assessment = find(query_id, result);
 
-			found_and_relevant += assessment.score;
+			if (assessment.score != 0)
+				found_and_relevant++;
 
 			which++;
 
-- 
2.43.0


From fe8f5597b9267ea21183908d763952c0eb354601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 31/96] fix: recall (and so F) of a query without relevant
 documents was not a number

---
 source/evaluate_recall.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/evaluate_recall.cpp b/source/evaluate_recall.cpp
index b91e22c..eb519c9 100644
--- a/source/evaluate_recall.cpp
+++ b/source/evaluate_recall.cpp
@@ -23,6 +23,12 @@ namespace JASS
 		double found_and_relevant = 0;
 		size_t which = 0;
 
+		/*
+			If there are no relevant documents then they have all been found (and 0/0 is not a number).
+		*/
+		if (relevant == 0)
+			return 1;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
-- 
2.43.0


From 66e69aa3f288ed6211b6cba62a2352c861609730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 32/96] fix: cheapest precision took the first documents by
 name rather than the cheapest

---
 source/evaluate_cheapest_precision.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/source/evaluate_cheapest_precision.cpp b/source/evaluate_cheapest_precision.cpp
index 934b94a..039aaf6 100644
--- a/source/evaluate_cheapest_precision.cpp
+++ b/source/evaluate_cheapest_precision.cpp
@@ -52,7 +52,18 @@ namespace JASS
 		if (query_prices.size() == 0 || depth == 0)
 			return 1;
 
-		std::sort(query_prices.begin(), query_prices.end());
+		/*
+			Sort from cheapest to most expensive
+		*/
+		std::sort
+			(
+			query_prices.begin(),
+			query_prices.end(),
+			[this](const judgement &left, const judgement &right)
+				{
+				return find_price(left.document_id).score < find_price(right.document_id).score;
+				}
+			);
 
 		/*
 			Slice the relevant item list for this query at either depth or the number of items in the results list
@@ -61,13 +72,17 @@ namespace JASS
 		size_t slice_point = JASS::maths::minimum(depth, results_list.size());
 		if (slice_point < query_prices.size())
 			{
-			auto price = find_price(query_prices[slice_point].document_id).score;
+			auto price = find_price(query_prices[slice_point - 1].document_id).score;
 			while (slice_point < query_prices.size() && find_price(query_prices[slice_point].document_id).score == price)
 					slice_point++;
 					
 			query_prices.resize(slice_point);
 			}
 
+		/*
+			Sort on document id so that we can search the list
+		*/
+		std::sort(query_prices.begin(), query_prices.end());
 
 		/*
 			Compute the precision
-- 
2.43.0


From 219ffce2b64d7f93b692ee32b3740cdbdeb6fc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 33/96] fix: judgements and results separated by tabs were
 silently ignored

---
 source/evaluate.cpp |  6 +++---
 tools/JASS_eval.cpp | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/evaluate.cpp b/source/evaluate.cpp
index 323e8da..e164fbc 100644
--- a/source/evaluate.cpp
+++ b/source/evaluate.cpp
@@ -48,19 +48,19 @@ namespace JASS
 				while (isspace(*column_1))
 					column_1++;
 
-				if (char *column_2 = strchr(column_1, ' '))
+				if (char *column_2 = strpbrk(column_1, " \t"))
 					{
 					*column_2++ = '\0';
 					while (isspace(*column_2))
 						column_2++;
 
-					if (char *column_3 = strchr(column_2, ' '))
+					if (char *column_3 = strpbrk(column_2, " \t"))
 						{
 						*column_3++ = '\0';
 						while (isspace(*column_3))
 							column_3++;
 
-						if (char *column_4 = strchr(column_3, ' '))
+						if (char *column_4 = strpbrk(column_3, " \t"))
 							{
 							*column_4++ = '\0';
 							while (isspace(*column_4))
diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index ab8b420..eded9a9 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -584,31 +584,31 @@ class run_result
 				while (isspace(*column_1))
 					column_1++;
 
-				if (char *column_2 = strchr(column_1, ' '))
+				if (char *column_2 = strpbrk(column_1, " \t"))
 					{
 					*column_2++ = '\0';
 					while (isspace(*column_2))
 						column_2++;
 
-					if (char *column_3 = strchr(column_2, ' '))
+					if (char *column_3 = strpbrk(column_2, " \t"))
 						{
 						*column_3++ = '\0';
 						while (isspace(*column_3))
 							column_3++;
 
-						if (char *column_4 = strchr(column_3, ' '))
+						if (char *column_4 = strpbrk(column_3, " \t"))
 							{
 							*column_4++ = '\0';
 							while (isspace(*column_4))
 								column_4++;
 
-							if (char *column_5 = strchr(column_4, ' '))
+							if (char *column_5 = strpbrk(column_4, " \t"))
 								{
 								*column_5++ = '\0';
 								while (isspace(*column_5))
 									column_5++;
 
-								if (char *column_6 = strchr(column_5, ' '))
+								if (char *column_6 = strpbrk(column_5, " \t"))
 									{
 									*column_6++ = '\0';
 									while (isspace(*column_6))
-- 
2.43.0


From afd4114bd4028d9b34bef5dcd10a80a22e1af2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:56 +0000
Subject: [PATCH 34/96] fix: a t-test over two pairs ran for minutes and gave
 the wrong answer (unsigned underflow)

---
 source/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/statistics.cpp b/source/statistics.cpp
index eb9aa16..e98c782 100644
--- a/source/statistics.cpp
+++ b/source/statistics.cpp
@@ -92,7 +92,7 @@ namespace JASS
 			double c = sqrt(dnu / (dx * dx + dnu));
 			double csq = dnu / (dx * dx + dnu);
 			double s = dx / sqrt(dx * dx + dnu);
-			int64_t imax = nu - 2;
+			int64_t imax = static_cast<int64_t>(nu) - 2;
 			int64_t ievodd = nu - 2 * (nu / 2);
 
 			int64_t imin;
-- 
2.43.0


From 7a0623d7bda8b65b8abd9ad00b52e3c68d860c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:41 +0000
Subject: [PATCH 35/96] fix: a bitstring made shorter kept the bits past its
 end, and combining it with another wrote past the end of the answer

---
 source/bitstring.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/source/bitstring.cpp b/source/bitstring.cpp
index 37bf623..71724c9 100644
--- a/source/bitstring.cpp
+++ b/source/bitstring.cpp
@@ -42,24 +42,26 @@ namespace JASS
 	void bitstring::resize(size_t new_length_in_bits)
 		{
 		/*
-			Compute the new and old lengths in "chunks"
+			Compute the new length in "chunks" and resize the vector (to the same size for each bitstring of the same length)
 		*/
 		size_t chunks_long = (new_length_in_bits + 8 * sizeof(bitstring_word)) / (8 * sizeof(bitstring_word));
-		size_t old_chunks_long = bits.size() / sizeof(bitstring_word);
-		
-		/*
-			resize the vector, but only if we need to
-		*/
-		if (chunks_long > old_chunks_long)
-			{
-			size_t bytes_long = chunks_long * sizeof(chunks_long);
-			bits.resize(bytes_long);
-			}
-			
+		bits.resize(chunks_long * sizeof(bitstring_word));
+
 		/*
 			remember out length
 		*/
+		size_t old_length_in_bits = bits_long;
 		bits_long = new_length_in_bits;
+
+		/*
+			If the bitstring is now shorter then clear the bits that are past the end so that they don't get counted (or come back).
+		*/
+		if (new_length_in_bits < old_length_in_bits)
+			{
+			size_t last_bit = bits.size() * 8;
+			for (size_t clearing = bits_long; clearing < last_bit; clearing++)
+				unsafe_unsetbit(clearing);
+			}
 		}
 
 	/*
-- 
2.43.0


From 7311bcfce532f83655fd05a5eb50df7f523855d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:42 +0000
Subject: [PATCH 36/96] fix: a bitstream that exactly fills its buffer was
 reported as not fitting

---
 source/bitstream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bitstream.h b/source/bitstream.h
index f0e8023..c1f3604 100644
--- a/source/bitstream.h
+++ b/source/bitstream.h
@@ -168,7 +168,8 @@ namespace JASS
 			*/
 			uint64_t eof(void)
 				{
-				push_buffer();
+				if (bit_pos != 0)
+					push_buffer();
 				return failed ? 0 : (total_bits + 7) / 8;			// return the number of bytes used or 0 on error
 				}
 
-- 
2.43.0


From bdea67f9c57345e51170f00a6e2c30ba7b57771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 37/96] fix: the Porter stemmer took a word-initial y for a
 vowel, and a vowel and consonant for consonant-vowel-consonant (use, age,
 used)

---
 source/stem_porter.cpp | 9 +++------
 source/stem_porter.h   | 6 +++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/source/stem_porter.cpp b/source/stem_porter.cpp
index 15d1ead..f394813 100644
--- a/source/stem_porter.cpp
+++ b/source/stem_porter.cpp
@@ -55,12 +55,9 @@ namespace JASS
 	*/
 	bool stem_porter::has_vowel(const char *what)
 		{
-		if (strpbrk("aeiou", what) != NULL)
-			return true;
-		else
-			for (const char *pos = strchr(what, 'y'); pos != NULL; pos = strchr(pos + 1, 'y'))
-				if (!ascii::isvowel(*(pos + 1)))
-					return true;
+		for (; *what != '\0'; what++)
+			if (isvowely(what))
+				return true;
 
 		return false;
 		}
diff --git a/source/stem_porter.h b/source/stem_porter.h
index a159dd2..7ab6262 100644
--- a/source/stem_porter.h
+++ b/source/stem_porter.h
@@ -46,13 +46,13 @@ namespace JASS
 				"A consonant in a word is a letter other than A, E, I, O or U, and other than Y preceded by a consonant."
 				...
 				"If a letter is not a consonant it is a vowel."
-				so a vowely is {aeiou} or {y} not folowed by a {aeiou}
+				so a vowely is {aeiou} or {y} preceded by a consonant (recall that the string is reversed, so the preceding letter is the next letter)
 				@param c [in] Pointer to the character to check.
 				@return true if a vowely or false otherwise.
 			*/
 			bool isvowely(const char *c)
 				{
-				return *c != '\0' && (ascii::isvowel(*c) || (*c == 'y' && !ascii::isvowel(*(c + 1))));
+				return *c != '\0' && (ascii::isvowel(*c) || (*c == 'y' && *(c + 1) != '\0' && !isvowely(c + 1)));
 				}
 
 			/*
@@ -67,7 +67,7 @@ namespace JASS
 			*/
 			bool cvc(const char *what)
 				{
-				return ((strchr("aeiouwxy", *what) == NULL) && (isvowely(what + 1)) && (!isvowely(what + 2))) ? true : false;
+				return ((strchr("aeiouwxy", *what) == NULL) && (isvowely(what + 1)) && *(what + 2) != '\0' && (!isvowely(what + 2))) ? true : false;
 				}
 
 			/*
-- 
2.43.0


From 308242f942e02d603d3866d17868560ca0e5f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 38/96] fix: zstd compression into a buffer that is too small
 never returned

---
 source/compress_general_zstd.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/compress_general_zstd.cpp b/source/compress_general_zstd.cpp
index fa94f1e..a3d13d0 100644
--- a/source/compress_general_zstd.cpp
+++ b/source/compress_general_zstd.cpp
@@ -53,6 +53,8 @@ namespace JASS
 			auto toRead = ZSTD_compressStream(ress.cstream, &output , &input);   /* toRead is guaranteed to be <= ZSTD_CStreamInSize() */
 			if (ZSTD_isError(toRead))
 				return 0;
+			if (output.pos == output.size && input.pos < input.size)
+				return 0;			// the output buffer is full but there is still input to compress
 			}
 
 		size_t const remainingToFlush = ZSTD_endStream(ress.cstream, &output);   /* close frame */
-- 
2.43.0


From dd40d5a3c5bd2673d36412fc17866bd1bf0e5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 39/96] fix: the zstd compressor could not decompress

---
 source/compress_general_zstd.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/source/compress_general_zstd.cpp b/source/compress_general_zstd.cpp
index a3d13d0..e2fe0fa 100644
--- a/source/compress_general_zstd.cpp
+++ b/source/compress_general_zstd.cpp
@@ -70,20 +70,9 @@ namespace JASS
 	*/
 	size_t compress_general_zstd::decode(void *decoded, size_t destination_length, const void *source, size_t source_bytes)
 		{
-		/*
-		if (inflateReset(&instream) != Z_OK)
-			return 0;
-
-		instream.avail_in = source_bytes;
-		instream.next_in = (Bytef *)source;
-		instream.avail_out = destination_length;
-		instream.next_out = (Bytef *)decoded;
+		auto length = ZSTD_decompress(decoded, destination_length, source, source_bytes);
 
-		auto status = inflate(&instream, Z_FINISH);
-
-		return status == Z_STREAM_END ? (destination_length - instream.avail_out) : 0;
-		*/
-		return 0;
+		return ZSTD_isError(length) ? 0 : length;
 		}
 		
 	/*
-- 
2.43.0


From 98b66d6d442588dbc9668e35ef4d6bd556931abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 40/96] fix: an option whose value is missing read past the end
 of the argument list, or crashed

---
 source/commandline.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index bfa24de..dc372ac 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -205,6 +205,12 @@ namespace JASS
 							 std::is_same<TYPE, double>::value>::type* = nullptr>
 			static void extract(std::ostringstream &messages, const char *parameter, command<TYPE> element)
 				{
+				if (parameter == nullptr)
+					{
+					messages << " Missing numeric parameter\n";
+					return;
+					}
+
 				double answer = std::stod(parameter);
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
@@ -227,7 +233,10 @@ namespace JASS
 			*/
 			static void extract(std::ostringstream &messages, const char *parameter, command<std::string> element)
 				{
-				element.parameter = parameter;
+				if (parameter == nullptr)
+					messages << " Missing string parameter\n";
+				else
+					element.parameter = parameter;
 				}
 
 			/*
@@ -255,11 +264,12 @@ namespace JASS
 				@brief Iterate over each parameter looking for one that matches
 				@param messages [out] Any errors are reported down this stream.
 				@param arg [in/out] The place in the command line parameter list that we're currenty looking at.
+				@param argc [in] The length of the command line parameter list.
 				@param argv [in] The command line parameter list.
 			*/
 			template<std::size_t I = 0, typename... Tp>
 			inline typename std::enable_if<I == sizeof...(Tp), void>::type
-			static for_each_parameter(std::ostringstream &messages, size_t &arg, const char *argv[], std::tuple<Tp...> &)
+			static for_each_parameter(std::ostringstream &messages, size_t &arg, size_t argc, const char *argv[], std::tuple<Tp...> &)
 				{
 				messages << argv[arg] << " Unknown parameter\n";
 				arg++;
@@ -273,24 +283,27 @@ namespace JASS
 			/*!
 				@brief Iterate over each parameter looking for one that matches
 				@param arg [in/out] The place in the command line parameter list that we're currenty looking at.
+				@param argc [in] The length of the command line parameter list.
 				@param argv [in] The command line parameter list.
 				@param tuple [in] The remainder of the command line parameters as specified as the programmer.
 			*/
 			template<std::size_t I = 0, typename... Tp>
 			inline typename std::enable_if<I < sizeof...(Tp), void>::type
-			static for_each_parameter(std::ostringstream &messages, size_t &arg, const char *argv[], std::tuple<Tp...> &tuple)
+			static for_each_parameter(std::ostringstream &messages, size_t &arg, size_t argc, const char *argv[], std::tuple<Tp...> &tuple)
 				{
 				if (std::get<I>(tuple).shortname.size() == 0 || std::get<I>(tuple).longname.size() == 0)				// looking for non-parameters (i.e. notes_
-					for_each_parameter<I + 1, Tp...>(messages, arg, argv, tuple);
+					for_each_parameter<I + 1, Tp...>(messages, arg, argc, argv, tuple);
 				else if (strcmp(argv[arg], std::get<I>(tuple).shortname.c_str()) == 0)				// looking for "-a v"
 					{
-					extract(messages, argv[++arg], std::get<I>(tuple));
+					arg++;
+					extract(messages, arg < argc ? argv[arg] : nullptr, std::get<I>(tuple));
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
 				else if (strcmp(argv[arg], std::get<I>(tuple).longname.c_str()) == 0)		// looking for "--aaa v"
 					{
-					extract(messages, argv[++arg], std::get<I>(tuple));
+					arg++;
+					extract(messages, arg < argc ? argv[arg] : nullptr, std::get<I>(tuple));
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
@@ -305,7 +318,7 @@ namespace JASS
 					arg++;
 					}
 				else
-					for_each_parameter<I + 1, Tp...>(messages, arg, argv, tuple);
+					for_each_parameter<I + 1, Tp...>(messages, arg, argc, argv, tuple);
 				}
 
 			/*
@@ -485,7 +498,7 @@ namespace JASS
 				size_t argument = 1;
 
 				while (argument < static_cast<size_t>(argc))
-					for_each_parameter(messages, argument, argv, all_parameters);
+					for_each_parameter(messages, argument, static_cast<size_t>(argc), argv, all_parameters);
 
 				error = messages.str();
 				return error == "";
-- 
2.43.0


From ce5cc8060330eb1afb2d8e9ec8179d2966f114c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 41/96] fix: floating point options refused zero and negative
 numbers, and threw on text

---
 source/commandline.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index dc372ac..9f71d66 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -211,11 +211,11 @@ namespace JASS
 					return;
 					}
 
-				double answer = std::stod(parameter);
+				double answer = strtod(parameter, nullptr);
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < std::numeric_limits<TYPE>::lowest())
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
-- 
2.43.0


From 67aaa1e87a46780088f9e57c968aecbb12a46cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 42/96] fix: numeric options accepted text, negative numbers as
 unsigned, and values out of range

---
 source/commandline.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index 9f71d66..8dd9d1b 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <typeinfo>
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "string.h"
@@ -143,11 +144,15 @@ namespace JASS
 					return;
 					}
 
-				long long answer = strtoll(parameter, NULL, 0);
+				char *end;
+				errno = 0;
+				long long answer = strtoll(parameter, &end, 0);
 
-				if (answer > (std::numeric_limits<TYPE>::max)())
+				if (end == parameter || *end != '\0')
+					messages << parameter << " Not a number\n";
+				else if (answer > (std::numeric_limits<TYPE>::max)() || (errno == ERANGE && answer > 0))
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < (std::numeric_limits<TYPE>::min)() || (errno == ERANGE && answer < 0))
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
@@ -177,16 +182,26 @@ namespace JASS
 					return;
 					}
 
-				unsigned long long answer = strtoull(parameter, NULL, 0);
+				char *end;
+				errno = 0;
+				unsigned long long answer = strtoull(parameter, &end, 0);
+				bool overflow = errno == ERANGE;
 
 				/*
 					Coverity Scan complains about the line below when TYPE is a unisgned long long because it can never be true.
 				*/
 				if constexpr (!std::is_same<TYPE, unsigned long long>::value)
 					if (answer > (std::numeric_limits<TYPE>::max)())
-						messages << parameter << " Numeric overflow on parameter\n";
+						overflow = true;
 
-				element.parameter = static_cast<TYPE>(answer);
+				if (end == parameter || *end != '\0')
+					messages << parameter << " Not a number\n";
+				else if (strchr(parameter, '-') != nullptr)
+					messages << parameter << " Numeric underflow on parameter\n";
+				else if (overflow)
+					messages << parameter << " Numeric overflow on parameter\n";
+				else
+					element.parameter = static_cast<TYPE>(answer);
 				}
 
 			/*
@@ -211,9 +226,12 @@ namespace JASS
 					return;
 					}
 
-				double answer = strtod(parameter, nullptr);
+				char *end;
+				double answer = strtod(parameter, &end);
 
-				if (answer > (std::numeric_limits<TYPE>::max)())
+				if (end == parameter || *end != '\0')
+					messages << parameter << " Not a number\n";
+				else if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
 				else if (answer < std::numeric_limits<TYPE>::lowest())
 					messages << parameter << " Numeric underflow on parameter\n";
-- 
2.43.0


From 7aefd49c781a67ae32787cdf979980f94d50cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 43/96] fix: a parameter whose name starts with another's name
 (--rho_min and --rho) was taken for the other

---
 source/commandline.h | 77 ++++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index 8dd9d1b..856a6ca 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -15,6 +15,7 @@
 #include <limits>
 #include <string>
 #include <utility>
+#include <algorithm>
 #include <sstream>
 #include <iostream>
 #include <typeinfo>
@@ -273,6 +274,50 @@ namespace JASS
 				messages << element.shortname << " (" << element.longname  << ") Unknown parameter type\n";
 				}
 
+			/*
+				COMMANDLINE::MATCH()
+				--------------------
+			*/
+			/*!
+				@brief Compute the length of the longer of the names of a parameter that the command line argument starts with
+				@param argument [in] The argument as given by the user.
+				@param element [in] The parameter.
+				@return The length of the matching name, or 0 if neither name matches.
+			*/
+			template <typename TYPE>
+			static size_t match(const char *argument, const command<TYPE> &element)
+				{
+				size_t longest = 0;
+
+				if (element.shortname.size() != 0 && element.longname.size() != 0)
+					for (const auto &name : {element.shortname, element.longname})
+						if (strncmp(argument, name.c_str(), name.size()) == 0 && name.size() > longest)
+							if (!std::is_same<TYPE, bool>::value || argument[name.size()] == '\0')		// there's no value to join to the name of a boolean
+								longest = name.size();
+
+				return longest;
+				}
+
+			/*
+				COMMANDLINE::LONGEST_MATCH()
+				----------------------------
+				One name can be the start of another (e.g. --rho and --rho_min), the longest that matches is the one the user typed.
+			*/
+			/*!
+				@brief Compute the length of the longest parameter name that the command line argument starts with
+				@param argument [in] The argument as given by the user.
+				@param tuple [in] The command line parameters as specified as the programmer.
+				@return The length of the matching name, or 0 if no name matches.
+			*/
+			template<std::size_t I = 0, typename... Tp>
+			static size_t longest_match(const char *argument, const std::tuple<Tp...> &tuple)
+				{
+				if constexpr (I < sizeof...(Tp))
+					return (std::max)(match(argument, std::get<I>(tuple)), longest_match<I + 1, Tp...>(argument, tuple));
+				else
+					return 0;
+				}
+
 			/*
 				COMMANDLINE::FOR_EACH_PARAMETER()
 				---------------------------------
@@ -284,10 +329,11 @@ namespace JASS
 				@param arg [in/out] The place in the command line parameter list that we're currenty looking at.
 				@param argc [in] The length of the command line parameter list.
 				@param argv [in] The command line parameter list.
+				@param length [in] The length of the longest parameter name that matches.
 			*/
 			template<std::size_t I = 0, typename... Tp>
 			inline typename std::enable_if<I == sizeof...(Tp), void>::type
-			static for_each_parameter(std::ostringstream &messages, size_t &arg, size_t argc, const char *argv[], std::tuple<Tp...> &)
+			static for_each_parameter(std::ostringstream &messages, size_t &arg, size_t argc, const char *argv[], size_t length, std::tuple<Tp...> &)
 				{
 				messages << argv[arg] << " Unknown parameter\n";
 				arg++;
@@ -303,40 +349,29 @@ namespace JASS
 				@param arg [in/out] The place in the command line parameter list that we're currenty looking at.
 				@param argc [in] The length of the command line parameter list.
 				@param argv [in] The command line parameter list.
+				@param length [in] The length of the longest parameter name that matches.
 				@param tuple [in] The remainder of the command line parameters as specified as the programmer.
 			*/
 			template<std::size_t I = 0, typename... Tp>
 			inline typename std::enable_if<I < sizeof...(Tp), void>::type
-			static for_each_parameter(std::ostringstream &messages, size_t &arg, size_t argc, const char *argv[], std::tuple<Tp...> &tuple)
+			static for_each_parameter(std::ostringstream &messages, size_t &arg, size_t argc, const char *argv[], size_t length, std::tuple<Tp...> &tuple)
 				{
 				if (std::get<I>(tuple).shortname.size() == 0 || std::get<I>(tuple).longname.size() == 0)				// looking for non-parameters (i.e. notes_
-					for_each_parameter<I + 1, Tp...>(messages, arg, argc, argv, tuple);
-				else if (strcmp(argv[arg], std::get<I>(tuple).shortname.c_str()) == 0)				// looking for "-a v"
+					for_each_parameter<I + 1, Tp...>(messages, arg, argc, argv, length, tuple);
+				else if (length == 0 || match(argv[arg], std::get<I>(tuple)) != length)			// some other parameter is a better match, or this one doesn't match
+					for_each_parameter<I + 1, Tp...>(messages, arg, argc, argv, length, tuple);
+				else if (argv[arg][length] != '\0')				// "-av" or "--aaav"
 					{
+					extract(messages, argv[arg] + length, std::get<I>(tuple));
 					arg++;
-					extract(messages, arg < argc ? argv[arg] : nullptr, std::get<I>(tuple));
-					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
-						arg++;
 					}
-				else if (strcmp(argv[arg], std::get<I>(tuple).longname.c_str()) == 0)		// looking for "--aaa v"
+				else				// "-a v" or "--aaa v"
 					{
 					arg++;
 					extract(messages, arg < argc ? argv[arg] : nullptr, std::get<I>(tuple));
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).longname.c_str(), std::get<I>(tuple).longname.size()) == 0)			// looking for "-aav"
-					{
-					extract(messages, argv[arg] + std::get<I>(tuple).longname.size(), std::get<I>(tuple));
-					arg++;
-					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).shortname.c_str(), std::get<I>(tuple).shortname.size()) == 0)		// looking for "-av"
-					{
-					extract(messages, argv[arg] + std::get<I>(tuple).shortname.size(), std::get<I>(tuple));
-					arg++;
-					}
-				else
-					for_each_parameter<I + 1, Tp...>(messages, arg, argc, argv, tuple);
 				}
 
 			/*
@@ -516,7 +551,7 @@ namespace JASS
 				size_t argument = 1;
 
 				while (argument < static_cast<size_t>(argc))
-					for_each_parameter(messages, argument, static_cast<size_t>(argc), argv, all_parameters);
+					for_each_parameter(messages, argument, static_cast<size_t>(argc), argv, longest_match(argv[argument], all_parameters), all_parameters);
 
 				error = messages.str();
 				return error == "";
-- 
2.43.0


From a9d9c683663c61283a0b87e9c0a6a745bfe53655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 44/96] fix: Unicode decompositions and foldings to codepoints
 whose hexadecimal starts with a letter were misread (A640 folded to Arabic
 0641)

---
 tools/unicode_database_to_c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/unicode_database_to_c.cpp b/tools/unicode_database_to_c.cpp
index d7bb507..6f8ef62 100644
--- a/tools/unicode_database_to_c.cpp
+++ b/tools/unicode_database_to_c.cpp
@@ -627,7 +627,9 @@ for (uint32_t which_semicolon = 0; which_semicolon < 5; which_semicolon++)
 */
 uint32_t normalisation = codepoint;
 const char *digit = semicolon + 1;
-while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+if (*digit == '<')
+	digit = strchr(digit, '>');				// skip over the tag (e.g. <noBreak>)
+while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 	{
 	if (*digit == ';')
 		{
@@ -733,7 +735,7 @@ void process_casefolding(const char *line)
 	semicolon = strchr(semicolon + 1, ';');
 	const char *digit = semicolon + 1;
 	std::vector<int> folded;						// the case folded translation
-	while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+	while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 		{
 		if (*digit == ';')
 			break;
-- 
2.43.0


From 3a43f9b3b9cf74ec5804194b0ab7534d9056e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 45/96] fix: decoding UTF-8 at the end of a buffer read the
 byte after it

---
 source/unicode.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/unicode.h b/source/unicode.h
index ccdfa99..2d9d643 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -121,6 +121,12 @@ namespace JASS
 			*/
 			static size_t isutf8(const void *utf8_start, const void *end_of_buffer)
 				{
+				/*
+					an empty buffer does not contain a sequence (and cannot be read from)
+				*/
+				if (utf8_start >= end_of_buffer)
+					return 0;
+
 				/*
 					get the length
 				*/
-- 
2.43.0


From 804dff9bb08d016370242897d5f88a77add54039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 46/96] fix: overlong UTF-8 sequences, and those beyond the end
 of Unicode, were accepted as valid

---
 source/unicode.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/unicode.h b/source/unicode.h
index 2d9d643..a984eca 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -152,6 +152,16 @@ namespace JASS
 					if ((*++byte >> 6) != 2)
 						return 0;
 
+				/*
+					check for overlong sequences (which could have been shorter) and for codepoints beyond the end of Unicode
+				*/
+				byte = (uint8_t *)utf8_start;
+				if ((number_of_bytes == 2 && byte[0] < 0xC2) ||
+					(number_of_bytes == 3 && byte[0] == 0xE0 && byte[1] < 0xA0) ||
+					(number_of_bytes == 4 && byte[0] == 0xF0 && byte[1] < 0x90) ||
+					(number_of_bytes == 4 && (byte[0] > 0xF4 || (byte[0] == 0xF4 && byte[1] > 0x8F))))
+						return 0;
+
 				/*
 					success so return the length of the sequence
 				*/
-- 
2.43.0


From 6c1dd08d01830aebb0bc06507c1dd9fc9326b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 47/96] fix: characters XML allows in names were not, when not
 assigned in the Unicode database

---
 tools/unicode_database_to_c.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tools/unicode_database_to_c.cpp b/tools/unicode_database_to_c.cpp
index 6f8ef62..dd23592 100644
--- a/tools/unicode_database_to_c.cpp
+++ b/tools/unicode_database_to_c.cpp
@@ -442,7 +442,23 @@ unsigned process_unicodedata(const char *line, unsigned last_codepoint)
 		*/
 		if (strcmp(category, "Cc") == 0)						// a C0 or C1 control code
 			control.push_back(codepoint);
+		}
+		
+	return range_end;
+	}
 
+/*
+	PROCESS_XML_NAMES()
+	-------------------
+	The XML name characters are ranges that include codepoints that are not (yet) in the Unicode database
+*/
+/*!
+	@brief Get the lists of characters that can be used in the names of XML tags
+*/
+void process_xml_names(void)
+	{
+	for (size_t codepoint = 0; codepoint <= MAX_CODEPOINT; codepoint++)
+		{
 		/*
 			XML NameStartChar and NameChar
 		*/
@@ -458,8 +474,6 @@ unsigned process_unicodedata(const char *line, unsigned last_codepoint)
 		if ((codepoint == '-') || (codepoint == '.') || (codepoint >= '0' && codepoint <= '9') || (codepoint == 0xB7) || (codepoint >= 0x0300 && codepoint <= 0x036F) || (codepoint >= 0x203F && codepoint <= 0x2040))
 			xmlnamechar.push_back(codepoint);
 		}
-		
-	return range_end;
 	}
 /*
 	PROCESS_PROPLIST()
@@ -787,6 +801,7 @@ int main_event(int argc, char *argv[])
 	unsigned codepoint = 0;
 	for (const auto &line : lines)
 		codepoint = process_unicodedata((const char *)line, codepoint);
+	process_xml_names();
 		
 	/*
 		get the case folding file
-- 
2.43.0


From 8ca7e3c399fc00844741e58554a321fed8325562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 48/96] fix: the last token of a document, when a single
 character, included what happened to be in memory after the document

---
 source/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 102b07a..876c8b8 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -137,7 +137,7 @@ namespace JASS
 			*buffer_pos++ = ascii::tolower(*current);
 			current++;
 		
-			while (ascii::isalpha(*current))
+			while (current < end_of_document && ascii::isalpha(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = ascii::tolower(*current);				// won't write on overflow
@@ -167,7 +167,7 @@ namespace JASS
 			*buffer_pos++ = *current;
 			current++;
 		
-			while (ascii::isdigit(*current))
+			while (current < end_of_document && ascii::isdigit(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = *current;				// won't write on overflow
-- 
2.43.0


From 3711ef74ceecfa864b5a63ea3cd216d33cb63db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 49/96] fix: an unterminated quote in an XML tag read past the
 end of the document

---
 source/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 876c8b8..2c5c269 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -244,7 +244,8 @@ namespace JASS
 								current++;
 							while (current < end_of_document && *current != '\'');		// the skip over the '"' happens when this loop exits.
 							
-						current++;
+						if (current < end_of_document)
+							current++;
 						}
 						
 					/*
-- 
2.43.0


From 3156a58a266c662c4d5ac550be74ce6bc4094301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 50/96] fix: an over-long token had characters missing from its
 middle rather than its end

---
 source/parser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 2c5c269..ed5b8e6 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -33,7 +33,12 @@ namespace JASS
 				Case fold.
 			*/
 			for (const uint32_t *folded = unicode::tocasefold(codepoint); *folded != 0; folded++)
-				buffer_pos += unicode::codepoint_to_utf8(buffer_pos, buffer_end, *folded);						// won't write on overflow
+				{
+				size_t written = unicode::codepoint_to_utf8(buffer_pos, buffer_end, *folded);						// won't write on overflow
+				if (written == 0)
+					buffer_end = buffer_pos;					// truncate here, rather than leave out this character but not a later (shorter) one
+				buffer_pos += written;
+				}
 
 			/*
 				Get the next codepoint
@@ -60,7 +65,12 @@ namespace JASS
 				one digit when normalised.  For example, the sumbol for a half (1/2) becomes a 1 and a 2.
 			*/
 			for (const uint32_t *folded = unicode::tocasefold(codepoint); *folded != 0; folded++)
-				buffer_pos += unicode::codepoint_to_utf8(buffer_pos, buffer_end, *folded);						// won't write on overflow
+				{
+				size_t written = unicode::codepoint_to_utf8(buffer_pos, buffer_end, *folded);						// won't write on overflow
+				if (written == 0)
+					buffer_end = buffer_pos;					// truncate here, rather than leave out this character but not a later (shorter) one
+				buffer_pos += written;
+				}
 
 			/*
 				Get the next codepoint
-- 
2.43.0


From b2db204b8a8ce59fd8217dc3e58babd53f782abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 51/96] fix: a < before malformed UTF-8 or the end of the
 document was taken for a tag without a name

---
 source/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index ed5b8e6..ab2707b 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -213,7 +213,7 @@ namespace JASS
 					full XML parser. Square brackets below are XML production numbers.
 				*/
 				uint32_t codepoint = unicode::utf8_to_codepoint(current, end_of_document, bytes);
- 				if (unicode::isxmlnamestartchar(codepoint))
+ 				if (bytes != 0 && unicode::isxmlnamestartchar(codepoint))
 					{
 					/*
 						[40]     STag          ::= '<' Name (S Attribute)* S? '>'
@@ -280,7 +280,7 @@ namespace JASS
 						[42]     ETag        ::= '</' Name S? '>'
 					*/
 					codepoint = unicode::utf8_to_codepoint(current + 1, end_of_document, bytes);
-	 				if (unicode::isxmlnamestartchar(codepoint))
+	 				if (bytes != 0 && unicode::isxmlnamestartchar(codepoint))
 						{
 						current++;
 						const uint8_t *found = std::find(current, end_of_document, '>');
-- 
2.43.0


From fe616d192b13de87b5fcfa0a516449a5b01e7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 52/96] fix: everything in a query after malformed UTF-8 was
 ignored

---
 source/parser_query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser_query.cpp b/source/parser_query.cpp
index 3523782..c1d6cb9 100644
--- a/source/parser_query.cpp
+++ b/source/parser_query.cpp
@@ -30,7 +30,7 @@ namespace JASS
 		codepoint = unicode::utf8_to_codepoint(current, end_of_query, bytes);
 		while (!unicode::isalnum(codepoint))
 			{
-			if (bytes == 0 || (current += bytes) >= end_of_query)
+			if ((current += bytes == 0 ? 1 : bytes) >= end_of_query)			// skip over malformed UTF-8 one byte at a time
 				return eof_token;
 			codepoint = unicode::utf8_to_codepoint(current, end_of_query, bytes);
 			}
-- 
2.43.0


From a2ed19c5132300aae33990f1097ee4309baba73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 53/96] fix: query words too long for the index were not
 truncated as they are in documents, so could not be found

---
 source/parser_query.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/parser_query.cpp b/source/parser_query.cpp
index c1d6cb9..1e3bed3 100644
--- a/source/parser_query.cpp
+++ b/source/parser_query.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 
 #include "ascii.h"
+#include "parser.h"
 #include "unicode.h"
 #include "parser_query.h"
 #include "allocator_memory.h"
@@ -23,6 +24,9 @@ namespace JASS
 		size_t bytes;
 		uint32_t codepoint;
 		uint8_t *start_of_token = buffer_pos;
+		uint8_t *end_of_token = buffer_end;
+		if ((size_t)(end_of_token - start_of_token) > parser::token::max_token_length)
+			end_of_token = start_of_token + parser::token::max_token_length;			// over-long tokens are truncated as they are in documents
 
 		/*
 			Skipping over all Unicode that isn't alpha-numeric.
@@ -50,10 +54,10 @@ namespace JASS
 				*/
 				for (const uint32_t *folded = unicode::tocasefold(codepoint); *folded != 0; folded++)
 					{
-					size_t rewrite_bytes = unicode::codepoint_to_utf8(buffer_pos, buffer_end, *folded);						// won't write on overflow
-					buffer_pos += rewrite_bytes;
+					size_t rewrite_bytes = unicode::codepoint_to_utf8(buffer_pos, end_of_token, *folded);						// won't write on overflow
 					if (rewrite_bytes == 0)
-						return bad_token;	 // LCOV_EXCL_LINE				// I don't think this can happen because the character must be a valid alpha and there must be enough room to store it.
+						end_of_token = buffer_pos;			// truncate here, rather than leave out this character but not a later (shorter) one
+					buffer_pos += rewrite_bytes;
 					}
 
 				/*
@@ -81,10 +85,10 @@ namespace JASS
 				*/
 				for (const uint32_t *folded = unicode::tocasefold(codepoint); *folded != 0; folded++)
 					{
-					size_t rewrite_bytes = unicode::codepoint_to_utf8(buffer_pos, buffer_end, *folded);						// won't write on overflow
-					buffer_pos += rewrite_bytes;
+					size_t rewrite_bytes = unicode::codepoint_to_utf8(buffer_pos, end_of_token, *folded);						// won't write on overflow
 					if (rewrite_bytes == 0)
-						return bad_token;	// LCOV_EXCL_LINE			// I don't think this can happen because the character must be a valid numeric and there must be enough room to store it.
+						end_of_token = buffer_pos;			// truncate here, rather than leave out this character but not a later (shorter) one
+					buffer_pos += rewrite_bytes;
 					}
 
 				/*
-- 
2.43.0


From 5a7289d82f610f5e342cb72f7c72fb06f56d8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 54/96] fix: TREC documents after a short read, or more than a
 buffer of other text, were lost, and reading after an unfinished document
 read outside the buffer

---
 source/instream_document_trec.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index ac36af1..2391303 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -88,35 +88,34 @@ namespace JASS
 			Find the start tag
 		*/
 		uint8_t *document_start;
-		if ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
+		while ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
 			{
 			/*
-				We might be at the end of a buffer and half-way through a tag so we copy the remainder of the file to the
+				We might be at the end of a buffer and half-way through a tag so we copy what could be the start of a tag to the
 				start of the buffer and fill the remainder.
 			*/
-			memmove(buffer, unread_data, buffer_size - buffer_used);
-			buffer_end -= buffer_used;
+			size_t keep = std::min((size_t)(buffer_end - unread_data), document_start_tag.size() - 1);
+			memmove(buffer, buffer_end - keep, keep);
+			buffer_end = buffer + keep;
 			buffer_used = 0;
-			
-			fetch(buffer_end, buffer + buffer_size - buffer_end);
 			unread_data = buffer;
-		
-			if ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
+
+			fetch(buffer_end, buffer_size - keep);
+			if (buffer_end == buffer + keep)
 				{
 				/*
-					Most probably end of file.
+					End of file.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
-			buffer_used = document_start_tag.size();
 			}
 
 		/*
 			Find the end tag
 		*/
 		uint8_t *document_end;
-		if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
+		while ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
 			{
 			/*
 				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We play the 
@@ -124,9 +123,11 @@ namespace JASS
 			*/
 			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
 			buffer_end -= document_start - buffer;
-			fetch(buffer_end, buffer_size - (buffer_end - buffer));
+			buffer_used = 0;
 			document_start = buffer;
-			if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
+			size_t had = buffer_end - buffer;
+			fetch(buffer_end, buffer_size - had);
+			if (buffer_end == buffer + had)
 				{
 				/*
 					We are either at end of file of have a document that is too large to index (so pretend EOF)
-- 
2.43.0


From 8da58d3116a95791f4bab300ce88419543f9e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 55/96] fix: a TREC primary key of only spaces was given a
 negative length

---
 source/instream_document_trec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index 2391303..badca20 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -152,9 +152,9 @@ namespace JASS
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
-			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
+			while (document_id_start < document_id_end && isspace(*document_id_start))			// trim early whitespace
 				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (document_id_end > document_id_start && isspace(*(document_id_end - 1)))				// trip trailing whitespace
 				document_id_end--;
 			}
 
-- 
2.43.0


From d4094c03732fd27a76fadcb5bb8170680cfe79d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 56/96] fix: FASTA sequences after a short read were cut short
 or lost, and a stream ending in > never ended

---
 source/instream_document_fasta.cpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index ff8990f..49cfc30 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -67,28 +67,22 @@ namespace JASS
 			Find the start of the document
 		*/
 		uint8_t *document_start;
-		if ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
+		while ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
 			{
 			/*
-				We might be at the end of a buffer and half-way through a tag so we copy the remainder of the file to the
-				start of the buffer and fill the remainder.
+				There is no document in the buffer so re-fill it.
 			*/
-			memmove(buffer, unread_data, buffer_size - buffer_used);
-			buffer_end -= buffer_used;
 			buffer_used = 0;
-			
-			fetch(buffer_end, buffer + buffer_size - buffer_end);
 			unread_data = buffer;
-		
-			if ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
+			fetch(buffer, buffer_size);
+			if (buffer_end == buffer)
 				{
 				/*
-					Most probably end of file.
+					End of file.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
-			buffer_used = 1;
 			}
 
 		/*
@@ -96,7 +90,8 @@ namespace JASS
 		*/
 		uint8_t *document_end;
 		static const char *end_of_document_marker = "\n>";
-		if ((document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2)) == buffer_end)
+		bool at_end = false;
+		while (!at_end && (document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2)) == buffer_end)
 			{
 			/*
 				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We play the 
@@ -104,15 +99,15 @@ namespace JASS
 			*/
 			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
 			buffer_end -= document_start - buffer;
-			fetch(buffer_end, buffer_size - (buffer_end - buffer));
 			document_start = buffer;
-			document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2);
-			if (document_end == buffer_end)
-				document_end--;
+			size_t had = buffer_end - buffer;
+			fetch(buffer_end, buffer_size - had);
+			at_end = buffer_end == buffer + had;			// the last document continues to the end of the file.
 			}
 
+		if (!at_end)
+			document_end++;		// because the end of line marker matters (believe it or not!).
 		buffer_used = document_end - buffer;		// skip to end of the document
-		document_end++;		// because the end of line marker matters (believe it or not!).
 
 		/*
 			Extract the document's primary key.
-- 
2.43.0


From 1be1a03a1290e3ace9506693471aa7edca895c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 57/96] fix: a FASTA header that ends the file included the
 byte after it

---
 source/instream_document_fasta.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index 49cfc30..e3e481c 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -105,7 +105,9 @@ namespace JASS
 			at_end = buffer_end == buffer + had;			// the last document continues to the end of the file.
 			}
 
-		if (!at_end)
+		if (at_end)
+			document_end = buffer_end;
+		else
 			document_end++;		// because the end of line marker matters (believe it or not!).
 		buffer_used = document_end - buffer;		// skip to end of the document
 
@@ -116,13 +118,13 @@ namespace JASS
 		uint8_t *document_id_start = std::find(document_start, document_end, '>');
 		if (document_id_start != document_end)
 			{
-			document_id_end = std::find(document_id_start + 1, document_end, '\n') + 1;
+			document_id_end = std::find(document_id_start + 1, document_end, '\n');
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
-			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
+			while (document_id_start < document_id_end && isspace(*document_id_start))			// trim early whitespace
 				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (document_id_end > document_id_start && isspace(*(document_id_end - 1)))				// trip trailing whitespace
 				document_id_end--;
 			}
 
@@ -130,7 +132,7 @@ namespace JASS
 			Copy the id into the document object and get the document
 		*/
 		object.contents = slice(object.contents_allocator, document_start, document_end);
-		if (document_id_end == document_end)
+		if (document_id_start == document_end)
 			object.primary_key = slice(object.primary_key_allocator, "Unknown");
 		else
 			object.primary_key = slice(object.primary_key_allocator, document_id_start, document_id_end);
-- 
2.43.0


From a713138b7e2ffb3a95ea0b05c67757a6338fff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 58/96] fix: only the first of the streams in a .gz file was
 read

---
 source/instream_deflate.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/instream_deflate.cpp b/source/instream_deflate.cpp
index 200b12b..e552a4a 100644
--- a/source/instream_deflate.cpp
+++ b/source/instream_deflate.cpp
@@ -68,6 +68,25 @@ namespace JASS
 
 		if (state == Z_STREAM_END)
 			{
+			/*
+				A .gz file can be several compressed streams one after another, in which case continue with the next.
+			*/
+			if (stream.avail_in == 0)
+				{
+				stream.avail_in = (uInt)source->fetch(buffer, buffer_length);
+				stream.next_in = buffer;
+				}
+			if (stream.avail_in != 0 && stream.next_in[0] == 0x1F)
+				{
+				state = inflateReset(&stream);
+				if (stream.avail_out == 0)
+					{
+					bytes_read += document.contents.size();
+					return;			// filled the output buffer and so return bytes read
+					}
+				continue;
+				}
+
 			got = document.contents.size() - stream.avail_out;		// number of bytes that were decompressed
 			document.contents.resize(got);
 			bytes_read += got;
-- 
2.43.0


From a251ed9ee9d7817caa123b4a8900e033f2791b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 59/96] fix: instream_deflate leaked its buffers, and reported
 failure when asked for nothing

---
 source/instream_deflate.cpp | 3 +++
 source/instream_deflate.h   | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/instream_deflate.cpp b/source/instream_deflate.cpp
index e552a4a..2563d9a 100644
--- a/source/instream_deflate.cpp
+++ b/source/instream_deflate.cpp
@@ -38,6 +38,9 @@ namespace JASS
 	size_t got;
 	int state;
 
+	if (document.contents.size() == 0)
+		return;											// nothing was asked for
+
 	if (buffer == NULL)
 		{
 		buffer = new uint8_t [buffer_length];
diff --git a/source/instream_deflate.h b/source/instream_deflate.h
index ffa8da6..abf8fa2 100644
--- a/source/instream_deflate.h
+++ b/source/instream_deflate.h
@@ -52,7 +52,11 @@ namespace JASS
 			*/
 			virtual ~instream_deflate()
 				{
-				/* Nothing */
+				if (buffer != NULL)
+					{
+					inflateEnd(&stream);
+					delete [] buffer;
+					}
 				}
 
 			/*
-- 
2.43.0


From b978013886e7b00c890040206a2dcc4a9a58a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 60/96] fix: reading to the end of a stream, or failing to read
 a file, gave whatever was in the buffer, for ever

---
 source/instream_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_file.cpp b/source/instream_file.cpp
index 0b27723..6d0b1a7 100644
--- a/source/instream_file.cpp
+++ b/source/instream_file.cpp
@@ -64,8 +64,8 @@ namespace JASS
 	/*
 		Do the read and note how many bytes we're read.
 	*/
-	if (disk_file.read(&document.contents[0], document.contents.size()) > 0)
-		bytes_read += document.contents.size();
+	document.contents.resize(disk_file.read(&document.contents[0], document.contents.size()));			// can be fewer bytes than asked for (e.g. at the end of a pipe)
+	bytes_read += document.contents.size();
 	}
 	
 	/*
-- 
2.43.0


From 4ba04f75b0d090eaae9de5d138e23233385c5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 61/96] fix: files in a directory whose name contains .gz
 anywhere were all taken for compressed files

---
 source/instream_directory_iterator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_directory_iterator.cpp b/source/instream_directory_iterator.cpp
index 98a07cd..d0d37be 100644
--- a/source/instream_directory_iterator.cpp
+++ b/source/instream_directory_iterator.cpp
@@ -39,7 +39,7 @@ namespace JASS
 				{
 //puts(current->path().string().c_str());
 				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
-				if (current->path().string().rfind(".gz") != std::string::npos)
+				if (current->path().extension() == ".gz")
 					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
 				current++;
 				}
@@ -67,7 +67,7 @@ namespace JASS
 				{
 //puts(current->path().string().c_str());
 				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
-				if (current->path().string().rfind(".gz") != std::string::npos)
+				if (current->path().extension() == ".gz")
 					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
 				current++;
 				}
-- 
2.43.0


From 1dae4410e9aeebdd1f9da784d8f8a73cab399e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 62/96] fix: reading from an empty directory crashed

---
 source/instream_directory_iterator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/instream_directory_iterator.cpp b/source/instream_directory_iterator.cpp
index d0d37be..7668c13 100644
--- a/source/instream_directory_iterator.cpp
+++ b/source/instream_directory_iterator.cpp
@@ -35,7 +35,13 @@ namespace JASS
 			Is this the first time this method is called?
 		*/
 		if (reader == nullptr)
-			if (current != last)
+			{
+			if (current == last)
+				{
+				document.contents = slice();
+				return;				// there are no files in the directory
+				}
+			else
 				{
 //puts(current->path().string().c_str());
 				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
@@ -43,6 +49,7 @@ namespace JASS
 					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
 				current++;
 				}
+			}
 
 		/*
 			Now we can get data from the reader and return it, after making sure we're not at EOF.
-- 
2.43.0


From 97db9b3713bdbd64302013581167325fc2fd7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 63/96] fix: the line after a WARC header line of exactly the
 length of the buffer was ignored

---
 source/instream_document_warc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index c2606d7..6ec2c68 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -40,6 +40,7 @@ namespace JASS
 						return nullptr;		// at EOF
 					}
 				while (*into != '\n' && into < end);
+				bool overflow = *into != '\n';
 				*into = '\0';
 
 				/*
@@ -48,12 +49,13 @@ namespace JASS
 					in documents such as clueweb09-en0000-05-10880 which as a 1486 character WARC-Target-URI!  It also won't
 					affect the string comparison because we're only comparing to the start of the string.
 				*/
-				if (into == end)
+				if (overflow)
 					{
 					do
 						if (source->fetch(into, 1) != 1)
 							return nullptr;		// at EOF
 					while (*into != '\n');
+					*into = '\0';
 					continue;		// don't do the string compare because we're out of sync
 					}
 				}
-- 
2.43.0


From 0ec322a25f2db24be8275c513b2748c7231a7594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 64/96] fix: primary keys from WARC files with the \r\n line
 ends of the standard ended in \r

---
 source/instream_document_warc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index 6ec2c68..300e3cd 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -88,8 +88,11 @@ namespace JASS
 			*/
 			while (ascii::isspace(*filename))
 				filename++;
+			size_t filename_length = strlen(filename);
+			while (filename_length > 0 && ascii::isspace(filename[filename_length - 1]))		// lines in WARC files end in "\r\n"
+				filename_length--;
 
-			object.primary_key = slice(object.primary_key_allocator, filename, filename + strlen(filename));
+			object.primary_key = slice(object.primary_key_allocator, filename, filename + filename_length);
 
 			/*
 				Get and store the document length
-- 
2.43.0


From d7d09d6120beb9a6e4ba01b37b3e1af6b3b38f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 65/96] fix: WARC documents after a short read included
 whatever was in memory

---
 source/instream_document_warc.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index 300e3cd..85c9fdc 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -105,9 +105,15 @@ namespace JASS
 				size_t length = atoll(file_length);
 				char *document = reinterpret_cast<char *>(object.contents_allocator.malloc(length + 1));
 
-				source->fetch(document, length);
-				document[length] = '\0';
-				object.contents = slice(document, document + length);
+				/*
+					Read the document, which might arrive in parts, and might be cut short by the end of the file
+				*/
+				size_t got = 0;
+				size_t bytes;
+				while (got < length && (bytes = source->fetch(document + got, length - got)) != 0)
+					got += bytes;
+				document[got] = '\0';
+				object.contents = slice(document, document + got);
 				}
 			}
 		}
-- 
2.43.0


From 6d2e0889868676bd70d2a6f6e7f58fd884303d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:46 +0000
Subject: [PATCH 66/96] fix: the uniCOIL reader overflowed its buffer on long
 documents, searched outside it for missing markers, and kept the }} of a last
 document without a newline

---
 source/instream_document_unicoil_json.cpp | 134 ++++++++--------------
 1 file changed, 49 insertions(+), 85 deletions(-)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index d6f29d3..0193b09 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -24,106 +24,69 @@ namespace JASS
 	*/
 	void instream_document_unicoil_json::read(document &object)
 		{
-		const char *doc_start = nullptr;
-		const char *docid_start = nullptr;
-		const char *docid_end = nullptr;
-		const char *doc_end = nullptr;
-
-		/*
-			Check for EOF
-		*/
-		if (buffer_end < buffer_start)
-			{
-			object.primary_key = object.contents = slice();
-			return;
-			}
+		const char *doc_start;
+		const char *doc_end;
 
 		/*
 			Get the document start and end
 		*/
-		do
+		while (true)
 			{
 			doc_start = std::search(buffer_start, buffer_end, start_of_document, start_of_document + 6);
-			doc_end = std::search(buffer_start, buffer_end, end_of_document, end_of_document + 3);
+			doc_end = std::search(doc_start, buffer_end, end_of_document, end_of_document + 3);
+			if (doc_end != buffer_end)
+				break;
+
+			/*
+				The end of the document isn't in the buffer.  So move what we have of the document (or what might be the first few bytes
+				of its start) to the start of the buffer.
+			*/
+			bool started = doc_start != buffer_end;
+			const char *keep = started ? doc_start : buffer_end - std::min((size_t)(buffer_end - buffer_start), (size_t)5);
+			size_t bytes_in_use = buffer_end - keep;
+			memmove(&buffer[0], keep, bytes_in_use);
+
+			/*
+				Double the size of the buffer if the document already fills it
+			*/
+			if (bytes_in_use == buffer_size)
+				{
+				buffer_size += buffer_size;
+				buffer.resize(buffer_size);
+				}
 
-			if (doc_end == buffer_end)
+			/*
+				Now fill the remainder of the buffer
+			*/
+			buffer_start = &buffer[0];
+			buffer_end = buffer_start + bytes_in_use;
+			size_t bytes = source->fetch(&buffer[bytes_in_use], buffer_size - bytes_in_use);
+			buffer_end += bytes;
+
+			/*
+				At EOF
+			*/
+			if (bytes == 0)
 				{
-				/*
-					Two possibilities, one is that the buffer is too small, the other is that we've reached the end of the buffer and so need to read more.
-				*/
-				if (buffer_start == &buffer[0])
-					{
-					/*
-						The buffer is too small so extend it
-					*/
-					size_t bytes_in_use = buffer_end - buffer_start;
-					size_t bytes_remaining = buffer_size - bytes_in_use;
-
-					if (bytes_in_use != 0)
-						{
-						/*
-							Double the size of the buffer if its got data in it - because its too small.
-						*/
-						size_t gap = doc_start - buffer_start;
-						buffer_size += buffer_size;
-						buffer.resize(buffer_size);		// create space and move the old contents into the new space
-						buffer_start = &buffer[0];
-						buffer_end = &buffer[0] + bytes_in_use;
-						doc_start = &buffer[0] + gap;
-
-						bytes_remaining += buffer_size;
-						}
-
-					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-					doc_end = buffer_end += bytes;
-
-					/*
-						At EOF
-					*/
-					if (bytes == 0)
-						{
-						if (doc_start != nullptr)
-							{
-							doc_end = buffer_end;			// the last document might not end in a '\n'.
-							if (doc_end != doc_start)
-								break;							// the last document isn't empty
-							}
-
-						object.primary_key = object.contents = slice();
-						return;
-						}
-					}
-				else
+				if (!started)
 					{
-					/*
-						We're not at the start of the buffer so move the remaining data and go to the start of the buffer
-					*/
-					doc_start -= buffer_start - &buffer[0];
-					memmove(&buffer[0], buffer_start, buffer_end - buffer_start);
-					size_t bytes_in_use = buffer_end - buffer_start;
-					size_t bytes_remaining = buffer_size - bytes_in_use;
-					buffer_start = &buffer[0];
-					doc_end = buffer_end = buffer_start + bytes_in_use;
-
-					/*
-						Now fill the remainder of the buffer
-					*/
-					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-					doc_end = buffer_end += bytes;
+					object.primary_key = object.contents = slice();
+					return;
 					}
+				doc_start = buffer_start;
+				doc_end = std::find_end(doc_start, buffer_end, end_of_document, end_of_document + 2);			// the last document might not end in a '\n'.
+				break;
 				}
 			}
-		while (doc_end == buffer_end);
 
 		/*
 			Get the document primary key
 		*/
-		docid_start = std::search(doc_start, doc_end, document_id_marker, document_id_marker + 7);
-		if (docid_start != nullptr)
-			if ((docid_start = strchr(docid_start + 6, '"')) != nullptr)
-				docid_end = strchr(++docid_start, '"');
+		const char *docid_start = std::search(doc_start, doc_end, document_id_marker, document_id_marker + 7);
+		docid_start += std::min((size_t)(doc_end - docid_start), (size_t)7);
+		const char *docid_end = std::find(docid_start, doc_end, '"');
 
-		if (docid_end == buffer_end)
+		if (docid_end == doc_end)
 			{
 			static const char *none = "AnonymousDocument";
 			object.primary_key = slice(object.primary_key_allocator, none, none + strlen(none));
@@ -134,10 +97,11 @@ namespace JASS
 		/*
 			Get and store the document. In this case we're only looking for the data marked "vector"
 		*/
-		doc_start = std::search(doc_start, doc_end, vector_marker, vector_marker + 11) + 11;
+		doc_start = std::search(doc_start, doc_end, vector_marker, vector_marker + 11);
+		doc_start += std::min((size_t)(doc_end - doc_start), (size_t)11);
 		object.contents = slice(object.contents_allocator, doc_start, doc_end);
 		
-		buffer_start = doc_end +2;
+		buffer_start = doc_end + std::min((size_t)(buffer_end - doc_end), (size_t)2);
 		}
 
 	/*
-- 
2.43.0


From 8f4446505bbe54066ccba970229e995dec1018e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:46 +0000
Subject: [PATCH 67/96] fix: indexing stopped at the first document without
 contents, and ignored those after it

---
 tools/JASS_index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/JASS_index.cpp b/tools/JASS_index.cpp
index 7594427..9342a71 100644
--- a/tools/JASS_index.cpp
+++ b/tools/JASS_index.cpp
@@ -279,7 +279,7 @@ int main(int argc, const char *argv[])
 			get the next document
 		*/
 		source->read(document);
-		if (document.isempty())
+		if (document.isempty() && document.primary_key.size() == 0)			// at end of input (a document can have no contents)
 			break;
 
 		total_documents++;
@@ -335,7 +335,7 @@ int main(int argc, const char *argv[])
 		*/
 		index.end_document(document_length + (parameter_atire_similar ? 1 : 0));
 		}
-	while (!document.isempty());
+	while (true);
 
 	auto time_to_end_parse = JASS::timer::stop(timer).nanoseconds();
 
-- 
2.43.0


From 1787888376b362d2ed37a0298f13d136707a1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:57 +0000
Subject: [PATCH 68/96] fix: k-mers were read past the end of the sequence,
 overflowed the token, were repeated after other characters, lost (the last of
 length 1), and took the type of the last token of the header

---
 source/parser_fasta.cpp | 81 ++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 50 deletions(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index ee17fdc..5e358a7 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -23,66 +23,47 @@ namespace JASS
 	*/
 	const class parser::token &parser_fasta::get_next_token_dna(void)
 		{
-		/*
-			Skip over any leading spaces
-		*/
-		while (!ascii::isDNAbase(*current))
-			current++;
+		current_token.type = token::alpha;			// regardless of the type of the last token of the header
+		while (true)
+			{
+			/*
+				Skip to the next base.
+			*/
+			while (current < end_of_document && !ascii::isDNAbase(*current))
+				current++;
 
-		/*
-			Make sure we don't read past end of document
-		*/
-		if (current >= end_of_document)
-			return eof_token;
+			/*
+				Make sure we don't read past end of document
+			*/
+			if (current >= end_of_document)
+				return eof_token;
 
-		/*
-			Find the next k-mer.  If we encounter whitespace then we throw away the whitespace.
-			As a valid k-mer can only contain DNA bases, if we encounter a symbol that is invalid we skip that token and start at the next DNA base pair.
-		*/
-		uint8_t *buffer_pos = current_token.buffer;
-		const uint8_t *from = current++;
-		size_t byte = 0;
-		while (byte < kmer_length && from < end_of_document)
-			{
 			/*
-				Construct a single k-mer failing if we find a non-base character
+				Find the next k-mer.  If we encounter whitespace then we throw away the whitespace.
+				As a valid k-mer can only contain DNA bases, if we encounter a symbol that is invalid we start again at the next DNA base.
 			*/
-			byte = 0;
-			buffer_pos = current_token.buffer;
-			while (byte < kmer_length && from < end_of_document)
+			uint8_t *buffer_pos = current_token.buffer;
+			uint8_t *buffer_end = current_token.buffer + sizeof(current_token.buffer);
+			const uint8_t *from = current++;
+			size_t byte = 0;
+			while (byte < kmer_length && from < end_of_document && (ascii::isDNAbase(*from) || ascii::isspace(*from)))
 				{
-				if (ascii::isspace(*from))
-					from++;								// skip over spaces
-				else if (ascii::isDNAbase(*from))
+				if (ascii::isDNAbase(*from))
 					{
-					/*
-						Valid DNA bases get added to the token
-					*/
-					*buffer_pos++ = ascii::tolower(*from++);
+					if (buffer_pos < buffer_end)
+						*buffer_pos++ = ascii::tolower(*from);				// won't write on overflow
 					byte++;
 					}
-				else
-					{
-					/*
-						Not a valid DNA base so start the token at the next chacter and the one after that (current) at the character after that.
-					*/
-					current = (++from) + 1;
-					break;
-					}
+				from++;
 				}
-			}
-
-		/*
-			Do we have enough characters to for a k-mer (or are we at EOF)?
-		*/
-		if (current >= end_of_document || byte != kmer_length)
-			return eof_token;
 
-		/*
-			Return the k-mer as a token.
-		*/
-		current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
-		return current_token;
+			if (byte == kmer_length)
+				{
+				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
+				return current_token;
+				}
+			current = from;
+			}
 		}
 
 	/*
-- 
2.43.0


From c9b60c8b98fd07234d2c89ac36b11d142a7693f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:57 +0000
Subject: [PATCH 69/96] fix: unfinished markup in a FASTA header lost the first
 few bases of the sequence

---
 source/parser_fasta.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser_fasta.h b/source/parser_fasta.h
index c59029b..5a6396b 100644
--- a/source/parser_fasta.h
+++ b/source/parser_fasta.h
@@ -134,6 +134,7 @@ namespace JASS
 					if (got.type == token::token_type::eof)
 						{
 						mode = DNA;
+						current = end_of_document;					// the end of the header, which unfinished markup takes us past
 						end_of_document = end_of_fasta_document;		// shift to the end of document being the end of the FASTA document not just the end of the text.
 						return get_next_token_dna();
 						}
-- 
2.43.0


From 7fed24b0fcc4817ec8c7182d1f2aa79f683e0b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:24 +0000
Subject: [PATCH 70/96] fix: text after the last weight in a uniCOIL document
 gave a token without a name

---
 source/parser_unicoil_json.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index da19741..2a43912 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -99,6 +99,9 @@ namespace JASS
 					current++;
 					}
 
+				if (current >= end_of_document)
+					return eof_token;					// there are no more terms
+
 				current++;
 
 				/*
-- 
2.43.0


From 630034d556d2f83b7d15316826025728ba926176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:24 +0000
Subject: [PATCH 71/96] fix: a backslash at the end of a uniCOIL document read
 past it

---
 source/parser_unicoil_json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index 2a43912..1a7daac 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -109,7 +109,7 @@ namespace JASS
 				*/
 				while (current < end_of_document)
 					{
-					if (*current == '\\')
+					if (*current == '\\' && current + 1 < end_of_document)
 						{
 						if (buffer_pos < buffer_end)
 							*buffer_pos++ = *current;
-- 
2.43.0


From eb73383405816c65a028e92b144deadc4865f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:24 +0000
Subject: [PATCH 72/96] fix: uniCOIL weights over 65535 were taken to be that
 of the term before

---
 source/parser_unicoil_json.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index 1a7daac..eeb39b3 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -22,6 +22,7 @@
 */
 #pragma once
 
+#include <limits>
 #include <charconv>
 
 #include "ascii.h"
@@ -148,14 +149,17 @@ namespace JASS
 				*/
 				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 				current_token.type = token::alpha;
-				std::from_chars((char *)count_start, (char *)count_finish, current_token.count);
+				size_t count = 0;
+				if (std::from_chars((char *)count_start, (char *)count_finish, count).ec == std::errc::result_out_of_range)
+					count = (std::numeric_limits<size_t>::max)();
 
-				if (current_token.count > index_postings_impact::largest_impact)
+				if (count > index_postings_impact::largest_impact)
 					{
 					std::cout << current_token.lexeme;
-					std::cout << " " << current_token.count << "\n";
-					current_token.count = index_postings_impact::largest_impact;
+					std::cout << " " << count << "\n";
+					count = index_postings_impact::largest_impact;
 					}
+				current_token.count = (index_postings_impact::impact_type)count;
 
 				return current_token.count > 0 ? current_token : get_next_token();
 				}
-- 
2.43.0


From d3a03167bd6b9671c6f1dbc454cf74fb29c12722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 73/96] fix: many uniCOIL terms of weight 0 in a row overflowed
 the stack

---
 source/parser_unicoil_json.h | 140 ++++++++++++++++++-----------------
 1 file changed, 72 insertions(+), 68 deletions(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index eeb39b3..0f7a747 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -78,90 +78,94 @@ namespace JASS
 			*/
 			virtual const class parser::token &get_next_token(void)
 				{
-				/*
-					Check for EOF
-				*/
-				if (current >= end_of_document)
-					return eof_token;
-
-				/*
-					Set up the parser
-				*/
-				uint8_t *buffer_pos = current_token.buffer;
-				uint8_t *buffer_end = current_token.buffer + sizeof(current_token.buffer);
-
-				/*
-					Find the term
-				*/
-				while (current < end_of_document)
+				do
 					{
-					if (*current == '"')
-						break;
-					current++;
-					}
+					/*
+						Check for EOF
+					*/
+					if (current >= end_of_document)
+						return eof_token;
+
+					/*
+						Set up the parser
+					*/
+					uint8_t *buffer_pos = current_token.buffer;
+					uint8_t *buffer_end = current_token.buffer + sizeof(current_token.buffer);
+
+					/*
+						Find the term
+					*/
+					while (current < end_of_document)
+						{
+						if (*current == '"')
+							break;
+						current++;
+						}
 
-				if (current >= end_of_document)
-					return eof_token;					// there are no more terms
+					if (current >= end_of_document)
+						return eof_token;					// there are no more terms
 
-				current++;
+					current++;
 
-				/*
-					Copy the term to the token buffer
-				*/
-				while (current < end_of_document)
-					{
-					if (*current == '\\' && current + 1 < end_of_document)
+					/*
+						Copy the term to the token buffer
+					*/
+					while (current < end_of_document)
 						{
+						if (*current == '\\' && current + 1 < end_of_document)
+							{
+							if (buffer_pos < buffer_end)
+								*buffer_pos++ = *current;
+							current++;				// escaped characters in JSON
+							}
+						else if (*current == '"')
+							break;
 						if (buffer_pos < buffer_end)
 							*buffer_pos++ = *current;
-						current++;				// escaped characters in JSON
+						current++;
 						}
-					else if (*current == '"')
-						break;
-					if (buffer_pos < buffer_end)
-						*buffer_pos++ = *current;
-					current++;
-					}
 
-				/*
-					Find the term count
-				*/
-				while (current < end_of_document)
-					{
-					if (ascii::isdigit(*current))
-						break;
-					current++;
-					}
+					/*
+						Find the term count
+					*/
+					while (current < end_of_document)
+						{
+						if (ascii::isdigit(*current))
+							break;
+						current++;
+						}
 
-				const uint8_t *count_start = current;
+					const uint8_t *count_start = current;
 
-				while (current < end_of_document)
-					{
-					if (!ascii::isdigit(*current))
-						break;
-					current++;
-					}
+					while (current < end_of_document)
+						{
+						if (!ascii::isdigit(*current))
+							break;
+						current++;
+						}
 
-				const uint8_t *count_finish = current;
+					const uint8_t *count_finish = current;
 
-				/*
-					Construct a token object
-				*/
-				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
-				current_token.type = token::alpha;
-				size_t count = 0;
-				if (std::from_chars((char *)count_start, (char *)count_finish, count).ec == std::errc::result_out_of_range)
-					count = (std::numeric_limits<size_t>::max)();
+					/*
+						Construct a token object
+					*/
+					current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
+					current_token.type = token::alpha;
+					size_t count = 0;
+					if (std::from_chars((char *)count_start, (char *)count_finish, count).ec == std::errc::result_out_of_range)
+						count = (std::numeric_limits<size_t>::max)();
 
-				if (count > index_postings_impact::largest_impact)
-					{
-					std::cout << current_token.lexeme;
-					std::cout << " " << count << "\n";
-					count = index_postings_impact::largest_impact;
+					if (count > index_postings_impact::largest_impact)
+						{
+						std::cout << current_token.lexeme;
+						std::cout << " " << count << "\n";
+						count = index_postings_impact::largest_impact;
+						}
+					current_token.count = (index_postings_impact::impact_type)count;
 					}
-				current_token.count = (index_postings_impact::impact_type)count;
+				while (current_token.count == 0);			// terms with a weight of 0 aren't in the document
 
-				return current_token.count > 0 ? current_token : get_next_token();
+				return current_token;
 				}
 
 			/*
-- 
2.43.0


From 10cf6c68c6e468a8c10906bd9e87c3785a18cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:25 +0000
Subject: [PATCH 74/96] fix: file reports what it read and wrote

file::write() returned 1 whatever was written, flush() ignored a failed write,
writing to (or reading from) a file that could not be opened crashed, and a short
read() moved tell() by the number of bytes asked for.
---
 source/file.h | 58 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/source/file.h b/source/file.h
index c477629..ba5d6fa 100755
--- a/source/file.h
+++ b/source/file.h
@@ -122,6 +122,7 @@ namespace JASS
 			std::unique_ptr<uint8_t []> buffer;	///< Internal file buffer
 			size_t bytes_written;				///< Number of bytes written to this file.
 			size_t bytes_read;					///< Number of bytes read from this file.
+			bool write_failed;					///< True once a write to this file has failed.
 
 		public:
 			/*
@@ -148,7 +149,8 @@ namespace JASS
 				buffer_used(0),
 				buffer(std::make_unique<uint8_t []>(buffer_size)),
 				bytes_written(0),
-				bytes_read(0)
+				bytes_read(0),
+				write_failed(false)
 				{
 				/* Nothing */
 				}
@@ -230,19 +232,22 @@ namespace JASS
 			*/
 			/*!
 				@brief Flush the internal buffers to disk (called automatically on close).
+				@return true on success, false if any write to this file has failed.
 			*/
-			void flush(void)
+			bool flush(void)
 				{
 				if (buffer_used > 0)
 					{
 					/*
-						All physical output to the disk happens with this one line of code.  If this is
+						All physical output to the disk happens with these lines of code.  If this is
 						done with blocking I/O then this causes a bottleneck as we wait for the OS
 						to write to disk.
 					*/
-					::fwrite(buffer.get(), 1, buffer_used, fp);
+					if (::fwrite(buffer.get(), 1, buffer_used, fp) != buffer_used || ::fflush(fp) != 0)
+						write_failed = true;
 					buffer_used = 0;
 					}
+				return !write_failed;
 				}
 
 			/*
@@ -257,10 +262,8 @@ namespace JASS
 			*/
 			size_t read(void *data, size_t size)
 				{
-				/*
-					Keep track of the number of bytes we've been asked to write
-				*/
-				bytes_read += size;
+				if (fp == nullptr)
+					return 0;
 
 				/*
 					Flush the write cache
@@ -268,14 +271,17 @@ namespace JASS
 				flush();
 
 				/*
-					Take note of the new file position (at the end of the read)
+					Perform the read
 				*/
-				file_position += size;		// this is where we'll be at the end of the read
+				size_t got = ::fread(data, 1, size, fp);
 
 				/*
-					And now perform the read
+					Keep track of the number of bytes we've read and where that has left us in the file
 				*/
-				return ::fread(data, 1, size, fp);
+				bytes_read += got;
+				file_position += got;
+
+				return got;
 				}
 
 			/*
@@ -291,7 +297,7 @@ namespace JASS
 				/*
 					Read from the file
 				*/
-				size_t bytes_read = read(&buffer[0], buffer.size());
+				size_t bytes_read = read(buffer.data(), buffer.size());
 
 				/*
 					If we got a short read then resize the buffer to signal back to the caller that we failed to read (probably EOF).
@@ -316,16 +322,10 @@ namespace JASS
 				{
 				uint8_t *from;
 				size_t block_size;
+				size_t taken = 0;
 
-				/*
-					Keep track of the total number of bytes we've been asked to write to the file
-				*/
-				bytes_written += size;
-
-				/*
-					Update the file pointer
-				*/
-				file_position += size;
+				if (fp == nullptr)
+					return 0;
 
 				if (buffer_used + size < buffer_size)
 					{
@@ -334,6 +334,7 @@ namespace JASS
 					*/
 					memcpy(buffer.get() + buffer_used, data, (size_t)size);
 					buffer_used += size;
+					taken = size;
 					}
 				else
 					{
@@ -344,16 +345,25 @@ namespace JASS
 					from = (uint8_t *)data;
 					do
 						{
-						flush();
+						if (!flush())
+							break;
 						block_size = size <= buffer_size ? size : buffer_size;
 						memcpy(buffer.get(), from, (size_t)block_size);
 						buffer_used += block_size;
 						from += block_size;
 						size -= block_size;
+						taken += block_size;
 						}
 					while (size > 0);
 					}
-				return 1;
+
+				/*
+					Keep track of the total number of bytes we've written to the file, and update the file pointer
+				*/
+				bytes_written += taken;
+				file_position += taken;
+
+				return taken;
 				}
 
 			/*
-- 
2.43.0


From c9b8a212b8988e54e63af0ee8419c440e129ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:25 +0000
Subject: [PATCH 75/96] fix: a failed file::seek() does not move the file
 position

and seeking in a file that could not be opened throws rather than crashes.
---
 source/file.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/file.h b/source/file.h
index ba5d6fa..7d23fdf 100755
--- a/source/file.h
+++ b/source/file.h
@@ -423,21 +423,21 @@ namespace JASS
 					Seek
 				*/
 				#ifdef _MSC_VER
-					auto error = _fseeki64(fp, offset, SEEK_SET);
+					auto error = fp == nullptr ? -1 : _fseeki64(fp, offset, SEEK_SET);
 				#else
-					auto error = fseeko(fp, offset, SEEK_SET);
+					auto error = fp == nullptr ? -1 : fseeko(fp, offset, SEEK_SET);
 				#endif
 
-				/*
-					Store the file file position
-				*/
-				file_position = offset;
-
 				/*
 					if error is non-zero then seek failed - which if a fatal error.
 				*/
 				if (error != 0)
 					throw std::out_of_range("file::seek() failure");		// LCOV_EXCL_LINE	// This is highly unlikely to happen - its not clear why seek() can fail.
+
+				/*
+					Store the file file position
+				*/
+				file_position = offset;
 				}
 
 			/*
-- 
2.43.0


From 5b7bcf41dc8eef7f78e454a0456c5012f9e91fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 76/96] fix: file::read_entire_file() of a file that cannot be
 read gives nothing

It left the previous contents of the string for a missing or empty file, and returned
the length of the file (rather than 0) when the read failed.
---
 source/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/file.cpp b/source/file.cpp
index 3da6653..a6a410c 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -147,6 +147,8 @@ namespace JASS
 #endif
 		size_t file_length = 0;			// length of the file in bytes
 
+		into.resize(0);
+
 		/*
 			Fopen() the file then fstat() it.  The alternative is to stat() then fopen() - but that is wrong because the file might change between the two calls.
 		*/
@@ -161,7 +163,7 @@ namespace JASS
 					{
 					into.resize(file_length);
 					if (fread(&into[0], details.st_size, 1, fp) != 1)
-						into.resize(0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
+						into.resize(file_length = 0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
 					}
 			fclose(fp);
 			}
-- 
2.43.0


From b373da5a6a9264c0262f51e10a9395935a8e5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 77/96] fix: file::write_entire_file() reports what happened

Writing an empty string was reported as a failure, and a failure to write the data
buffered by the C library (such as a full disk) was reported as success.
---
 source/file.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index a6a410c..bafab9b 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -185,11 +185,15 @@ namespace JASS
 		if ((fp = fopen(filename.c_str(), "wb")) == nullptr)
 			return false;
 
-		size_t success = fwrite(&buffer[0], buffer.size(), 1, fp);
+		bool success = fwrite(&buffer[0], 1, buffer.size(), fp) == buffer.size();
 
-		fclose(fp);
+		/*
+			The buffered data might not have been written until now
+		*/
+		if (fclose(fp) != 0)
+			success = false;
 
-		return success == 1 ? true : false;
+		return success;
 		}
 
 	/*
-- 
2.43.0


From 5cf23133c1d911178d1ab3d0fd9fabc7d79bc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 78/96] fix: channel_file::block_write() returns the number of
 bytes written

and does not crash when the file cannot be opened.
---
 source/channel_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/channel_file.cpp b/source/channel_file.cpp
index b116412..f29f7ed 100644
--- a/source/channel_file.cpp
+++ b/source/channel_file.cpp
@@ -59,12 +59,14 @@ namespace JASS
 	if (outfile == nullptr)
 		{
 		outfile = ::fopen(filename.c_str(), "a+b");
+		if (outfile == nullptr)
+			return 0;
 		rewind(outfile);
 		}
 	/*
 		write
 	*/
-	return ::fwrite(buffer, length, 1, outfile);
+	return ::fwrite(buffer, 1, length, outfile);
 	}
 
 	/*
-- 
2.43.0


From 2e5ce7a92637cd07a01852e358851c3b5bb517ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 79/96] fix: a TREC topic number is that token alone

The token is not '\0' terminated, so the number could run on into what was left in the
token's buffer by an earlier and longer token.  A <num> without a number on its line crashed.
---
 source/channel_trec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 2f889dd..4d37c75 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -87,7 +87,7 @@ namespace JASS
 								digits = parser.get_next_token();
 							while (digits.type != JASS::parser::token::numeric && digits.type != JASS::parser::token::eof);
 							old_number = number;
-							number = atol(reinterpret_cast<char *>(digits.get().address()));
+							number = digits.type == JASS::parser::token::eof ? 0 : atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str());
 
 							if (old_number >= 0)
 								return construct(into, old_number, answer.str());
-- 
2.43.0


From 4beb9ab6cc4a017867042677cda5687d96eb6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 80/96] fix: a TREC topic file without topics has no topics

It was read as the single topic 18446744073709551615.
---
 source/channel_trec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 4d37c75..d70dcc6 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -126,6 +126,11 @@ namespace JASS
 			}
 
 		at_eof = true;
+		if (number < 0)
+			{
+			into.clear();		// there were no topics
+			return;
+			}
 		return construct(into, number, answer.str());
 		}
 
-- 
2.43.0


From 12addbe9fb0b8fc9fa83f557c869bb2a1dbefda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 81/96] fix: text on the line that starts a TREC topic is part
 of that topic

Other than for the first topic, what followed the <num> (or <topic>) on its line was lost.
---
 source/channel_trec.cpp | 10 ++++++++--
 source/channel_trec.h   |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index d70dcc6..02a0976 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -35,7 +35,6 @@ namespace JASS
 		{
 		int64_t old_number;
 		std::ostringstream raw_query;
-		parser parser;
 		std::ostringstream answer;
 
 		if (at_eof)
@@ -52,8 +51,9 @@ namespace JASS
 				in_channel->gets(buffer);
 				if (buffer.size() == 0)
 					break;		// at end of input
+				parser.set_document(buffer);
 				}
-			parser.set_document(buffer);
+			read = true;
 
 			bool finished = false;
 			const char *token_start;
@@ -90,7 +90,10 @@ namespace JASS
 							number = digits.type == JASS::parser::token::eof ? 0 : atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str());
 
 							if (old_number >= 0)
+								{
+								read = false;		// the rest of the line is part of the next topic
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && strncmp(token_start, "topic", 5) == 0)
 							{
@@ -107,7 +110,10 @@ namespace JASS
 									}
 
 							if (old_number >= 0)
+								{
+								read = false;		// the rest of the line is part of the next topic
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && (strncmp(token_start, "query", 5) == 0) && (tag.find('q') != std::string::npos))
 								match = true;			// ClueWeb
diff --git a/source/channel_trec.h b/source/channel_trec.h
index 1bdde74..ab0e6a8 100644
--- a/source/channel_trec.h
+++ b/source/channel_trec.h
@@ -15,6 +15,7 @@
 
 #include <sstream>
 
+#include "parser.h"
 #include "channel.h"
 
 namespace JASS
@@ -31,6 +32,7 @@ namespace JASS
 		private:
 			std::unique_ptr<channel> in_channel;	///< The channel this channel reads from
 			std::string buffer;							///< Storage of date read from the in_channel
+			JASS::parser parser;							///< The parser of the contents of buffer
 			bool read;										///< Do we need to read from the input channel
 			bool at_eof;									///< Are we at end of input?
 			int64_t number;								///< The topic number of the topic being constructed
-- 
2.43.0


From 90867dda85e529caaf25c81864a021d25859bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:00 +0000
Subject: [PATCH 82/96] fix: the serialisers report a failure to write the
 index

The indexer reported success when (for example) the disk was full.
---
 source/serialise_ci.cpp            | 9 +++++++++
 source/serialise_forward_index.cpp | 9 +++++++++
 source/serialise_integers.h        | 9 ++++++++-
 source/serialise_jass_v1.cpp       | 9 +++++++++
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/source/serialise_ci.cpp b/source/serialise_ci.cpp
index 05ad278..61b4e59 100644
--- a/source/serialise_ci.cpp
+++ b/source/serialise_ci.cpp
@@ -69,6 +69,15 @@ namespace JASS
 		vocab_file.write(length.str());
 
 		primary_key_file.write("};\n");
+
+		/*
+			An index that could not be written in full is of no use
+		*/
+		if (!postings_file.flush() || !postings_header_file.flush() || !vocab_file.flush() || !primary_key_file.flush())
+			{
+			std::cout << "Failed to write the index" << std::endl;
+			exit(1);
+			}
 		}
 
 	/*
diff --git a/source/serialise_forward_index.cpp b/source/serialise_forward_index.cpp
index 18f6c57..af4b425 100644
--- a/source/serialise_forward_index.cpp
+++ b/source/serialise_forward_index.cpp
@@ -56,6 +56,15 @@ namespace JASS
 			outfile.write(one.c_str(), one.size());
 			outfile.write("</DOC>\n", 7);
 			}
+
+		/*
+			An index that could not be written in full is of no use
+		*/
+		if (!outfile.flush())
+			{
+			std::cout << "Failed to write the index" << std::endl;
+			exit(1);
+			}
 		}
 
 	/*
diff --git a/source/serialise_integers.h b/source/serialise_integers.h
index e4e20bc..4f2d8c9 100644
--- a/source/serialise_integers.h
+++ b/source/serialise_integers.h
@@ -65,7 +65,14 @@ namespace JASS
 			*/
 			void finish(void)
 				{
-				/* Nothing */
+				/*
+					An index that could not be written in full is of no use
+				*/
+				if (!postings_file.flush())
+					{
+					std::cout << "Failed to write the index" << std::endl;
+					exit(1);
+					}
 				}
 				
 			/*
diff --git a/source/serialise_jass_v1.cpp b/source/serialise_jass_v1.cpp
index c962f34..3876454 100644
--- a/source/serialise_jass_v1.cpp
+++ b/source/serialise_jass_v1.cpp
@@ -30,6 +30,15 @@ namespace JASS
 			Serialise the primary key offsets and the number of documents in the collection.
 		*/
 		serialise_primary_keys();
+
+		/*
+			An index that could not be written in full is of no use
+		*/
+		if (!vocabulary_strings.flush() || !vocabulary.flush() || !postings.flush() || !primary_keys.flush())
+			{
+			std::cout << "Failed to write the index" << std::endl;
+			exit(1);
+			}
 		}
 
 	/*
-- 
2.43.0


From bea6f351057f00ab2042188774a7c9a23ca24be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:19 +0000
Subject: [PATCH 83/96] fix: writing to a file that could not be opened is a
 failed write

---
 source/file.h               | 3 +++
 source/serialise_integers.h | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/source/file.h b/source/file.h
index 7d23fdf..4d2c54e 100755
--- a/source/file.h
+++ b/source/file.h
@@ -325,7 +325,10 @@ namespace JASS
 				size_t taken = 0;
 
 				if (fp == nullptr)
+					{
+					write_failed = true;
 					return 0;
+					}
 
 				if (buffer_used + size < buffer_size)
 					{
diff --git a/source/serialise_integers.h b/source/serialise_integers.h
index 4f2d8c9..080e0df 100644
--- a/source/serialise_integers.h
+++ b/source/serialise_integers.h
@@ -12,6 +12,10 @@
  */
 #pragma once
 
+#include <stdlib.h>
+
+#include <iostream>
+
 #include "file.h"
 #include "index_manager.h"
 
-- 
2.43.0


From 90eaf8fb97daed58e9306c218af9608ccd136d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 84/96] fix: JASSv1_to_human prints impacts that are larger
 than an accumulator

---
 tools/JASSv1_to_human.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/JASSv1_to_human.cpp b/tools/JASSv1_to_human.cpp
index c6167c7..eccb81d 100755
--- a/tools/JASSv1_to_human.cpp
+++ b/tools/JASSv1_to_human.cpp
@@ -104,11 +104,11 @@ class printer
 		/*!
 			@brief print the posting
 			@param document [in] The document identifier (docid) used internally.
-			@param impact [in] The impact score of this term in this document.
+			@param impact [in] Ignored, it is as wide as an accumulator and impacts can be larger. See set_score().
 		*/
 		void add_rsv(uint64_t document, uint64_t impact)
 			{
-			std::cout << '<' << document << ',' << impact << '>';
+			std::cout << '<' << document << ',' << this->impact << '>';
 			}
 	} ;
 
@@ -144,7 +144,7 @@ void walk_index_v1(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 				uint64_t *postings = (uint64_t *)term.offset + current_segment;
 				const JASS::deserialised_jass_v1::segment_header_on_disk &header = *reinterpret_cast<const JASS::deserialised_jass_v1::segment_header_on_disk *>(index.postings() + *postings);
 
-				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, index.postings() + header.offset, header.end - header.offset);
 				}
 			}
@@ -197,7 +197,7 @@ void walk_index_v2(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 //printf("%02X ", *(current_header_pointer + header.offset + byte));
 //std::cout << "\n";
 
-				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, segment_header_pointer + header.offset, header.end);
 				}
 			}
-- 
2.43.0


From 784c0ecd164b4fcca9329fd95f3b4dfc1875561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 85/96] fix: the compiled index is valid source code whatever
 the terms and primary keys are

---
 source/serialise_ci.cpp | 78 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/source/serialise_ci.cpp b/source/serialise_ci.cpp
index 61b4e59..8c8e37a 100644
--- a/source/serialise_ci.cpp
+++ b/source/serialise_ci.cpp
@@ -15,6 +15,67 @@
 
 namespace JASS
 	{
+	/*
+		FUNCTION_NAME()
+		---------------
+	*/
+	/*!
+		@brief Turn a term into the name of a C++ function.
+		@details Letters and digits are themselves, everything else (including the underscore) is an underscore and 2 hexadecimal digits.
+		@param term [in] The term.
+		@return The name, which is different for each term.
+	*/
+	static std::string function_name(const slice &term)
+		{
+		static const char *digits = "0123456789ABCDEF";
+		std::string answer = "T_";
+
+		for (size_t which = 0; which < term.size(); which++)
+			{
+			uint8_t byte = term[which];
+			if ((byte >= '0' && byte <= '9') || (byte >= 'a' && byte <= 'z') || (byte >= 'A' && byte <= 'Z'))
+				answer.push_back(static_cast<char>(byte));
+			else
+				{
+				answer.push_back('_');
+				answer.push_back(digits[byte >> 4]);
+				answer.push_back(digits[byte & 0x0F]);
+				}
+			}
+
+		return answer;
+		}
+
+	/*
+		STRING_LITERAL()
+		----------------
+	*/
+	/*!
+		@brief Turn a string into a C++ string literal (with its quotes).
+		@param text [in] The string.
+		@return The literal.
+	*/
+	static std::string string_literal(const slice &text)
+		{
+		std::string answer = "\"";
+
+		for (size_t which = 0; which < text.size(); which++)
+			{
+			uint8_t byte = text[which];
+			if (byte < ' ' || byte == 0x7F || byte == '"' || byte == '\\' || byte == '?')
+				{
+				answer.push_back('\\');
+				answer.push_back('0' + (byte >> 6));
+				answer.push_back('0' + ((byte >> 3) & 0x07));
+				answer.push_back('0' + (byte & 0x07));
+				}
+			else
+				answer.push_back(static_cast<char>(byte));
+			}
+
+		return answer + "\"";
+		}
+
 	/*
 		SERIALISE_CI::SERIALISE_CI()
 		----------------------------
@@ -91,7 +152,8 @@ namespace JASS
 		/*
 			Construct the method and write it out
 		*/
-		code << "void T_" << term << "(query_heap &q)\n";
+		std::string function = function_name(term);
+		code << "void " << function << "(query_heap &q)\n";
 		code << "{\n";
 
 		/*
@@ -108,18 +170,12 @@ namespace JASS
 		/*
 			Add this term to the vocabulary
 		*/
-		vocab_file.write("{\"");
-		vocab_file.write(term.address(), term.size());
-		vocab_file.write("\",T_");
-		vocab_file.write(term.address(), term.size());
-		vocab_file.write("},\n");
+		vocab_file.write("{" + string_literal(term) + "," + function + "},\n");
 
 		/*
 			Add to the header file
 		*/
-		postings_header_file.write("void T_");
-		postings_header_file.write(term.address(), term.size());
-		postings_header_file.write("(query_heap &);\n");
+		postings_header_file.write("void " + function + "(query_heap &);\n");
 
 		terms++;
 		}
@@ -130,9 +186,7 @@ namespace JASS
 	*/
 	void serialise_ci::operator()(size_t document_id, const slice &primary_key)
 		{
-		primary_key_file.write("\"");
-		primary_key_file.write(primary_key.address(), primary_key.size());
-		primary_key_file.write("\",\n");
+		primary_key_file.write(string_literal(primary_key) + ",\n");
 		}
 
 	/*
-- 
2.43.0


From e61fcadd662cd9186b06aa685bbe5afa36525190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 86/96] fix: the ciff reader does not read past the last
 document, and stops at one that is not well formed

---
 tools/ciff_lin.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/ciff_lin.h b/tools/ciff_lin.h
index d2b2f17..9f0b072 100644
--- a/tools/ciff_lin.h
+++ b/tools/ciff_lin.h
@@ -578,8 +578,12 @@ namespace JASS
 					docrecords_iterator &operator++()
 						{
 						current.clear();
+						which++;
 
-						if (doc_record::get_next(current, stream) == FAIL)
+						/*
+							There is nothing to read after the last document
+						*/
+						if (which <= static_cast<size_t>(source.ciff_header.num_docs) && doc_record::get_next(current, stream) == FAIL)
 							{
 							/*
 								On error move to the end of the stream and mark the stream as bad
@@ -588,7 +592,6 @@ namespace JASS
 							source.status = FAIL;
 							}
 
-						which++;
 						return *this;
 						}
 
-- 
2.43.0


From 46d99f3a6ac0d06111d8813a029108e7149216f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 87/96] fix: ciff_to_JASS does not convert files that are not
 well formed

---
 tools/ciff_lin.h       | 5 +++--
 tools/ciff_to_JASS.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/ciff_lin.h b/tools/ciff_lin.h
index 9f0b072..a0ef91e 100644
--- a/tools/ciff_lin.h
+++ b/tools/ciff_lin.h
@@ -444,7 +444,8 @@ namespace JASS
 					*/
 					postings_list_iterator &operator++()
 						{
-						which++;
+						if (which != (std::numeric_limits<decltype(which)>::max)())			// unless the stream is bad
+							which++;
 						return *this;
 						}
 
@@ -752,7 +753,7 @@ namespace JASS
 				stream(source_file),
 				status(OK)
 				{
-				read_header(ciff_header);
+				status = read_header(ciff_header);
 				ciff_header.text_render();
 				}
 
diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index e29ccc5..089548b 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -167,6 +167,8 @@ int main(int argc, const char *argv[])
 		set up the protobuf reader
 	*/
 	JASS::ciff_lin source((uint8_t *)&file[0]);
+	if (source.status == JASS::ciff_lin::FAIL)
+		exit(printf("File is not in the correct format\n"));
 
 	/*
 		go list at a time, adding each one to the index
@@ -219,10 +221,12 @@ int main(int argc, const char *argv[])
 		if (last_docid != static_cast<JASS::compress_integer::integer>(docid.docid))
 			{
 			std::cout << "Document IDs must be ordered\n";
-			exit(0);
+			exit(1);
 			}
 		last_docid = docid.docid + 1;
 		}
+	if (source.status == JASS::ciff_lin::FAIL)
+		exit(printf("File is not in the correct format\n"));
 
 	/*
 		set the length vector and the primary key vector
-- 
2.43.0


From 9e1d65c40af7dbbb479755a01d40c9fcbfc80487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 88/96] fix: ciff_to_JASS does not look at the first posting of
 an empty list

---
 tools/ciff_to_JASS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index 089548b..b096885 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -192,6 +192,8 @@ int main(int argc, const char *argv[])
 			CIFF counts from documentID = 0, but JASS indexing counts from documentID = 1,
 			so we increment the first docid (as the others are d-gaps).
 		*/
+		if (posting.postings.size() == 0)
+			continue;
 		posting.postings[0].docid++;
 
 		JASS::parser::token term;
-- 
2.43.0


From 8111c18975b7341e46543fab5613e1e0a294c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 89/96] fix: unsigned 32-bit integers of a protobuf are not
 zigzagged

---
 tools/protobuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/protobuf.h b/tools/protobuf.h
index 88b0765..c2358b7 100644
--- a/tools/protobuf.h
+++ b/tools/protobuf.h
@@ -130,7 +130,7 @@ namespace JASS
 			*/
 			inline static uint32_t get_uint32_t(const uint8_t *&stream)
 				{
-				return static_cast<uint32_t>(un_zigzag(get_uint64_t(stream)));
+				return static_cast<uint32_t>(get_uint64_t(stream));
 				}
 
 			/*
-- 
2.43.0


From f3fb9401c4af092ebc9f960a58f9edb1abb73f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:33 +0000
Subject: [PATCH 90/96] fix: JASS_index does not write a version 1 and a
 version 2 index over each other

---
 tools/JASS_index.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/JASS_index.cpp b/tools/JASS_index.cpp
index 9342a71..20b768f 100644
--- a/tools/JASS_index.cpp
+++ b/tools/JASS_index.cpp
@@ -189,6 +189,15 @@ int main(int argc, const char *argv[])
 	/*
 		Decode the input filename
 	*/
+	/*
+		Both formats use the same filenames.
+	*/
+	if (parameter_jass_v1_index && parameter_jass_v2_index)
+		{
+		std::cout << "Only one of the JASS version 1 and version 2 indexes can be generated at a time\n";
+		return 1;
+		}
+
 	if (parameter_filename == "")
 		std::cout << "filename needed";
 
-- 
2.43.0


From bcf6387da21305a0286da5c166185c9ef02e8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:49 +0000
Subject: [PATCH 91/96] fix: the compiled index can be of more than 1024
 documents

---
 compiled_index/JASS_compiled_index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiled_index/JASS_compiled_index.cpp b/compiled_index/JASS_compiled_index.cpp
index 2381eaf..84d063a 100755
--- a/compiled_index/JASS_compiled_index.cpp
+++ b/compiled_index/JASS_compiled_index.cpp
@@ -73,7 +73,7 @@ int main(int argc, char *argv[])
 			JASS::string query(memory);					// allocate a string to read into
 
 			auto jass_query_memory = std::make_shared<JASS::query_heap>();	// allocate a JASS query object
-			jass_query_memory->init(primary_key, 1024, 10);
+			jass_query_memory->init(primary_key, primary_key.size(), 10);
 			auto &jass_query = *jass_query_memory.get();		// pretend its an object
 
 			/*
-- 
2.43.0


From c64e602abad9542cf5ab84cdd392b9d56435929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:49 +0000
Subject: [PATCH 92/96] fix: the compiled index stops at the end of the queries

---
 compiled_index/JASS_compiled_index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiled_index/JASS_compiled_index.cpp b/compiled_index/JASS_compiled_index.cpp
index 84d063a..18ee28f 100755
--- a/compiled_index/JASS_compiled_index.cpp
+++ b/compiled_index/JASS_compiled_index.cpp
@@ -85,7 +85,7 @@ int main(int argc, char *argv[])
 			/*
 				Check to see if we're at the end of the query stream
 			*/
-			if (query.compare(0, 5, ".quit") == 0)
+			if (query.size() == 0 || query.compare(0, 5, ".quit") == 0)
 				break;
 
 #ifdef NEVER
-- 
2.43.0


From fc9475adece396df3829c901e5dfdd5fd17ab098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:49 +0000
Subject: [PATCH 93/96] fix: the compiled index lists the best document first

---
 compiled_index/JASS_compiled_index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiled_index/JASS_compiled_index.cpp b/compiled_index/JASS_compiled_index.cpp
index 18ee28f..8f676a5 100755
--- a/compiled_index/JASS_compiled_index.cpp
+++ b/compiled_index/JASS_compiled_index.cpp
@@ -123,7 +123,7 @@ int main(int argc, char *argv[])
 			/*
 				Dump the top-k to the output in trec_eval format.
 			*/
-			JASS::run_export_trec(std::cout, query_id, jass_query, "JASSv2", true, false);
+			JASS::run_export_trec(std::cout, query_id, jass_query, "JASSv2", true, true);
 			}
 		}
 	catch (std::exception &error)
-- 
2.43.0


From cd630d9d9fa2658963a9da248b2af57c96de6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:49 +0000
Subject: [PATCH 94/96] fix: only a number at the start of a query is taken
 from the terms by the compiled index

---
 compiled_index/JASS_compiled_index.cpp | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/compiled_index/JASS_compiled_index.cpp b/compiled_index/JASS_compiled_index.cpp
index 8f676a5..d1b2b25 100755
--- a/compiled_index/JASS_compiled_index.cpp
+++ b/compiled_index/JASS_compiled_index.cpp
@@ -94,24 +94,29 @@ int main(int argc, char *argv[])
 			*/
 			output << query;
 #endif
+			/*
+				if the first term in the query is numeric then assume its a TREC style query number (the parsed query is
+				sorted, so this must be done first).
+			*/
+			uint64_t query_id = 0;
+			size_t start = 0;
+			while (start < query.size() && JASS::ascii::isspace(query[start]))
+				start++;
+			size_t end = start;
+			while (end < query.size() && JASS::ascii::isdigit(query[end]))
+				end++;
+			if (end > start && (end == query.size() || !JASS::ascii::isalnum(query[end])))
+				{
+				query_id = strtoull(query.c_str() + start, nullptr, 10);
+				query.erase(0, end);
+				}
+
 			/*
 				Parse the query then iterate over the terms
 			*/
 			jass_query.parse(query);
-			uint32_t term_number = 0;
-			uint64_t query_id = 0;
 			for (const auto &term : jass_query.terms())
 				{
-				/*
-					if the first term in the query is numeric then assume its a TREC style query number.
-				*/
-				if (term_number == 0 && JASS::ascii::isdigit(term.token()[0]))
-					{
-					query_id = atol(reinterpret_cast<const char *>(term.token().address()));
-					continue;
-					}
-				term_number++;
-
 				/*
 					Search the vocabulary for the query term and if we find it all the attached method to process the postings.
 				*/
-- 
2.43.0


From b85fea4b83ce27ec2b18316f8cfb02f670f43608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:42 +0000
Subject: [PATCH 95/96] fix: the first set bit of a 64-bit integer is found in
 all 64 bits

---
 source/maths.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/maths.h b/source/maths.h
index b8b014f..da327bb 100644
--- a/source/maths.h
+++ b/source/maths.h
@@ -241,7 +241,7 @@ namespace JASS
 			static inline uint32_t find_first_set_bit(uint32_t x)
 				{
 				static const uint32_t table[] = {0, 1, 28, 2, 29, 14, 24, 3, 30, 22, 20, 15, 25, 17, 4, 8, 31, 27, 13, 23, 21, 19, 16, 7, 26, 12, 18, 6, 11, 5, 10, 9};
-				return table[((x & -(int32_t)x) * 0x077CB531U) >> 27];
+				return table[((x & (0 - x)) * 0x077CB531U) >> 27];
 				}
 
 			/*
@@ -257,7 +257,7 @@ namespace JASS
 			static inline uint32_t find_first_set_bit(uint64_t x)
 				{
 				static const uint32_t table[] = {0, 1, 2, 53, 3, 7, 54, 27, 4, 38, 41, 8, 34, 55, 48, 28, 62, 5, 39, 46, 44, 42, 22, 9, 24, 35, 59, 56, 49, 18, 29, 11, 63, 52, 6, 26, 37, 40, 33, 47, 61, 45, 43, 21, 23, 58, 17, 10, 51, 25, 36, 32, 60, 20, 57, 16, 50, 31, 19, 15, 30, 14, 13, 12};
-				return table[((x & -(int32_t)x) * 0x022FDD63CC95386DULL) >> 58];
+				return table[((x & (0 - x)) * 0x022FDD63CC95386DULL) >> 58];
 				}
 
 			/*
-- 
2.43.0


From 6afa574e3bf4e907c32286106589c7a8c71a7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:42 +0000
Subject: [PATCH 96/96] fix: the fourth coefficient of the normal distribution

---
 source/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/statistics.cpp b/source/statistics.cpp
index e98c782..6977387 100644
--- a/source/statistics.cpp
+++ b/source/statistics.cpp
@@ -24,7 +24,7 @@ namespace JASS
 		double b1 = .319381530;
 		double b2 = -0.356563782;
 		double b3 = 1.781477937;
-		double b4 = -1.8212515978;
+		double b4 = -1.821255978;
 		double b5 = 1.330274429;
 		double p = .2316419;
 
-- 
2.43.0


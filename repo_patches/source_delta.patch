From 989ab16e8c14e098ea4b097a58f2c65f45e0381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:05 +0000
Subject: [PATCH 01/79] fix: Porter stemmer treats y as a vowel only when
 preceded by a consonant, and *o needs three letters

---
 source/stem_porter.cpp | 2 +-
 source/stem_porter.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/stem_porter.cpp b/source/stem_porter.cpp
index 15d1ead..cc1be8c 100644
--- a/source/stem_porter.cpp
+++ b/source/stem_porter.cpp
@@ -59,7 +59,7 @@ namespace JASS
 			return true;
 		else
 			for (const char *pos = strchr(what, 'y'); pos != NULL; pos = strchr(pos + 1, 'y'))
-				if (!ascii::isvowel(*(pos + 1)))
+				if (isvowely(pos))
 					return true;
 
 		return false;
diff --git a/source/stem_porter.h b/source/stem_porter.h
index a159dd2..8fd30c3 100644
--- a/source/stem_porter.h
+++ b/source/stem_porter.h
@@ -46,13 +46,13 @@ namespace JASS
 				"A consonant in a word is a letter other than A, E, I, O or U, and other than Y preceded by a consonant."
 				...
 				"If a letter is not a consonant it is a vowel."
-				so a vowely is {aeiou} or {y} not folowed by a {aeiou}
+				so a vowely is {aeiou} or {y} preceded by a consonant (the string is reversed so the preceding character is the next one)
 				@param c [in] Pointer to the character to check.
 				@return true if a vowely or false otherwise.
 			*/
 			bool isvowely(const char *c)
 				{
-				return *c != '\0' && (ascii::isvowel(*c) || (*c == 'y' && !ascii::isvowel(*(c + 1))));
+				return *c != '\0' && (ascii::isvowel(*c) || (*c == 'y' && *(c + 1) != '\0' && !isvowely(c + 1)));
 				}
 
 			/*
@@ -67,7 +67,7 @@ namespace JASS
 			*/
 			bool cvc(const char *what)
 				{
-				return ((strchr("aeiouwxy", *what) == NULL) && (isvowely(what + 1)) && (!isvowely(what + 2))) ? true : false;
+				return ((strchr("aeiouwxy", *what) == NULL) && (isvowely(what + 1)) && (*(what + 2) != '\0') && (!isvowely(what + 2))) ? true : false;
 				}
 
 			/*
-- 
2.43.0


From 6de66eedf01a0884c3e45f7a7e31a60eb5646b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 02/79] fix: shrinking a bitstring drops the bits (and storage)
 beyond its new length

---
 source/bitstring.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/source/bitstring.cpp b/source/bitstring.cpp
index 37bf623..19dcbc8 100644
--- a/source/bitstring.cpp
+++ b/source/bitstring.cpp
@@ -42,20 +42,22 @@ namespace JASS
 	void bitstring::resize(size_t new_length_in_bits)
 		{
 		/*
-			Compute the new and old lengths in "chunks"
+			Compute the new length in "chunks"
 		*/
 		size_t chunks_long = (new_length_in_bits + 8 * sizeof(bitstring_word)) / (8 * sizeof(bitstring_word));
-		size_t old_chunks_long = bits.size() / sizeof(bitstring_word);
 		
 		/*
-			resize the vector, but only if we need to
+			resize the vector (the new bytes are zero)
 		*/
-		if (chunks_long > old_chunks_long)
-			{
-			size_t bytes_long = chunks_long * sizeof(chunks_long);
-			bits.resize(bytes_long);
-			}
-			
+		bits.resize(chunks_long * sizeof(bitstring_word));
+
+		/*
+			if we got shorter then turn the bits that are no longer part of the bitstring back to 0
+		*/
+		size_t last_bit = maths::minimum(bits_long, bits.size() * 8);
+		for (size_t clearing = new_length_in_bits; clearing < last_bit; clearing++)
+			unsafe_unsetbit(clearing);
+
 		/*
 			remember out length
 		*/
-- 
2.43.0


From 0ee54093d94212190c744bab76ad1fbe52f227b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 03/79] fix: bitstream eof() does not need room for a word when
 there is nothing to flush

---
 source/bitstream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bitstream.h b/source/bitstream.h
index f0e8023..c1f3604 100644
--- a/source/bitstream.h
+++ b/source/bitstream.h
@@ -168,7 +168,8 @@ namespace JASS
 			*/
 			uint64_t eof(void)
 				{
-				push_buffer();
+				if (bit_pos != 0)
+					push_buffer();
 				return failed ? 0 : (total_bits + 7) / 8;			// return the number of bytes used or 0 on error
 				}
 
-- 
2.43.0


From 579c7a6d1ebb719df63bbe804d082324f35499f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:09 +0000
Subject: [PATCH 04/79] fix: beap::find() returns -1 for an absent key instead
 of reading outside the array

---
 source/beap.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/beap.h b/source/beap.h
index bdc0718..cb3cd0b 100644
--- a/source/beap.h
+++ b/source/beap.h
@@ -239,7 +239,7 @@ namespace JASS
 						current_location -= current_height;
 						current_height--;
 						end_of_row -= current_height + 2;
-						if (current_location < 0)
+						if (current_location > end_of_row)
 							return -1;
 						}
 					else if (key > array[current_location])
@@ -265,6 +265,8 @@ namespace JASS
 								current_location -= current_height;
 								current_height--;
 								end_of_row -= current_height + 2;
+								if (current_location > end_of_row)
+									return -1;
 								// in this case we went accross, but we went past the end of the array so we now need to go up
 								}
 							}
-- 
2.43.0


From 54dc8f1fb9d4e44a77b8f82ac12721f2dc377c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:09 +0000
Subject: [PATCH 05/79] fix: top_k_heap keeps its front and order when elements
 arrive or are promoted after a sort or front()

---
 source/top_k_heap.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/top_k_heap.h b/source/top_k_heap.h
index 9bff44f..8a12da7 100644
--- a/source/top_k_heap.h
+++ b/source/top_k_heap.h
@@ -101,6 +101,7 @@ namespace JASS
 						If adding this element hasn't yet filled the heap then don't make a heap
 					*/
 					members.push_back(element);
+					front_correct = heap_ordered = false;
 					}
 				else if (total_insertions == k)
 					{
@@ -161,10 +162,7 @@ namespace JASS
 					front_correct = heap_ordered = true;
 					}
 				else
-					{
-					front_correct = true;
 					heap_ordered = false;
-					}
 				}
 
 			/*
-- 
2.43.0


From 6cc736547ac0dae4fd0d990813f97602106f52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:30 +0000
Subject: [PATCH 06/79] fix: accumulator_2d with query ids reads as zero after
 being re-initialised

---
 source/accumulator_2d.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/accumulator_2d.h b/source/accumulator_2d.h
index c0c364e..213278c 100755
--- a/source/accumulator_2d.h
+++ b/source/accumulator_2d.h
@@ -236,6 +236,9 @@ namespace JASS
 				/*
 					Clear the dirty flags ready for first use.
 				*/
+#ifdef USE_QUERY_IDS
+				query_id = std::numeric_limits<decltype(query_id)>::max();			// the flags of the previous layout mean nothing in this one
+#endif
 				rewind();
 				}
 
-- 
2.43.0


From 581821173bc50be9783138f610cb6b49cce8a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 07/79] fix: allocator_memory refuses a request so large that
 the size arithmetic would wrap

---
 source/allocator_memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/allocator_memory.cpp b/source/allocator_memory.cpp
index 1bf362b..fe00fe8 100644
--- a/source/allocator_memory.cpp
+++ b/source/allocator_memory.cpp
@@ -40,7 +40,7 @@ namespace JASS
 			/*
 				If we don't have capacity to succeed then fail
 			*/
-			if (already_used + bytes + padding > allocated)
+			if (padding > allocated - already_used || bytes > allocated - already_used - padding)
 				{
 	//			#ifdef NEVER
 					exit(printf("file:%s line:%d: Out of memory:%lld bytes requested %lld bytes used %lld bytes allocated of %lld bytes available.\n", __FILE__, __LINE__, (long long)bytes, (long long)used, (long long)allocated, (long long)allocated));					// LCOV_EXCL_LINE		// highly unlikely to happen
-- 
2.43.0


From 82875280f02f75526668abd68c356a05a7395108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:46 +0000
Subject: [PATCH 08/79] fix: allocator_pool asks for a chunk large enough to
 hold the request and its alignment padding

---
 source/allocator_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/allocator_pool.cpp b/source/allocator_pool.cpp
index c72e4af..54ecfb9 100644
--- a/source/allocator_pool.cpp
+++ b/source/allocator_pool.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			*/
 			if (chunk == nullptr || top_of_stack + bytes + padding > chunk->chunk_end)
 				{
-				if (add_chunk(bytes) != nullptr)
+				if (add_chunk(bytes + alignment - 1) != nullptr)
 					continue;
 				else
 					{
-- 
2.43.0


From 00983de4a23569f9f4002054b6c83f3eb26f10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 09/79] fix: dynamic_array::serialise() never copies more than
 it was given room for

---
 source/dynamic_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/dynamic_array.h b/source/dynamic_array.h
index 3a0b308..40a63df 100644
--- a/source/dynamic_array.h
+++ b/source/dynamic_array.h
@@ -368,10 +368,11 @@ namespace JASS
 					*/
 					for (node *current = head; current != nullptr; current = current->next)
 						{
-						std::copy(current->data, current->data + (current->used <= size_of_into ? current->used.load() : size_of_into), into);
-						size_of_into -= current->used;
+						size_t take = current->used <= size_of_into ? current->used.load() : size_of_into;
+						std::copy(current->data, current->data + take, into);
+						size_of_into -= take;
 						would_take += current->used;
-						into += current->used;
+						into += take;
 						}
 					}
 				return would_take;
-- 
2.43.0


From 6a3690bc5b70e2878c35012bec0ccd2eee8780e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:31 +0000
Subject: [PATCH 10/79] fix: index_postings caps the first count of a document,
 as it does every later one

---
 source/index_postings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/index_postings.h b/source/index_postings.h
index cd15fc1..75a1262 100644
--- a/source/index_postings.h
+++ b/source/index_postings.h
@@ -141,7 +141,7 @@ namespace JASS
 
 					for (uint8_t *byte = space; byte < ending; byte++)
 						document_ids.push_back(*byte);
-					term_frequencies.push_back(amount);
+					term_frequencies.push_back(JASS::maths::minimum(amount, (index_postings_impact::impact_type)index_postings_impact::largest_impact));
 
 					highest_document = document_id;
 					}
-- 
2.43.0


From 906e48cbd5c8f839dfad8b3aa82d5ac10ed0df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:34 +0000
Subject: [PATCH 11/79] fix: 64-bit find_first_set_bit() finds bits above the
 lowest 31

---
 source/maths.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/maths.h b/source/maths.h
index b8b014f..0630802 100644
--- a/source/maths.h
+++ b/source/maths.h
@@ -257,7 +257,7 @@ namespace JASS
 			static inline uint32_t find_first_set_bit(uint64_t x)
 				{
 				static const uint32_t table[] = {0, 1, 2, 53, 3, 7, 54, 27, 4, 38, 41, 8, 34, 55, 48, 28, 62, 5, 39, 46, 44, 42, 22, 9, 24, 35, 59, 56, 49, 18, 29, 11, 63, 52, 6, 26, 37, 40, 33, 47, 61, 45, 43, 21, 23, 58, 17, 10, 51, 25, 36, 32, 60, 20, 57, 16, 50, 31, 19, 15, 30, 14, 13, 12};
-				return table[((x & -(int32_t)x) * 0x022FDD63CC95386DULL) >> 58];
+				return table[((x & (~x + 1)) * 0x022FDD63CC95386DULL) >> 58];
 				}
 
 			/*
-- 
2.43.0


From bb4fc798f929f91370adf0b8d5f46db14d8957ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:24 +0000
Subject: [PATCH 12/79] fix: t distribution with one degree of freedom (the
 series' upper bound wrapped round)

---
 source/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/statistics.cpp b/source/statistics.cpp
index eb9aa16..9646be6 100644
--- a/source/statistics.cpp
+++ b/source/statistics.cpp
@@ -92,7 +92,7 @@ namespace JASS
 			double c = sqrt(dnu / (dx * dx + dnu));
 			double csq = dnu / (dx * dx + dnu);
 			double s = dx / sqrt(dx * dx + dnu);
-			int64_t imax = nu - 2;
+			int64_t imax = (int64_t)nu - 2;
 			int64_t ievodd = nu - 2 * (nu / 2);
 
 			int64_t imin;
-- 
2.43.0


From 837bbd58cee53159fd11eba058e6d7611f98acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:45 +0000
Subject: [PATCH 13/79] fix: mistyped coefficient in the normal distribution's
 approximation (Abramowitz and Stegun 26.2.17)

---
 source/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/statistics.cpp b/source/statistics.cpp
index 9646be6..e76ba08 100644
--- a/source/statistics.cpp
+++ b/source/statistics.cpp
@@ -24,7 +24,7 @@ namespace JASS
 		double b1 = .319381530;
 		double b2 = -0.356563782;
 		double b3 = 1.781477937;
-		double b4 = -1.8212515978;
+		double b4 = -1.821255978;
 		double b5 = 1.330274429;
 		double p = .2316419;
 
-- 
2.43.0


From ea8817dcb670cdcfa520a663063ce8f9052bade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:48 +0000
Subject: [PATCH 14/79] fix: commandline picks the longest matching parameter
 name (--rho_min is not --rho given the value _min)

---
 source/commandline.h | 61 +++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index bfa24de..fc5e92c 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -18,6 +18,7 @@
 #include <sstream>
 #include <iostream>
 #include <typeinfo>
+#include <algorithm>
 
 #include <stdlib.h>
 
@@ -246,6 +247,21 @@ namespace JASS
 				messages << element.shortname << " (" << element.longname  << ") Unknown parameter type\n";
 				}
 
+			/*
+				COMMANDLINE::NAME_MATCH()
+				-------------------------
+			*/
+			/*!
+				@brief How much of the given argument is the name of the parameter?
+				@param argument [in] The argument given by the user.
+				@param name [in] The name (short or long) of a parameter.
+				@return The length of the name if the argument starts with it, else 0.
+			*/
+			static size_t name_match(const char *argument, const std::string &name)
+				{
+				return strncmp(argument, name.c_str(), name.size()) == 0 ? name.size() : 0;
+				}
+
 			/*
 				COMMANDLINE::FOR_EACH_PARAMETER()
 				---------------------------------
@@ -256,10 +272,11 @@ namespace JASS
 				@param messages [out] Any errors are reported down this stream.
 				@param arg [in/out] The place in the command line parameter list that we're currenty looking at.
 				@param argv [in] The command line parameter list.
+				@param match_length [in] The length of the longest parameter name that argv[arg] starts with.
 			*/
 			template<std::size_t I = 0, typename... Tp>
 			inline typename std::enable_if<I == sizeof...(Tp), void>::type
-			static for_each_parameter(std::ostringstream &messages, size_t &arg, const char *argv[], std::tuple<Tp...> &)
+			static for_each_parameter(std::ostringstream &messages, size_t &arg, const char *argv[], std::tuple<Tp...> &, size_t match_length)
 				{
 				messages << argv[arg] << " Unknown parameter\n";
 				arg++;
@@ -275,37 +292,30 @@ namespace JASS
 				@param arg [in/out] The place in the command line parameter list that we're currenty looking at.
 				@param argv [in] The command line parameter list.
 				@param tuple [in] The remainder of the command line parameters as specified as the programmer.
+				@param match_length [in] The length of the longest parameter name that argv[arg] starts with.
 			*/
 			template<std::size_t I = 0, typename... Tp>
 			inline typename std::enable_if<I < sizeof...(Tp), void>::type
-			static for_each_parameter(std::ostringstream &messages, size_t &arg, const char *argv[], std::tuple<Tp...> &tuple)
+			static for_each_parameter(std::ostringstream &messages, size_t &arg, const char *argv[], std::tuple<Tp...> &tuple, size_t match_length)
 				{
-				if (std::get<I>(tuple).shortname.size() == 0 || std::get<I>(tuple).longname.size() == 0)				// looking for non-parameters (i.e. notes_
-					for_each_parameter<I + 1, Tp...>(messages, arg, argv, tuple);
-				else if (strcmp(argv[arg], std::get<I>(tuple).shortname.c_str()) == 0)				// looking for "-a v"
-					{
-					extract(messages, argv[++arg], std::get<I>(tuple));
-					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
-						arg++;
-					}
-				else if (strcmp(argv[arg], std::get<I>(tuple).longname.c_str()) == 0)		// looking for "--aaa v"
+				const std::string &shortname = std::get<I>(tuple).shortname;
+				const std::string &longname = std::get<I>(tuple).longname;
+
+				if (shortname.size() == 0 || longname.size() == 0)				// looking for non-parameters (i.e. notes_
+					for_each_parameter<I + 1, Tp...>(messages, arg, argv, tuple, match_length);
+				else if ((shortname.size() == match_length && shortname == argv[arg]) || (longname.size() == match_length && longname == argv[arg]))				// looking for "-a v" or "--aaa v"
 					{
 					extract(messages, argv[++arg], std::get<I>(tuple));
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).longname.c_str(), std::get<I>(tuple).longname.size()) == 0)			// looking for "-aav"
-					{
-					extract(messages, argv[arg] + std::get<I>(tuple).longname.size(), std::get<I>(tuple));
-					arg++;
-					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).shortname.c_str(), std::get<I>(tuple).shortname.size()) == 0)		// looking for "-av"
+				else if ((longname.size() == match_length && strncmp(argv[arg], longname.c_str(), match_length) == 0) || (shortname.size() == match_length && strncmp(argv[arg], shortname.c_str(), match_length) == 0))			// looking for "--aaav" or "-av"
 					{
-					extract(messages, argv[arg] + std::get<I>(tuple).shortname.size(), std::get<I>(tuple));
+					extract(messages, argv[arg] + match_length, std::get<I>(tuple));
 					arg++;
 					}
 				else
-					for_each_parameter<I + 1, Tp...>(messages, arg, argv, tuple);
+					for_each_parameter<I + 1, Tp...>(messages, arg, argv, tuple, match_length);
 				}
 
 			/*
@@ -485,7 +495,18 @@ namespace JASS
 				size_t argument = 1;
 
 				while (argument < static_cast<size_t>(argc))
-					for_each_parameter(messages, argument, argv, all_parameters);
+					{
+					/*
+						When one name is the start of another (e.g. "--rho" and "--rho_min"), the user means the longest that matches.
+					*/
+					size_t match_length = 0;
+					std::apply([&](const auto &...each)
+						{
+						((match_length = (std::max)(match_length, (std::max)(name_match(argv[argument], each.shortname), name_match(argv[argument], each.longname)))), ...);
+						}, all_parameters);
+
+					for_each_parameter(messages, argument, argv, all_parameters, match_length);
+					}
 
 				error = messages.str();
 				return error == "";
-- 
2.43.0


From 9b55f609fc0309657a3eeade139e2cbf710c11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:48 +0000
Subject: [PATCH 15/79] fix: commandline floating point parameters can be zero
 or negative, and report a missing or out-of-range value

---
 source/commandline.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index fc5e92c..e1ab859 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -206,11 +206,17 @@ namespace JASS
 							 std::is_same<TYPE, double>::value>::type* = nullptr>
 			static void extract(std::ostringstream &messages, const char *parameter, command<TYPE> element)
 				{
-				double answer = std::stod(parameter);
+				if (parameter == nullptr)
+					{
+					messages << " Missing numeric parameter\n";
+					return;
+					}
+
+				double answer = strtod(parameter, NULL);
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < std::numeric_limits<TYPE>::lowest())
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
-- 
2.43.0


From 00998c57493e1f052e939632c83247ae3a7cc302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:48 +0000
Subject: [PATCH 16/79] fix: commandline reports a missing string parameter

---
 source/commandline.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/commandline.h b/source/commandline.h
index e1ab859..2d5fa70 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -234,6 +234,12 @@ namespace JASS
 			*/
 			static void extract(std::ostringstream &messages, const char *parameter, command<std::string> element)
 				{
+				if (parameter == nullptr)
+					{
+					messages << " Missing string parameter\n";
+					return;
+					}
+
 				element.parameter = parameter;
 				}
 
-- 
2.43.0


From ae97c2f47af26faa4be11d4c80e96457769d9d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:48 +0000
Subject: [PATCH 17/79] fix: commandline reports integers that do not fit their
 variable instead of storing something else

---
 source/commandline.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index 2d5fa70..2ac064f 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -20,6 +20,7 @@
 #include <typeinfo>
 #include <algorithm>
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "string.h"
@@ -144,11 +145,13 @@ namespace JASS
 					return;
 					}
 
+				errno = 0;
 				long long answer = strtoll(parameter, NULL, 0);
+				bool out_of_range = errno == ERANGE;
 
-				if (answer > (std::numeric_limits<TYPE>::max)())
+				if (answer > (std::numeric_limits<TYPE>::max)() || (out_of_range && answer > 0))
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < (std::numeric_limits<TYPE>::min)() || out_of_range)
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
@@ -178,16 +181,25 @@ namespace JASS
 					return;
 					}
 
+				errno = 0;
 				unsigned long long answer = strtoull(parameter, NULL, 0);
+				bool overflow = errno == ERANGE;
 
 				/*
 					Coverity Scan complains about the line below when TYPE is a unisgned long long because it can never be true.
 				*/
 				if constexpr (!std::is_same<TYPE, unsigned long long>::value)
-					if (answer > (std::numeric_limits<TYPE>::max)())
-						messages << parameter << " Numeric overflow on parameter\n";
+					overflow = overflow || answer > (std::numeric_limits<TYPE>::max)();
 
-				element.parameter = static_cast<TYPE>(answer);
+				/*
+					strtoull() negates when there's a minus sign
+				*/
+				if (answer != 0 && strchr(parameter, '-') != NULL)
+					messages << parameter << " Numeric underflow on parameter\n";
+				else if (overflow)
+					messages << parameter << " Numeric overflow on parameter\n";
+				else
+					element.parameter = static_cast<TYPE>(answer);
 				}
 
 			/*
-- 
2.43.0


From 3ad0c40629ab295b690389351956a7a82ff0e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:17 +0000
Subject: [PATCH 18/79] fix: commandline reports a boolean parameter with text
 stuck to it as unknown

---
 source/commandline.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index 2ac064f..1fc4895 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -277,13 +277,21 @@ namespace JASS
 			*/
 			/*!
 				@brief How much of the given argument is the name of the parameter?
+				@details As a boolean takes no value, the name of a boolean must be all of the argument.
 				@param argument [in] The argument given by the user.
-				@param name [in] The name (short or long) of a parameter.
-				@return The length of the name if the argument starts with it, else 0.
+				@param element [in] The parameter.
+				@return The length of the longest name of the parameter the argument starts with, else 0.
 			*/
-			static size_t name_match(const char *argument, const std::string &name)
+			template <typename TYPE>
+			static size_t name_match(const char *argument, const command<TYPE> &element)
 				{
-				return strncmp(argument, name.c_str(), name.size()) == 0 ? name.size() : 0;
+				size_t answer = 0;
+
+				for (const std::string &name : {element.shortname, element.longname})
+					if (std::is_same<TYPE, bool>::value ? name == argument : strncmp(argument, name.c_str(), name.size()) == 0)
+						answer = (std::max)(answer, name.size());
+
+				return answer;
 				}
 
 			/*
@@ -333,7 +341,7 @@ namespace JASS
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
-				else if ((longname.size() == match_length && strncmp(argv[arg], longname.c_str(), match_length) == 0) || (shortname.size() == match_length && strncmp(argv[arg], shortname.c_str(), match_length) == 0))			// looking for "--aaav" or "-av"
+				else if (typeid(std::get<I>(tuple).parameter) != typeid(bool) && ((longname.size() == match_length && strncmp(argv[arg], longname.c_str(), match_length) == 0) || (shortname.size() == match_length && strncmp(argv[arg], shortname.c_str(), match_length) == 0)))			// looking for "--aaav" or "-av"
 					{
 					extract(messages, argv[arg] + match_length, std::get<I>(tuple));
 					arg++;
@@ -526,7 +534,7 @@ namespace JASS
 					size_t match_length = 0;
 					std::apply([&](const auto &...each)
 						{
-						((match_length = (std::max)(match_length, (std::max)(name_match(argv[argument], each.shortname), name_match(argv[argument], each.longname)))), ...);
+						((match_length = (std::max)(match_length, name_match(argv[argument], each))), ...);
 						}, all_parameters);
 
 					for_each_parameter(messages, argument, argv, all_parameters, match_length);
-- 
2.43.0


From adf0521fa92b3164783cc15cb51c35d85cf56ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 19/79] fix: file::tell() after a read that reaches the end of
 the file

---
 source/file.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/source/file.h b/source/file.h
index c477629..bc7ade1 100755
--- a/source/file.h
+++ b/source/file.h
@@ -257,25 +257,23 @@ namespace JASS
 			*/
 			size_t read(void *data, size_t size)
 				{
-				/*
-					Keep track of the number of bytes we've been asked to write
-				*/
-				bytes_read += size;
-
 				/*
 					Flush the write cache
 				*/
 				flush();
 
 				/*
-					Take note of the new file position (at the end of the read)
+					Now perform the read
 				*/
-				file_position += size;		// this is where we'll be at the end of the read
+				size_t got = ::fread(data, 1, size, fp);
 
 				/*
-					And now perform the read
+					Keep track of the number of bytes read and the new file position (at EOF there might be fewer than asked for)
 				*/
-				return ::fread(data, 1, size, fp);
+				bytes_read += got;
+				file_position += got;
+
+				return got;
 				}
 
 			/*
-- 
2.43.0


From b93db118feb69b242da4fa0dd3f2c60db216fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 20/79] fix: reading an entire empty file gives an empty
 string, not what the string held before

---
 source/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/file.cpp b/source/file.cpp
index 03477a0..3d50fc2 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -154,7 +154,9 @@ namespace JASS
 #else
 			if (fstat(fileno(fp), &details) == 0)
 #endif
-				if ((file_length = details.st_size) != 0)
+				if ((file_length = details.st_size) == 0)
+					into.resize(0);
+				else
 					{
 					into.resize(file_length);
 					if (fread(&into[0], details.st_size, 1, fp) != 1)
-- 
2.43.0


From e4956752c96329edc33ee1b15f79dc8d9b68f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 21/79] fix: writing an entire empty file is not a failure

---
 source/file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index 3d50fc2..26672ee 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -182,11 +182,11 @@ namespace JASS
 		if ((fp = fopen(filename.c_str(), "wb")) == nullptr)
 			return false;
 
-		size_t success = fwrite(&buffer[0], buffer.size(), 1, fp);
+		size_t success = fwrite(&buffer[0], 1, buffer.size(), fp);
 
 		fclose(fp);
 
-		return success == 1 ? true : false;
+		return success == buffer.size() ? true : false;
 		}
 
 	/*
-- 
2.43.0


From 2ab22af690eeda6370184110361204bc036c3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 22/79] fix: a file that cannot be mapped has no contents
 (MAP_FAILED is not a pointer to them)

---
 source/file.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index 26672ee..8abc0ca 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -96,8 +96,11 @@ namespace JASS
 			*/
 			close(reader);
 
-			if (file_contents == nullptr)
+			if (file_contents == nullptr || file_contents == MAP_FAILED)
+				{
+				file_contents = nullptr;			// for example, a zero length file can't be mapped
 				return 0;
+				}
 
 			/*
 				Remember the file size
@@ -119,7 +122,8 @@ namespace JASS
 			CloseHandle(hMapFile); // close the file mapping object
 			CloseHandle(hFile);   // close the file itself
 		#else
-			munmap((void *)file_contents, size);
+			if (file_contents != nullptr)
+				munmap((void *)file_contents, size);
 		#endif
 		}
 
-- 
2.43.0


From 0ba2c40961666d5ba77f20b8b66e68a53a44ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 23/79] fix: instream_file reports a short read (reading a FILE
 * such as stdin never reached the end of input)

---
 source/instream_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_file.cpp b/source/instream_file.cpp
index 0b27723..f0b0474 100644
--- a/source/instream_file.cpp
+++ b/source/instream_file.cpp
@@ -64,8 +64,8 @@ namespace JASS
 	/*
 		Do the read and note how many bytes we're read.
 	*/
-	if (disk_file.read(&document.contents[0], document.contents.size()) > 0)
-		bytes_read += document.contents.size();
+	document.contents.resize(disk_file.read(&document.contents[0], document.contents.size()));
+	bytes_read += document.contents.size();
 	}
 	
 	/*
-- 
2.43.0


From 75d06e6d1648f3f31903b6e7dc4e593fb9f3f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 24/79] fix: reading an empty directory is end of input, not a
 crash

---
 source/instream_directory_iterator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/instream_directory_iterator.cpp b/source/instream_directory_iterator.cpp
index 98a07cd..47e0225 100644
--- a/source/instream_directory_iterator.cpp
+++ b/source/instream_directory_iterator.cpp
@@ -43,6 +43,11 @@ namespace JASS
 					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
 				current++;
 				}
+			else
+				{
+				document.contents = slice();
+				return;				// there are no files in the directory
+				}
 
 		/*
 			Now we can get data from the reader and return it, after making sure we're not at EOF.
-- 
2.43.0


From 0793421466c6da53a3d787aba5b754ec4759cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 25/79] fix: instream_deflate reads every member of a gzip file

---
 source/instream_deflate.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/source/instream_deflate.cpp b/source/instream_deflate.cpp
index 200b12b..582cc6f 100644
--- a/source/instream_deflate.cpp
+++ b/source/instream_deflate.cpp
@@ -68,6 +68,26 @@ namespace JASS
 
 		if (state == Z_STREAM_END)
 			{
+			/*
+				A gzip file can be several members, one after another, all of which are decompressed
+			*/
+			if (stream.avail_in == 0)
+				{
+				stream.avail_in = (uInt)source->fetch(buffer, buffer_length);
+				stream.next_in = buffer;
+				}
+			if (stream.avail_in != 0 && *stream.next_in == 0x1F)			// 0x1F starts a gzip header
+				if (inflateReset(&stream) == Z_OK)
+					{
+					if (stream.avail_out == 0)
+						{
+						bytes_read += document.contents.size();
+						return;
+						}
+					state = Z_OK;
+					continue;
+					}
+
 			got = document.contents.size() - stream.avail_out;		// number of bytes that were decompressed
 			document.contents.resize(got);
 			bytes_read += got;
-- 
2.43.0


From f65cddc8a11c7471f6ec76c8acc676e1079a87cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 26/79] fix: compress_general_zstd::encode() reports failure
 when the destination is too small instead of looping for ever

---
 source/compress_general_zstd.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/compress_general_zstd.cpp b/source/compress_general_zstd.cpp
index fa94f1e..da2b621 100644
--- a/source/compress_general_zstd.cpp
+++ b/source/compress_general_zstd.cpp
@@ -53,6 +53,8 @@ namespace JASS
 			auto toRead = ZSTD_compressStream(ress.cstream, &output , &input);   /* toRead is guaranteed to be <= ZSTD_CStreamInSize() */
 			if (ZSTD_isError(toRead))
 				return 0;
+			if (output.pos == output.size && input.pos < input.size)
+				return 0;				// the destination is full
 			}
 
 		size_t const remainingToFlush = ZSTD_endStream(ress.cstream, &output);   /* close frame */
-- 
2.43.0


From 0c99ceb1b19f84a2f9ff6fb6e2bec56241acf688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 27/79] fix: compress_general_zstd::decode() decodes

---
 source/compress_general_zstd.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/source/compress_general_zstd.cpp b/source/compress_general_zstd.cpp
index da2b621..3f820ad 100644
--- a/source/compress_general_zstd.cpp
+++ b/source/compress_general_zstd.cpp
@@ -70,20 +70,9 @@ namespace JASS
 	*/
 	size_t compress_general_zstd::decode(void *decoded, size_t destination_length, const void *source, size_t source_bytes)
 		{
-		/*
-		if (inflateReset(&instream) != Z_OK)
-			return 0;
-
-		instream.avail_in = source_bytes;
-		instream.next_in = (Bytef *)source;
-		instream.avail_out = destination_length;
-		instream.next_out = (Bytef *)decoded;
+		size_t took = ZSTD_decompress(decoded, destination_length, source, source_bytes);
 
-		auto status = inflate(&instream, Z_FINISH);
-
-		return status == Z_STREAM_END ? (destination_length - instream.avail_out) : 0;
-		*/
-		return 0;
+		return ZSTD_isError(took) ? 0 : took;
 		}
 		
 	/*
-- 
2.43.0


From bc9311010aff0bea3ad8dead05401257014f5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:16 +0000
Subject: [PATCH 28/79] fix: instream_document_unicoil_json read past the end
 of its buffer after growing it for a large document

---
 source/instream_document_unicoil_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index d6f29d3..41241e5 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -71,7 +71,7 @@ namespace JASS
 						buffer_end = &buffer[0] + bytes_in_use;
 						doc_start = &buffer[0] + gap;
 
-						bytes_remaining += buffer_size;
+						bytes_remaining = buffer_size - bytes_in_use;
 						}
 
 					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-- 
2.43.0


From 6675421f1761c238ae50c086cb5bcd2abaaebc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:16 +0000
Subject: [PATCH 29/79] fix: the content of a last uniCOIL document without a
 newline includes its closing braces

---
 source/instream_document_unicoil_json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index 41241e5..5abf560 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -86,7 +86,11 @@ namespace JASS
 							{
 							doc_end = buffer_end;			// the last document might not end in a '\n'.
 							if (doc_end != doc_start)
+								{
+								if (doc_end - doc_start >= 2 && doc_end[-1] == '}' && doc_end[-2] == '}')
+									doc_end -= 2;				// drop the end of document marker, as for every other document
 								break;							// the last document isn't empty
+								}
 							}
 
 						object.primary_key = object.contents = slice();
-- 
2.43.0


From 3f0e77418d722975e05032597b358887013d284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:16 +0000
Subject: [PATCH 30/79] fix: the primary key of a WARC document whose header
 lines end in CRLF includes the CR

---
 source/instream_document_warc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index c2606d7..6c06d35 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -87,7 +87,11 @@ namespace JASS
 			while (ascii::isspace(*filename))
 				filename++;
 
-			object.primary_key = slice(object.primary_key_allocator, filename, filename + strlen(filename));
+			const char *filename_end = filename + strlen(filename);
+			while (filename_end > filename && ascii::isspace(*(filename_end - 1)))			// lines end in CRLF
+				filename_end--;
+
+			object.primary_key = slice(object.primary_key_allocator, filename, filename_end);
 
 			/*
 				Get and store the document length
-- 
2.43.0


From 6d407252a711693362361e0f0804645520693d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:44 +0000
Subject: [PATCH 31/79] fix: a WARC header line that exactly fills the line
 buffer swallowed the line after it

---
 source/instream_document_warc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index 6c06d35..fcf9605 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -40,6 +40,7 @@ namespace JASS
 						return nullptr;		// at EOF
 					}
 				while (*into != '\n' && into < end);
+				bool line_is_too_long = *into != '\n';
 				*into = '\0';
 
 				/*
@@ -48,7 +49,7 @@ namespace JASS
 					in documents such as clueweb09-en0000-05-10880 which as a 1486 character WARC-Target-URI!  It also won't
 					affect the string comparison because we're only comparing to the start of the string.
 				*/
-				if (into == end)
+				if (line_is_too_long)
 					{
 					do
 						if (source->fetch(into, 1) != 1)
-- 
2.43.0


From 71ada74ee62b12a3e57291c2cdbf6cd48bf5b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:29 +0000
Subject: [PATCH 32/79] fix: unicode::isutf8() (and so utf8_to_codepoint()) of
 an empty buffer reads past its end

---
 source/unicode.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/unicode.h b/source/unicode.h
index ccdfa99..fecaaa2 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -121,6 +121,12 @@ namespace JASS
 			*/
 			static size_t isutf8(const void *utf8_start, const void *end_of_buffer)
 				{
+				/*
+					there must be something to look at
+				*/
+				if (utf8_start >= end_of_buffer)
+					return 0;
+
 				/*
 					get the length
 				*/
-- 
2.43.0


From 89e2aa14207fb160b711ea31f2ca67fb024d0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:29 +0000
Subject: [PATCH 33/79] fix: unicode::isutf8() accepts overlong sequences and
 surrogates, which are malformed

---
 source/unicode.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/unicode.h b/source/unicode.h
index fecaaa2..a61becd 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -152,6 +152,19 @@ namespace JASS
 					if ((*++byte >> 6) != 2)
 						return 0;
 
+				/*
+					overlong sequences and surrogates are not valid UTF-8
+				*/
+				uint8_t first = *(uint8_t *)utf8_start;
+				if (number_of_bytes == 2 && first < 0xC2)
+					return 0;
+				if (number_of_bytes > 2)
+					{
+					uint8_t second = *((uint8_t *)utf8_start + 1);
+					if ((first == 0xE0 && second < 0xA0) || (first == 0xED && second > 0x9F) || (first == 0xF0 && second < 0x90))
+						return 0;
+					}
+
 				/*
 					success so return the length of the sequence
 				*/
-- 
2.43.0


From 909dab221ee0fd564c82fa1c13b60b42a19a180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:29 +0000
Subject: [PATCH 34/79] fix: code points whose hexadecimal starts with a letter
 were misread from the Unicode database (U+A640 case folded to U+0641)

---
 tools/unicode_database_to_c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/unicode_database_to_c.cpp b/tools/unicode_database_to_c.cpp
index d7bb507..99fd42f 100644
--- a/tools/unicode_database_to_c.cpp
+++ b/tools/unicode_database_to_c.cpp
@@ -627,7 +627,9 @@ for (uint32_t which_semicolon = 0; which_semicolon < 5; which_semicolon++)
 */
 uint32_t normalisation = codepoint;
 const char *digit = semicolon + 1;
-while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+if (*digit == '<' && (digit = strchr(digit, '>')) == nullptr)		// skip the formatting tag (e.g. <noBreak>)
+	return;
+while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 	{
 	if (*digit == ';')
 		{
@@ -733,7 +735,7 @@ void process_casefolding(const char *line)
 	semicolon = strchr(semicolon + 1, ';');
 	const char *digit = semicolon + 1;
 	std::vector<int> folded;						// the case folded translation
-	while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+	while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 		{
 		if (*digit == ';')
 			break;
-- 
2.43.0


From 29383f0c0a1bc145cca61252a23187fbb8f99b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:29 +0000
Subject: [PATCH 35/79] fix: the parser looks at the byte after the end of the
 document

---
 source/parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 102b07a..fdaa50d 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -137,7 +137,7 @@ namespace JASS
 			*buffer_pos++ = ascii::tolower(*current);
 			current++;
 		
-			while (ascii::isalpha(*current))
+			while (current < end_of_document && ascii::isalpha(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = ascii::tolower(*current);				// won't write on overflow
@@ -167,7 +167,7 @@ namespace JASS
 			*buffer_pos++ = *current;
 			current++;
 		
-			while (ascii::isdigit(*current))
+			while (current < end_of_document && ascii::isdigit(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = *current;				// won't write on overflow
@@ -250,6 +250,7 @@ namespace JASS
 					/*
 						was it an open tag or an empty tag?
 					*/
+					current = maths::minimum(current, end_of_document);				// an unclosed quote runs to the end of the document
 					if (*(current - 1) == '/')
 						current_token.type = current_token.xml_empty_tag;				// Empty tag
 					else
-- 
2.43.0


From 55d6dd7e0a5088fe086ef1b54fba5cde202b1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 36/79] fix: parser_unicoil_json invented an empty term from
 whatever follows the last term (and read past a final backslash)

---
 source/parser_unicoil_json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index da19741..2a4117b 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -99,6 +99,9 @@ namespace JASS
 					current++;
 					}
 
+				if (current >= end_of_document)
+					return eof_token;			// nothing but punctuation after the last term
+
 				current++;
 
 				/*
@@ -111,6 +114,8 @@ namespace JASS
 						if (buffer_pos < buffer_end)
 							*buffer_pos++ = *current;
 						current++;				// escaped characters in JSON
+						if (current >= end_of_document)
+							break;
 						}
 					else if (*current == '"')
 						break;
-- 
2.43.0


From 49f56822ef50c911992fe08801960abc2b8de09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:45 +0000
Subject: [PATCH 37/79] fix: a uniCOIL count that is missing, or too large for
 its type, was given the previous term's count

---
 source/parser_unicoil_json.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index 2a4117b..b5062a5 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -22,6 +22,7 @@
 */
 #pragma once
 
+#include <limits>
 #include <charconv>
 
 #include "ascii.h"
@@ -150,7 +151,9 @@ namespace JASS
 				*/
 				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 				current_token.type = token::alpha;
-				std::from_chars((char *)count_start, (char *)count_finish, current_token.count);
+				current_token.count = 0;
+				if (std::from_chars((char *)count_start, (char *)count_finish, current_token.count).ec == std::errc::result_out_of_range)
+					current_token.count = (std::numeric_limits<decltype(current_token.count)>::max)();
 
 				if (current_token.count > index_postings_impact::largest_impact)
 					{
-- 
2.43.0


From ad0e4f040dc4c79bc3255507e756ae115ee6d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:45 +0000
Subject: [PATCH 38/79] fix: parser_fasta read past the end of the document,
 repeated and lost k-mers, and gave them the type of the last header token

---
 source/parser_fasta.cpp | 73 +++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 46 deletions(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index ee17fdc..96df95a 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -23,64 +23,45 @@ namespace JASS
 	*/
 	const class parser::token &parser_fasta::get_next_token_dna(void)
 		{
-		/*
-			Skip over any leading spaces
-		*/
-		while (!ascii::isDNAbase(*current))
-			current++;
-
-		/*
-			Make sure we don't read past end of document
-		*/
-		if (current >= end_of_document)
-			return eof_token;
-
 		/*
 			Find the next k-mer.  If we encounter whitespace then we throw away the whitespace.
-			As a valid k-mer can only contain DNA bases, if we encounter a symbol that is invalid we skip that token and start at the next DNA base pair.
+			As a valid k-mer can only contain DNA bases, if we encounter a symbol that is invalid we throw away what we have and start again after it.
+			The k-mer after this one starts at the character after the first base of this one.
 		*/
 		uint8_t *buffer_pos = current_token.buffer;
-		const uint8_t *from = current++;
 		size_t byte = 0;
-		while (byte < kmer_length && from < end_of_document)
+		for (const uint8_t *from = current; byte < kmer_length; from++)
 			{
 			/*
-				Construct a single k-mer failing if we find a non-base character
+				Make sure we don't read past end of document
 			*/
-			byte = 0;
-			buffer_pos = current_token.buffer;
-			while (byte < kmer_length && from < end_of_document)
+			if (from >= end_of_document)
 				{
-				if (ascii::isspace(*from))
-					from++;								// skip over spaces
-				else if (ascii::isDNAbase(*from))
-					{
-					/*
-						Valid DNA bases get added to the token
-					*/
-					*buffer_pos++ = ascii::tolower(*from++);
-					byte++;
-					}
-				else
-					{
-					/*
-						Not a valid DNA base so start the token at the next chacter and the one after that (current) at the character after that.
-					*/
-					current = (++from) + 1;
-					break;
-					}
+				current = end_of_document;
+				return eof_token;
 				}
-			}
 
-		/*
-			Do we have enough characters to for a k-mer (or are we at EOF)?
-		*/
-		if (current >= end_of_document || byte != kmer_length)
-			return eof_token;
+			if (ascii::isDNAbase(*from))
+				{
+				/*
+					Valid DNA bases get added to the token
+				*/
+				if (byte == 0)
+					current = from + 1;
+				*buffer_pos++ = ascii::tolower(*from);
+				byte++;
+				}
+			else if (!ascii::isspace(*from))
+				{
+				/*
+					Not a valid DNA base so start the token again at the next chacter
+				*/
+				byte = 0;
+				buffer_pos = current_token.buffer;
+				}
+			}
 
-		/*
-			Return the k-mer as a token.
-		*/
+		current_token.type = token::alpha;
 		current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 		return current_token;
 		}
-- 
2.43.0


From 204d982be3be7dc2364ff35944cfa2a6c6b9cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 39/79] fix: precision and the number of relevant results
 returned count documents, they do not add up graded judgements (P@n exceeded
 1)

---
 source/evaluate_precision.cpp         | 3 ++-
 source/evaluate_relevant_returned.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/evaluate_precision.cpp b/source/evaluate_precision.cpp
index 749c37d..4e6b74f 100644
--- a/source/evaluate_precision.cpp
+++ b/source/evaluate_precision.cpp
@@ -31,7 +31,8 @@ namespace JASS
 			{
 			auto assessment = find(query_id, result);
 
-			found_and_relevant += assessment.score;
+			if (assessment.score != 0)
+				found_and_relevant++;
 
 			which++;
 
diff --git a/source/evaluate_relevant_returned.cpp b/source/evaluate_relevant_returned.cpp
index d79c597..c9af58c 100644
--- a/source/evaluate_relevant_returned.cpp
+++ b/source/evaluate_relevant_returned.cpp
@@ -25,7 +25,8 @@ namespace JASS
 			{
 			auto assessment = find(query_id, result);
 
-			found_and_relevant += assessment.score;
+			if (assessment.score != 0)
+				found_and_relevant++;
 
 			which++;
 
-- 
2.43.0


From 0c74f941eb7a69c1885de8f8b9aaf0e6e19b87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 40/79] fix: recall of a query with nothing relevant was 0/0
 (and so the averages over a run were not a number)

---
 source/evaluate_recall.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/evaluate_recall.cpp b/source/evaluate_recall.cpp
index b91e22c..8981931 100644
--- a/source/evaluate_recall.cpp
+++ b/source/evaluate_recall.cpp
@@ -23,6 +23,12 @@ namespace JASS
 		double found_and_relevant = 0;
 		size_t which = 0;
 
+		/*
+			Nothing to find scores 1 (as it does for MAP)
+		*/
+		if (relevant == 0 || depth == 0)
+			return 1;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
-- 
2.43.0


From c4cd2ccfadd318cd11862f4e0b49d6bd15703f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 41/79] fix: metrics at a depth of 0 looked at the first result

---
 source/evaluate_map.cpp                    | 2 +-
 source/evaluate_mean_reciprocal_rank.cpp   | 3 +++
 source/evaluate_mean_reciprocal_rank4k.cpp | 3 +++
 source/evaluate_rank_biased_precision.cpp  | 3 +++
 source/evaluate_relevant_returned.cpp      | 3 +++
 5 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/evaluate_map.cpp b/source/evaluate_map.cpp
index e0c1fc3..d74a605 100644
--- a/source/evaluate_map.cpp
+++ b/source/evaluate_map.cpp
@@ -29,7 +29,7 @@ namespace JASS
 		*/
 		if (number_of_relevant_assessments == 0)
 			return 1;
-		if (results_list.size() == 0)
+		if (results_list.size() == 0 || depth == 0)
 			return 0;
 
 		for (const auto &result : results_list)
diff --git a/source/evaluate_mean_reciprocal_rank.cpp b/source/evaluate_mean_reciprocal_rank.cpp
index 3f06836..cf695f3 100644
--- a/source/evaluate_mean_reciprocal_rank.cpp
+++ b/source/evaluate_mean_reciprocal_rank.cpp
@@ -20,6 +20,9 @@ namespace JASS
 		{
 		size_t which = 1;
 
+		if (depth == 0)
+			return 0;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
diff --git a/source/evaluate_mean_reciprocal_rank4k.cpp b/source/evaluate_mean_reciprocal_rank4k.cpp
index 1d539b7..8e0bd08 100644
--- a/source/evaluate_mean_reciprocal_rank4k.cpp
+++ b/source/evaluate_mean_reciprocal_rank4k.cpp
@@ -22,6 +22,9 @@ namespace JASS
 		size_t which = 1;
 		size_t found = 0;
 
+		if (depth == 0)
+			return 0;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
diff --git a/source/evaluate_rank_biased_precision.cpp b/source/evaluate_rank_biased_precision.cpp
index 2c7499e..5755419 100644
--- a/source/evaluate_rank_biased_precision.cpp
+++ b/source/evaluate_rank_biased_precision.cpp
@@ -21,6 +21,9 @@ namespace JASS
 		long double sum = 0;
 		size_t which = 1;
 
+		if (depth == 0)
+			return 0;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
diff --git a/source/evaluate_relevant_returned.cpp b/source/evaluate_relevant_returned.cpp
index c9af58c..0c16eb8 100644
--- a/source/evaluate_relevant_returned.cpp
+++ b/source/evaluate_relevant_returned.cpp
@@ -21,6 +21,9 @@ namespace JASS
 		double found_and_relevant = 0;
 		size_t which = 0;
 
+		if (depth == 0)
+			return 0;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
-- 
2.43.0


From 5f6d114d8d7d941e77908f2c3404e5bbb90e0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 42/79] fix: cheapest precision compared with the first items
 by document id (and one more), not with the cheapest

---
 source/evaluate_cheapest_precision.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/evaluate_cheapest_precision.cpp b/source/evaluate_cheapest_precision.cpp
index 934b94a..f2bef2c 100644
--- a/source/evaluate_cheapest_precision.cpp
+++ b/source/evaluate_cheapest_precision.cpp
@@ -39,7 +39,6 @@ namespace JASS
 				{
 				if ((*assessment).score != 0)
 					{
-					auto price = find_price((*assessment).document_id);
 					query_prices.push_back(*assessment);
 					}
 				}
@@ -52,7 +51,7 @@ namespace JASS
 		if (query_prices.size() == 0 || depth == 0)
 			return 1;
 
-		std::sort(query_prices.begin(), query_prices.end());
+		std::sort(query_prices.begin(), query_prices.end(), [this](const judgement &left, const judgement &right) { return find_price(left.document_id).score < find_price(right.document_id).score; });
 
 		/*
 			Slice the relevant item list for this query at either depth or the number of items in the results list
@@ -61,12 +60,13 @@ namespace JASS
 		size_t slice_point = JASS::maths::minimum(depth, results_list.size());
 		if (slice_point < query_prices.size())
 			{
-			auto price = find_price(query_prices[slice_point].document_id).score;
+			auto price = find_price(query_prices[slice_point - 1].document_id).score;
 			while (slice_point < query_prices.size() && find_price(query_prices[slice_point].document_id).score == price)
 					slice_point++;
 					
 			query_prices.resize(slice_point);
 			}
+		std::sort(query_prices.begin(), query_prices.end());
 
 
 		/*
-- 
2.43.0


From 870b331fdb2c6fb793345c1aed83254c615a9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 43/79] fix: JASS_eval reported average precision as rank
 biased precision

---
 tools/JASS_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index 4ce053d..ab8b420 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -833,7 +833,7 @@ metric_set evaluate_query(const std::string &run_id, const std::string &query_id
 	double map = evaluate_map_computer.compute(query_id, results_list, depth);
 
 	JASS::evaluate_rank_biased_precision evaluate_rbp_computer(parameter_probability, gold_standard_assessments);
-	double rbp = evaluate_map_computer.compute(query_id, results_list, depth);
+	double rbp = evaluate_rbp_computer.compute(query_id, results_list, depth);
 
 	size_t number_of_relvant_assessments = evaluate_map_computer.relevance_count(query_id);
 
-- 
2.43.0


From ce11a4821955ddaedc0c18893a91cf1773d20a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 44/79] fix: Relative-10 decoded the fourth of ten 3-bit
 integers from the wrong bits

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2d67112..2943b2a 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -243,7 +243,7 @@ namespace JASS
 						*destination++ = value & 0x7;
 						*destination++ = (value >> 3) & 0x7;
 						*destination++ = (value >> 6) & 0x7;
-						*destination++ = (value >> 8) & 0x7;
+						*destination++ = (value >> 9) & 0x7;
 						*destination++ = (value >> 12) & 0x7;
 						*destination++ = (value >> 15) & 0x7;
 						*destination++ = (value >> 18) & 0x7;
-- 
2.43.0


From f415a009023e3b9efa29acbb74140cc210816cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 45/79] fix: Carry-8b decoded the last of four 15-bit integers
 from the wrong bits

---
 source/compress_integer_carry_8b.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carry_8b.cpp b/source/compress_integer_carry_8b.cpp
index 92533bb..2e98ed3 100644
--- a/source/compress_integer_carry_8b.cpp
+++ b/source/compress_integer_carry_8b.cpp
@@ -566,7 +566,7 @@ printf("[%d] Decode:%d\n", (int)(destination - destination_at_start), (int)(sele
 					*(destination + 0) = payload >> 0 & 0x7FFF;
 					*(destination + 1) = payload >> 15 & 0x7FFF;
 					*(destination + 2) = payload >> 30 & 0x7FFF;
-					*(destination + 3) = payload >> 15 & 0x7FFF;
+					*(destination + 3) = payload >> 45 & 0x7FFF;
 					destination += 4;
 
 					source++;
-- 
2.43.0


From 649543025615e024318bef65e727cdc48935536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 46/79] fix: Carryover-12 lost the top two bits of a 30-bit
 integer when decoding

---
 source/compress_integer_carryover_12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carryover_12.cpp b/source/compress_integer_carryover_12.cpp
index ed7b2c4..01dd3ad 100644
--- a/source/compress_integer_carryover_12.cpp
+++ b/source/compress_integer_carryover_12.cpp
@@ -575,7 +575,7 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 					payload = *source >> 2;
 					break;
 				case 23:
-					*(destination + 0) = payload >> 0 & 0x0FFFFFFF;
+					*(destination + 0) = payload >> 0 & 0x3FFFFFFF;
 					destination++;
 
 #ifdef CARRY_DEBUG
-- 
2.43.0


From 30633dee13eb0ddbc6f28ea0ca57263a684a7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 47/79] fix: packed Simple-9 and Simple-16 truncated a last
 integer of more than 28 bits, and wrote a single integer beyond a destination
 too small for it

---
 source/compress_integer_simple_16_packed.cpp | 8 +++++++-
 source/compress_integer_simple_9_packed.cpp  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 7bb0fde..7a92cf3 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28 || destination_length < sizeof(*into))
 				return 0;
 
 			/*
@@ -155,6 +155,12 @@ namespace JASS
 			pos++;
 			}
 			
+		/*
+			The last integer is not looked at by the optimiser, so check that it fits
+		*/
+		if (source[source_integers - 1] >= 1 << 28)
+			return 0;
+
 		/*
 			Init last value to pack-by-self
 		*/
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index c984ffd..bfc43c3 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -125,7 +125,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28 || destination_length < sizeof(*into))
 				return 0;
 				
 			/*
@@ -148,6 +148,12 @@ namespace JASS
 			pos++;
 			}
 			
+		/*
+			The last integer is not looked at by the optimiser, so check that it fits
+		*/
+		if (source[source_integers - 1] >= 1 << 28)
+			return 0;
+
 		/*
 			init last value to pack-by-self
 		*/
-- 
2.43.0


From 87694d895792657ade7dfbed42dfdc3773594381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 48/79] fix: Lyck-16 packed integers wider than the fields they
 were put in

---
 source/compress_integer_lyck_16.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/compress_integer_lyck_16.cpp b/source/compress_integer_lyck_16.cpp
index ef9c462..2c732b3 100644
--- a/source/compress_integer_lyck_16.cpp
+++ b/source/compress_integer_lyck_16.cpp
@@ -34,7 +34,7 @@ namespace JASS
 				return 0;
 
 			uint32_t integers_to_encode;
-			size_t cumulative = 0;
+			size_t widest = 0;
 			uint32_t ending = source_integers > 16 ? 16 : (uint32_t)source_integers;
 			for (integers_to_encode = 0; integers_to_encode < ending; integers_to_encode++)
 				{
@@ -46,10 +46,10 @@ namespace JASS
 					return 0;
 
 				/*
-					Check to see if we still fit in the current word
+					Check to see if we still fit in the current word (where all the integers are given the same number of bits)
 				*/
-				cumulative += bits;
-				if (cumulative > 16)
+				widest = maths::maximum(widest, static_cast<size_t>(bits));
+				if (widest * (integers_to_encode + 1) > 16)
 					break;
 				}
 
-- 
2.43.0


From 48c5171cc0dac475c43ff7696cf9901d83256700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 49/79] fix: Elias gamma and Elias delta wrote beyond a
 destination that is too small

---
 source/compress_integer_elias_delta.cpp | 16 ++++++++++++++++
 source/compress_integer_elias_gamma.cpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/source/compress_integer_elias_delta.cpp b/source/compress_integer_elias_delta.cpp
index 9a5f799..b4c8322 100644
--- a/source/compress_integer_elias_delta.cpp
+++ b/source/compress_integer_elias_delta.cpp
@@ -4,6 +4,8 @@
 	Copyright (c) 2018 Andrew Trotman
 	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
 */
+#include <vector>
+#include <algorithm>
 #include <string.h>
 #include <immintrin.h>
 
@@ -19,6 +21,20 @@ namespace JASS
 	size_t compress_integer_elias_delta::encode(void *encoded_as_void, size_t encoded_buffer_length, const integer *source, size_t source_integers)
 		{
 		uint8_t *encoded = static_cast<uint8_t *>(encoded_as_void);
+		/*
+			If the output might not fit then encode into a buffer that is certainly large enough and see
+		*/
+		size_t worst_case = source_integers * sizeof(uint64_t) + sizeof(uint64_t);
+		if (encoded_buffer_length < worst_case)
+			{
+			std::vector<uint8_t> buffer(worst_case);
+			size_t used = compress_integer_elias_delta::encode(buffer.data(), worst_case, source, source_integers);
+			if (used > encoded_buffer_length)
+				return 0;
+			std::copy(buffer.begin(), buffer.begin() + used, static_cast<uint8_t *>(encoded_as_void));
+			return used;
+			}
+
 
 		/*
 			Zero the destination array
diff --git a/source/compress_integer_elias_gamma.cpp b/source/compress_integer_elias_gamma.cpp
index 51c3758..d0b4223 100644
--- a/source/compress_integer_elias_gamma.cpp
+++ b/source/compress_integer_elias_gamma.cpp
@@ -4,6 +4,8 @@
 	Copyright (c) 2018 Andrew Trotman
 	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
 */
+#include <vector>
+#include <algorithm>
 #include <string.h>
 #include <immintrin.h>
 
@@ -19,6 +21,20 @@ namespace JASS
 	size_t compress_integer_elias_gamma::encode(void *encoded_as_void, size_t encoded_buffer_length, const integer *source, size_t source_integers)
 		{
 		uint8_t *encoded = static_cast<uint8_t *>(encoded_as_void);
+		/*
+			If the output might not fit then encode into a buffer that is certainly large enough and see
+		*/
+		size_t worst_case = source_integers * sizeof(uint64_t) + sizeof(uint64_t);
+		if (encoded_buffer_length < worst_case)
+			{
+			std::vector<uint8_t> buffer(worst_case);
+			size_t used = compress_integer_elias_gamma::encode(buffer.data(), worst_case, source, source_integers);
+			if (used > encoded_buffer_length)
+				return 0;
+			std::copy(buffer.begin(), buffer.begin() + used, static_cast<uint8_t *>(encoded_as_void));
+			return used;
+			}
+
 
 		/*
 			zero the destination array
-- 
2.43.0


From e05d42c0144997774d5d08dc6c6bc9349252c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 50/79] fix: Stream VByte wrote beyond a destination that is
 too small

---
 source/compress_integer_stream_vbyte.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/compress_integer_stream_vbyte.cpp b/source/compress_integer_stream_vbyte.cpp
index b66ffbf..11f6593 100644
--- a/source/compress_integer_stream_vbyte.cpp
+++ b/source/compress_integer_stream_vbyte.cpp
@@ -4,6 +4,8 @@
 	Copyright (c) 2016 Andrew Trotman
 	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
 */
+#include <vector>
+#include <algorithm>
 #include <string.h>
 #include <stdio.h>
 
@@ -30,6 +32,20 @@ namespace JASS
 	*/
 	size_t compress_integer_stream_vbyte::encode(void *encoded_as_void, size_t encoded_buffer_length, const integer *source, size_t source_integers)
 		{
+		/*
+			If the output might not fit then encode into a buffer that is certainly large enough and see
+		*/
+		size_t worst_case = streamvbyte::streamvbyte_max_compressedbytes(static_cast<uint32_t>(source_integers)) + 16;
+		if (encoded_buffer_length < worst_case)
+			{
+			std::vector<uint8_t> buffer(worst_case);
+			size_t used = compress_integer_stream_vbyte::encode(buffer.data(), worst_case, source, source_integers);
+			if (used > encoded_buffer_length)
+				return 0;
+			std::copy(buffer.begin(), buffer.begin() + used, static_cast<uint8_t *>(encoded_as_void));
+			return used;
+			}
+
 		return streamvbyte::streamvbyte_encode(const_cast<integer *>(source), static_cast<uint32_t>(source_integers), static_cast<uint8_t *>(encoded_as_void));
 		}
 
-- 
2.43.0


From d95028804f0cdbd30789d56477e18882ef43bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 51/79] fix: the QMX codecs wrote beyond a destination that is
 too small

---
 source/compress_integer_qmx_improved.cpp | 15 +++++++++++++++
 source/compress_integer_qmx_jass_v1.cpp  | 16 ++++++++++++++++
 source/compress_integer_qmx_original.cpp | 16 ++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/source/compress_integer_qmx_improved.cpp b/source/compress_integer_qmx_improved.cpp
index 016d020..1a11f50 100644
--- a/source/compress_integer_qmx_improved.cpp
+++ b/source/compress_integer_qmx_improved.cpp
@@ -34,6 +34,7 @@
 	Note:  There is currently 1 unused encoding (i.e. 16 unused selecvtor values).  These might in the future be
 	used for encoding exceptions, much as PForDelta does.
 */
+#include <algorithm>
 #include <array>
 #include <vector>
 #include <iostream>
@@ -401,6 +402,20 @@ namespace JASS
 		{
 		uint32_t *into = static_cast<uint32_t *>(into_as_void);
 		const uint32_t WASTAGE = 512;
+		/*
+			If the output might not fit then encode into a buffer that is certainly large enough and see
+		*/
+		size_t worst_case = source_integers * 8 + 4096;
+		if (encoded_buffer_length < worst_case)
+			{
+			std::vector<uint8_t> buffer(worst_case);
+			size_t used = compress_integer_qmx_improved::encode(buffer.data(), worst_case, source, source_integers);
+			if (used > encoded_buffer_length)
+				return 0;
+			std::copy(buffer.begin(), buffer.begin() + used, static_cast<uint8_t *>(into_as_void));
+			return used;
+			}
+
 		uint8_t *current_length, *destination = (uint8_t *)into, *keys;
 		uint32_t *current, run_length, bits, wastage;
 		uint32_t block, largest;
diff --git a/source/compress_integer_qmx_jass_v1.cpp b/source/compress_integer_qmx_jass_v1.cpp
index 93b25b9..436b5b6 100755
--- a/source/compress_integer_qmx_jass_v1.cpp
+++ b/source/compress_integer_qmx_jass_v1.cpp
@@ -34,6 +34,8 @@
 	Note:  There is currently 1 unused encoding (i.e. 16 unused selecvtor values).  These might in the future be
 	used for encoding exceptions, much as PForDelta does.
 */
+#include <vector>
+#include <algorithm>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -443,6 +445,20 @@ size_t compress_integer_qmx_jass_v1::encode(void *encoded, size_t encoded_buffer
 {
 uint32_t *into = (uint32_t *)encoded;
 const uint32_t WASTAGE = 512;
+/*
+	If the output might not fit then encode into a buffer that is certainly large enough and see
+*/
+size_t worst_case = source_integers * 8 + 4096;
+if (encoded_buffer_length < worst_case)
+	{
+	std::vector<uint8_t> buffer(worst_case);
+	size_t used = compress_integer_qmx_jass_v1::encode(buffer.data(), worst_case, source, source_integers);
+	if (used > encoded_buffer_length)
+		return 0;
+	std::copy(buffer.begin(), buffer.begin() + used, static_cast<uint8_t *>(encoded));
+	return used;
+	}
+
 uint8_t *current_length, *destination = (uint8_t *)into, *keys;
 uint32_t *current, run_length, bits, wastage;
 uint32_t block, largest;
diff --git a/source/compress_integer_qmx_original.cpp b/source/compress_integer_qmx_original.cpp
index bbc0c07..ba69c25 100644
--- a/source/compress_integer_qmx_original.cpp
+++ b/source/compress_integer_qmx_original.cpp
@@ -4,6 +4,8 @@
 	Copyright (c) 2014-2017 Andrew Trotman
 	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
 */
+#include <vector>
+#include <algorithm>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -487,6 +489,20 @@ namespace JASS
 		{
 		uint32_t *into = static_cast<uint32_t *>(into_as_void);
 		const uint32_t WASTAGE = 512;
+		/*
+			If the output might not fit then encode into a buffer that is certainly large enough and see
+		*/
+		size_t worst_case = source_integers * 8 + 4096;
+		if (encoded_buffer_length < worst_case)
+			{
+			std::vector<uint8_t> buffer(worst_case);
+			size_t used = compress_integer_qmx_original::encode(buffer.data(), worst_case, source, source_integers);
+			if (used > encoded_buffer_length)
+				return 0;
+			std::copy(buffer.begin(), buffer.begin() + used, static_cast<uint8_t *>(into_as_void));
+			return used;
+			}
+
 		uint8_t *current_length, *destination = (uint8_t *)into, *keys;
 		uint32_t *current, run_length, bits, wastage;
 		uint32_t block, largest;
-- 
2.43.0


From 7d80a86f082d01ce657a14c297458d3cd93cb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 52/79] fix: packed Simple-8b wrote a single integer beyond a
 destination too small for it

---
 source/compress_integer_simple_8b_packed.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_simple_8b_packed.cpp b/source/compress_integer_simple_8b_packed.cpp
index f535d73..2ac9543 100644
--- a/source/compress_integer_simple_8b_packed.cpp
+++ b/source/compress_integer_simple_8b_packed.cpp
@@ -154,7 +154,7 @@ namespace JASS
 				Note: Coverity Scan complains about the line below because integer is a uint32_t and a uin32_t cannot exceed 1<<60
 			*/
 			/* coverity[CONSTANT_EXPRESSION_RESULT] */
-			if (static_cast<uint64_t>(*source) > (1ULL << 60))
+			if (static_cast<uint64_t>(*source) > (1ULL << 60) || destination_length < sizeof(*into))
 				return 0;
 
 			/*
-- 
2.43.0


From 98fd530a57f4187c6babffd386a7aca7c9365d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 53/79] fix: Relative-10 wrote beyond a destination whose size
 is not a multiple of 4

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2943b2a..4fff96e 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -127,7 +127,7 @@ namespace JASS
 		*/
 		for (words_in_compressed_string = 1; pos < source_integers; words_in_compressed_string++)  //outer loop: loops thru' all the elements in source[]
 			{
-			if (into >= end)
+			if (into + 1 > end)
 				return 0;
 			needed = 0;
 			for (term = 0; term < 30 && pos + term < source_integers; term++)
-- 
2.43.0


From ff584fd0dc4e152c617aa673ebff2a06ecd13c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 54/79] fix: Group Elias Delta SIMD let payloads and selectors
 overwrite each other, and wrote beyond the destination, when it is too small

---
 source/compress_integer_elias_delta_simd.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/compress_integer_elias_delta_simd.cpp b/source/compress_integer_elias_delta_simd.cpp
index 4b14046..2e30a3e 100644
--- a/source/compress_integer_elias_delta_simd.cpp
+++ b/source/compress_integer_elias_delta_simd.cpp
@@ -102,7 +102,6 @@ namespace JASS
 		uint64_t accumulated_selector = 0;
 
 		uint32_t *destination = reinterpret_cast<uint32_t *>(encoded);
-		uint32_t *end_of_destination = (uint32_t *)((uint8_t *)encoded + encoded_buffer_length);
 		uint32_t carryover = 0;
 		uint32_t actual_max_width = 0;
 
@@ -125,7 +124,7 @@ namespace JASS
 			/*
 				Check for overflow of the output buffer
 			*/
-			if (destination > end_of_destination)
+			if (destination > selector)
 				return 0;
 
 			/*
@@ -182,7 +181,7 @@ namespace JASS
 				/*
 					Check for underflow of the selector pointr
 				*/
-				if (selector < reinterpret_cast<uint32_t *>(encoded))
+				if (selector < destination)
 					return 0;
 
 				/*
@@ -231,6 +230,8 @@ namespace JASS
 		/*
 			Flush the last selector the move the selectors to the end of the payloads
 		*/
+		if (destination > selector)
+			return 0;
 		*selector = static_cast<uint32_t>(accumulated_selector & 0xFFFFFFFFFFFFFFFF);
 		size_t length_of_selectors = ((reinterpret_cast<uint8_t *>(encoded) + encoded_buffer_length)) - reinterpret_cast<uint8_t *>(selector);
 		memmove(destination, selector, length_of_selectors);
-- 
2.43.0


From 70d19362d489823d6f0fd5aaace14d995bc3ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 55/79] fix: Group Elias Gamma SIMD with Variable Byte reported
 success after its variable byte part did not fit (and miscalculated the space
 it has)

---
 source/compress_integer_elias_gamma_simd_vb.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_elias_gamma_simd_vb.cpp b/source/compress_integer_elias_gamma_simd_vb.cpp
index 6769573..a8df171 100755
--- a/source/compress_integer_elias_gamma_simd_vb.cpp
+++ b/source/compress_integer_elias_gamma_simd_vb.cpp
@@ -58,6 +58,8 @@ namespace JASS
 		/*
 			Store the length of the variable byte part
 		*/
+		if (encoded_buffer_length < sizeof(*destination))
+			return 0;
 		*destination++ = 0;			// store as a 4-byte integer to start with (variable byte encode it later)
 		while (1)
 			{
@@ -155,7 +157,7 @@ namespace JASS
 							if (vbyte_size < elias_size)
 								{
 								// re-code the codeword
-								vbyte_size = compress_integer_variable_byte::encode(selector, end_of_destination - selector, array_at_start_of_codeword, elements_at_start_of_codeword);
+								vbyte_size = compress_integer_variable_byte::encode(selector, (end_of_destination - selector) * sizeof(*selector), array_at_start_of_codeword, elements_at_start_of_codeword);
 								destination = selector;
 								}
 							else
@@ -167,8 +169,11 @@ namespace JASS
 								encodings[slice - 1] += encodings[slice];
 								encodings[slice] = 0;
 								*selector = compute_selector(encodings);
-								vbyte_size = compress_integer_variable_byte::encode(destination, end_of_destination - selector, array, elements);
+								vbyte_size = compress_integer_variable_byte::encode(destination, (end_of_destination - destination) * sizeof(*destination), array, elements);
 								}
+							if (vbyte_size == 0)
+								return 0;
+
 							uint32_t *vb_length_locaton = (uint32_t *)encoded;
 							*vb_length_locaton = vbyte_size;
 
-- 
2.43.0


From 368167ddf10a2db452f96b556d689a25f803ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 56/79] fix: QMX JASS v1 crashed decoding an encoding that is
 not 16-byte aligned, as every one in a version 2 index may be

---
 source/compress_integer_qmx_jass_v1.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/compress_integer_qmx_jass_v1.cpp b/source/compress_integer_qmx_jass_v1.cpp
index 436b5b6..b3069ca 100755
--- a/source/compress_integer_qmx_jass_v1.cpp
+++ b/source/compress_integer_qmx_jass_v1.cpp
@@ -1724,6 +1724,16 @@ void compress_integer_qmx_jass_v1::decode(integer *to, size_t destination_intege
 {
 uint32_t *source = (uint32_t *)source_void;
 __m128i byte_stream, byte_stream_2, tmp, tmp2, mask_21, mask_12, mask_10, mask_9, mask_7, mask_6, mask_5, mask_4, mask_3, mask_2, mask_1;
+/*
+	The payloads are read with aligned loads.  If they are not aligned (e.g. a JASS v2 index does not pad) then decode an aligned copy.
+*/
+std::vector<__m128i> aligned;
+if (reinterpret_cast<uintptr_t>(source_void) % sizeof(__m128i) != 0)
+	{
+	aligned.resize(len / sizeof(__m128i) + 5);
+	memcpy(aligned.data(), source_void, len);
+	source = (uint32_t *)aligned.data();
+	}
 uint8_t *in = (uint8_t *)source;
 uint8_t *keys = ((uint8_t *)source) + len - 1;
 
-- 
2.43.0


From a5af59f17fd3a653c7620ae05dd99b29d5471c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 57/79] fix: Carryover-12 read the word beyond the end of an
 encoding that ends with a full codeword

---
 source/compress_integer_carryover_12.cpp | 70 ++++++++++++++++--------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/source/compress_integer_carryover_12.cpp b/source/compress_integer_carryover_12.cpp
index 01dd3ad..826448a 100644
--- a/source/compress_integer_carryover_12.cpp
+++ b/source/compress_integer_carryover_12.cpp
@@ -180,6 +180,7 @@ printf("source[%d] %d * %d-bits [%d->%d]\n", (int)used, (int)transition_table[tr
 #endif
 		const integer *end = destination + integers_to_decode;
 		const uint32_t *source = static_cast<const uint32_t *>(compressed);
+		const uint32_t *end_of_source = source + compressed_size_in_bytes / sizeof(*source);		// nothing beyond this point can be read
 
 		/*
 			Get the initial selector
@@ -230,7 +231,8 @@ printf("destination[%d] ", (int)(destination - start_of_output));
 					*(destination + 29) = payload >> 29 & 0x01;
 					destination += 30;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -255,7 +257,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 					*(destination + 14) = payload >> 28 & 0x03;
 					destination += 15;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -275,7 +278,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 					*(destination + 9) = payload >> 27 & 0x07;
 					destination += 10;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -296,7 +300,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 28) & 0x03), (int)transition_table[selector].new_selector[(payload >> 28) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 28) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 4:
@@ -308,7 +313,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 					*(destination + 5) = payload >> 25 & 0x1F;
 					destination += 6;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -323,7 +329,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 					*(destination + 4) = payload >> 24 & 0x3F;
 					destination += 5;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -341,7 +348,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 28) & 0x03), (int)transition_table[selector].new_selector[(payload >> 28) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 28) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 7:
@@ -354,7 +362,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 28) & 0x03), (int)transition_table[selector].new_selector[(payload >> 28) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 28) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 8:
@@ -363,7 +372,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 					*(destination + 2) = payload >> 20 & 0x3FF;
 					destination += 3;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -379,7 +389,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 28) & 0x03), (int)transition_table[selector].new_selector[(payload >> 28) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 28) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 10:
@@ -387,7 +398,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 					*(destination + 1) = payload >> 15 & 0x7FFF;
 					destination += 2;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -402,7 +414,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 28) & 0x03), (int)transition_table[selector].new_selector[(payload >> 28) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 28) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 
@@ -433,7 +446,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 					*(destination + 15) = payload >> 30 & 0x03;
 					destination += 16;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -457,7 +471,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 30) & 0x03), (int)transition_table[selector].new_selector[(payload >> 30) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 30) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 15:
@@ -471,7 +486,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 					*(destination + 7) = payload >> 28 & 0x0F;
 					destination += 8;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -491,7 +507,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 30) & 0x03), (int)transition_table[selector].new_selector[(payload >> 30) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 30) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 17:
@@ -506,7 +523,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 30) & 0x03), (int)transition_table[selector].new_selector[(payload >> 30) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 30) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 18:
@@ -520,7 +538,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 30) & 0x03), (int)transition_table[selector].new_selector[(payload >> 30) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 30) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 19:
@@ -530,7 +549,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 					*(destination + 3) = payload >> 24 & 0xFF;
 					destination += 4;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -547,7 +567,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 30) & 0x03), (int)transition_table[selector].new_selector[(payload >> 30) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 30) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 21:
@@ -559,7 +580,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 30) & 0x03), (int)transition_table[selector].new_selector[(payload >> 30) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 30) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				case 22:
@@ -567,7 +589,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >>
 					*(destination + 1) = payload >> 16 & 0xFFFF;
 					destination += 2;
 
-					source++;
+					if (++source >= end_of_source)
+						return;
 #ifdef CARRY_DEBUG
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0x03), (int)transition_table[selector].new_selector[*source & 0x03]);
 #endif
@@ -582,7 +605,8 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)((payload >> 30) & 0x03), (int)transition_table[selector].new_selector[(payload >> 30) & 0x03]);
 #endif
 					selector = transition_table[selector].new_selector[(payload >> 30) & 0x03];
-					source++;
+					if (++source >= end_of_source)
+						return;
 					payload = *source;
 					break;
 				}
-- 
2.43.0


From f42aa80fffeb819793197cb8b84fc92010b17b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 58/79] fix: query_bucket had no bucket for the largest score

---
 source/query_bucket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/query_bucket.h b/source/query_bucket.h
index c780d3c..b844bb0 100755
--- a/source/query_bucket.h
+++ b/source/query_bucket.h
@@ -204,7 +204,7 @@ namespace JASS
 
 			static constexpr size_t rounded_top_k_filter = rounded_top_k - 1;
 
-			static constexpr size_t number_of_buckets = (std::numeric_limits<ACCUMULATOR_TYPE>::max)() > 0xFFFF ? 0xFFFF : (std::numeric_limits<ACCUMULATOR_TYPE>::max)();
+			static constexpr size_t number_of_buckets = ((std::numeric_limits<ACCUMULATOR_TYPE>::max)() > 0xFFFF ? 0xFFFF : (std::numeric_limits<ACCUMULATOR_TYPE>::max)()) + 1;
 			DOCID_TYPE bucket[number_of_buckets][rounded_top_k];						///< The array of buckets to use.
 			ACCUMULATOR_TYPE largest_used_bucket;											///< The largest bucket used (to decrease cost of initialisation and search)
 			ACCUMULATOR_TYPE smallest_used_bucket;											///< The smallest bucket used (to decrease cost of initialisation and search)
@@ -258,7 +258,7 @@ namespace JASS
 				{
 				query::init(primary_keys, documents, top_k);
 				accumulators.init(documents, width);
-				rewind(0, number_of_buckets);
+				rewind(0, 0, number_of_buckets - 1);
 				}
 
 			/*
-- 
2.43.0


From 067066de14628819db1840443783f1efbc9ddd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 59/79] fix: query_bucket lost every document in a bucket once
 256 documents had been through it

---
 source/query_bucket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/query_bucket.h b/source/query_bucket.h
index b844bb0..8e53c0d 100755
--- a/source/query_bucket.h
+++ b/source/query_bucket.h
@@ -208,7 +208,7 @@ namespace JASS
 			DOCID_TYPE bucket[number_of_buckets][rounded_top_k];						///< The array of buckets to use.
 			ACCUMULATOR_TYPE largest_used_bucket;											///< The largest bucket used (to decrease cost of initialisation and search)
 			ACCUMULATOR_TYPE smallest_used_bucket;											///< The smallest bucket used (to decrease cost of initialisation and search)
-			uint8_t bucket_depth[number_of_buckets];										///< The number of documents in the given bucket
+			uint32_t bucket_depth[number_of_buckets];										///< The number of documents in the given bucket
 
 		public:
 			/*
-- 
2.43.0


From 39e737a077dd38a910c23d4262a76818af61e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 60/79] fix: query_bucket dropped the documents with the
 smallest possible score, and with 64-bit accumulators did not stop at bucket
 0

---
 source/query_bucket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/query_bucket.h b/source/query_bucket.h
index 8e53c0d..8c2ca37 100755
--- a/source/query_bucket.h
+++ b/source/query_bucket.h
@@ -352,7 +352,7 @@ namespace JASS
 						Turn into keys for sorting
 					*/
 					accumulators_used = 0;
-					for (size_t current_bucket = largest_used_bucket; current_bucket >= smallest_used_bucket; current_bucket--)
+					for (size_t current_bucket = (size_t)largest_used_bucket + 1; current_bucket-- > smallest_used_bucket; )
 						{
 						size_t end_looking_at = maths::minimum((size_t)bucket_depth[current_bucket], (size_t)rounded_top_k);
 						for (size_t which = 0; which < end_looking_at; which++)
@@ -394,7 +394,7 @@ namespace JASS
 						Copy to the array of pointers for sorting
 					*/
 					accumulators_used = 0;
-					for (size_t current_bucket = largest_used_bucket; current_bucket > smallest_used_bucket; current_bucket--)
+					for (size_t current_bucket = (size_t)largest_used_bucket + 1; current_bucket-- > smallest_used_bucket; )
 						{
 						size_t end_looking_at = maths::minimum((size_t)bucket_depth[current_bucket], (size_t)rounded_top_k);
 						for (size_t which = 0; which < end_looking_at; which++)
-- 
2.43.0


From 7e4b04255087a401d03dff21e35d9fd731dbdcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 61/79] fix: query_bucket looked for conflicts between bucket
 depths rather than between buckets

---
 source/query_bucket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/query_bucket.h b/source/query_bucket.h
index 8c2ca37..8230429 100755
--- a/source/query_bucket.h
+++ b/source/query_bucket.h
@@ -546,7 +546,7 @@ namespace JASS
 				/*
 					Compute the new indexes for each document ID
 				*/
-				__m512i conflict = _mm512_conflict_epi32(depths);
+				__m512i conflict = _mm512_conflict_epi32(values);
 				__m512i new_index = simd::popcount(conflict);
 				depths = _mm512_add_epi32(depths, new_index);
 
-- 
2.43.0


From 4fc03263c0d7f63d481795a8cd082745a2742265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 62/79] fix: query_bucket sorted the results on where their
 accumulators are rather than on score

---
 source/query_bucket.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/query_bucket.h b/source/query_bucket.h
index 8230429..0de86b1 100755
--- a/source/query_bucket.h
+++ b/source/query_bucket.h
@@ -14,6 +14,7 @@
 
 #include "heap.h"
 #include "query.h"
+#include "pointer_box.h"
 #include "accumulator_2d.h"
 #include "sort512_uint64_t.h"
 #include "accumulator_counter.h"
@@ -422,7 +423,7 @@ namespace JASS
 
 	#ifdef JASS_TOPK_SORT
 					// CHECKED
-					top_k_qsort::sort(accumulator_pointers, accumulators_used, top_k);
+					top_k_qsort::sort(reinterpret_cast<pointer_box<ACCUMULATOR_TYPE> *>(accumulator_pointers), accumulators_used, top_k);
 	#elif defined(CPP_TOPK_SORT)
 					// CHECKED
 					std::partial_sort(accumulator_pointers, accumulator_pointers + (top_k < accumulators_used ? top_k : accumulators_used), accumulator_pointers + accumulators_used, [](const ACCUMULATOR_TYPE *a, const ACCUMULATOR_TYPE *b) -> bool { return *a > *b ? true : *a < *b ? false : a > b; });
-- 
2.43.0


From 3b2dfde60d2cb230590eb71deb87a2fd7231acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 63/79] fix: query_maxblock and query_maxblock_heap looked for
 results beyond the last document, where scores from an earlier collection may
 be

---
 source/query_maxblock.h      | 2 +-
 source/query_maxblock_heap.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/query_maxblock.h b/source/query_maxblock.h
index 005a4ea..ec7a4a4 100755
--- a/source/query_maxblock.h
+++ b/source/query_maxblock.h
@@ -370,7 +370,7 @@ namespace JASS
 					for (size_t page = 0; page < number_of_blocks; page++)
 						if (page_maximum[page] != 0)
 							{
-							for (size_t which = page * block_width; which < page * block_width + block_width; which++)
+							for (size_t which = page * block_width; which < maths::minimum(page * block_width + block_width, (size_t)documents); which++)
 								{
 								if (accumulators.get_value(which) != 0)
 									{
diff --git a/source/query_maxblock_heap.h b/source/query_maxblock_heap.h
index a88a338..d42dcca 100755
--- a/source/query_maxblock_heap.h
+++ b/source/query_maxblock_heap.h
@@ -381,7 +381,7 @@ namespace JASS
 						if (*page_maximum_pointers[page] != 0 && *page_maximum_pointers[page] >= (sorted_accumulators[0] >> 32))
 							{
 							size_t start = (page_maximum_pointers[page] - page_maximum) * block_width;
-							for (size_t which = start; which < start + block_width; which++)
+							for (size_t which = start; which < maths::minimum(start + block_width, (size_t)documents); which++)
 								{
 								uint64_t key = ((uint64_t)accumulators[which] << (uint64_t)32) | which;
 								if (accumulators.get_value(which) > 0 && key > sorted_accumulators[0])			// == 0 is the case where we're the current bottom of heap so might need to be promoted
@@ -406,7 +406,7 @@ namespace JASS
 						if (*page_maximum_pointers[page] != 0 && *page_maximum_pointers[page] >= *accumulator_pointers[0])
 							{
 							size_t start = (page_maximum_pointers[page] - page_maximum) * block_width;
-							for (size_t which = start; which < start + block_width; which++)
+							for (size_t which = start; which < maths::minimum(start + block_width, (size_t)documents); which++)
 								{
 								if (accumulators.get_value(which) > 0)
 									{
-- 
2.43.0


From 5522e0eab9e1aad666ee9b7faf13dfbab912b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 64/79] fix: query_maxblock with the AVX-512 sort kept the
 lowest scoring documents

---
 source/query_maxblock.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/query_maxblock.h b/source/query_maxblock.h
index ec7a4a4..78a9006 100755
--- a/source/query_maxblock.h
+++ b/source/query_maxblock.h
@@ -404,6 +404,7 @@ namespace JASS
 	#elif defined(AVX512_SORT)
 // NOT CHECKED
 					Sort512_uint64_t::Sort(sorted_accumulators, non_zero_accumulators);
+					std::reverse(sorted_accumulators, sorted_accumulators + non_zero_accumulators);
 					non_zero_accumulators = maths::minimum(non_zero_accumulators, top_k);
 	#endif
 #else
-- 
2.43.0


From 40ce868e5daacd086be7fbb9634dbf52d67a54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 65/79] fix: Sort512_uint64_t crashed sorting nothing

---
 source/sort512_uint64_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/sort512_uint64_t.h b/source/sort512_uint64_t.h
index b03bde9..a92a539 100755
--- a/source/sort512_uint64_t.h
+++ b/source/sort512_uint64_t.h
@@ -2830,7 +2830,7 @@ static void CoreSort(SortType array[], const IndexType left, const IndexType rig
 
 template <class SortType, class IndexType = size_t>
 static inline void Sort(SortType array[], const IndexType size){
-    CoreSort<SortType,IndexType>(array, 0, size-1);
+    if(size > 1) CoreSort<SortType,IndexType>(array, 0, size-1);
 }
 
 }
-- 
2.43.0


From af1172f1715b5f74545a568d89ff339a08cd389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 66/79] fix: an empty query ended the search of every query
 after it, and searching for an empty query crashed

---
 anytime/JASS_anytime_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 8b18ae7..ef8895b 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -447,7 +447,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 	std::string query = JASS_anytime_query::get_next_query(query_list, next_query);
 	std::string query_id;
 
-	while (query.size() != 0)
+	while (next_query < query_list.size())
 		{
 		static const std::string seperators_between_id_and_query = " \t:";
 
-- 
2.43.0


From 1cd17cdfec318f37424953a9152efcf8da9d5034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 67/79] fix: a relative postings budget overwrote the postings
 budget of the engine, in every thread at once

---
 anytime/JASS_anytime_api.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index ef8895b..f93ba12 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -569,8 +569,9 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		/*
 			Check to see if we've got a rho stopping condition relative to the number of postings in this query.
 		*/
+		size_t postings_budget = postings_to_process;
 		if (relative_postings_to_process != 1)
-			postings_to_process = total_postings_for_query * relative_postings_to_process;
+			postings_budget = total_postings_for_query * relative_postings_to_process;
 
 		/*
 			Process the segments
@@ -587,7 +588,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 				The definition of "enough" is that processing the next segment will exceed postings_to_process so we wil be over
 				the "time limit" so we must not do it.
 			*/
-			if (postings_processed + header->segment_frequency > postings_to_process)
+			if (postings_processed + header->segment_frequency > postings_budget)
 				break;
 			postings_processed += header->segment_frequency;
 
-- 
2.43.0


From 62826803a74d9872f8c8fec845caa4e9f3e287ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 68/79] fix: search threads inserted into the map of thread
 local data at the same time

---
 anytime/JASS_anytime_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index f93ba12..69c6aea 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -414,6 +414,8 @@ JASS_ERROR JASS_anytime_api::search(std::vector<JASS_anytime_thread_result> &out
 		/*
 			Multiple threads, so start each worker
 		*/
+		for (size_t which = 0; which < thread_count ; which++)
+			get_thread_local_data(which);				// not thread safe, so done before the threads start
 		for (size_t which = 0; which < thread_count ; which++)
 			thread_pool.push_back(JASS::thread(anytime_bootstrap, this, std::ref(output[which]), std::ref(query_list), which));
 
-- 
2.43.0


From f469894ec938c9c308edcfefc160ae59a8bb571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 69/79] fix: loading a missing index was reported as success,
 and after a failed load no other index could be loaded

---
 anytime/JASS_anytime_api.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 69c6aea..e52e9f9 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -111,7 +111,12 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 				return JASS_ERROR_BAD_INDEX_VERSION;
 			}
 
-		index->read_index(directory);
+		if (index->read_index(directory) == 0)
+			{
+			delete index;
+			index = nullptr;
+			return JASS_ERROR_FAIL;
+			}
 
 		if (index->document_count() > JASS::query::MAX_DOCUMENTS)
 			{
@@ -129,6 +134,9 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 		}
 	catch (...)
 		{
+		thread_local_data.clear();
+		delete index;
+		index = nullptr;
 		return JASS_ERROR_FAIL;
 		}
 	}
-- 
2.43.0


From 776b3016d5eff5d2768df568c8d6be61e0d39bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 70/79] fix: oracle scores that cannot be read were reported as
 loaded, a line without a score crashed, and a failed load left a dangling
 table

---
 anytime/JASS_anytime_api.cpp | 3 ++-
 source/top_k_limit.cpp       | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index e52e9f9..83e89be 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -149,8 +149,9 @@ JASS_ERROR JASS_anytime_api::load_oracle_scores(std::string filename)
 	{
 	try
 		{
+		auto loaded = new JASS::top_k_limit(filename);
 		delete precomputed_minimum_rsv_table;
-		precomputed_minimum_rsv_table = new JASS::top_k_limit(filename);
+		precomputed_minimum_rsv_table = loaded;
 		}
 	catch(...)
 		{
diff --git a/source/top_k_limit.cpp b/source/top_k_limit.cpp
index dc921e7..01e14f3 100644
--- a/source/top_k_limit.cpp
+++ b/source/top_k_limit.cpp
@@ -7,6 +7,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <stdexcept>
+
 #include "file.h"
 #include "top_k_limit.h"
 
@@ -30,7 +32,8 @@ namespace JASS
 		/*
 			Read the file and break it into lines
 		*/
-		file::read_entire_file(filename, file_contents);
+		if (file::read_entire_file(filename, file_contents) == 0)
+			throw std::runtime_error("Cannot read the oracle scores");
 		file::buffer_to_list(line_list, file_contents);
 
 		for (auto &line : line_list)
@@ -44,6 +47,8 @@ namespace JASS
 				Then has a space
 			*/
 			uint8_t *rsv_position = (uint8_t *)strchr((char *)query_id, ' ');
+			if (rsv_position == nullptr)
+				throw std::runtime_error("No score on a line of the oracle scores");
 			*rsv_position++ = '\0';
 			while (isspace(*rsv_position))
 				rsv_position++;
-- 
2.43.0


From a8f2cd07aa531cde227468afbb5c2a0e14a40cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 71/79] fix: looking up an oracle score inserted into the table
 that all the search threads share

---
 source/top_k_limit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/top_k_limit.h b/source/top_k_limit.h
index 5bb4866..70bfea6 100644
--- a/source/top_k_limit.h
+++ b/source/top_k_limit.h
@@ -74,7 +74,8 @@ namespace JASS
 			*/
 			uint32_t operator[](std::string query_id)
 				{
-				return table[query_id];
+				auto found = table.find(query_id);
+				return found == table.end() ? 0 : found->second;
 				}
 
 			/*
-- 
2.43.0


From 1d172c758ee18b9188b9a3e9a538f3a11d611a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 72/79] fix: get_postings_to_process() returned the low 32 bits
 of a larger budget

---
 anytime/JASS_anytime_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 83e89be..4ac1034 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -229,7 +229,7 @@ JASS_ERROR JASS_anytime_api::set_postings_to_process_minimum(size_t count)
 */
 JASS::query::DOCID_TYPE JASS_anytime_api::get_postings_to_process(void)
 	{
-	return postings_to_process;
+	return (JASS::query::DOCID_TYPE)JASS::maths::minimum(postings_to_process, (size_t)(std::numeric_limits<JASS::query::DOCID_TYPE>::max)());
 	}
 
 /*
-- 
2.43.0


From bcb7758b485f9b48dac082d9f34caa051f6d6b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 73/79] fix: a file that could be opened but not read was
 reported as read, with the length of the file and nothing in it

---
 source/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/file.cpp b/source/file.cpp
index 8abc0ca..f87fa24 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -164,7 +164,7 @@ namespace JASS
 					{
 					into.resize(file_length);
 					if (fread(&into[0], details.st_size, 1, fp) != 1)
-						into.resize(0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
+						into.resize(file_length = 0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
 					}
 			fclose(fp);
 			}
-- 
2.43.0


From cb3440df7693c7f0f5e68e48ff3c081c705b6f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:33 +0000
Subject: [PATCH 74/79] fix: JASSv1_to_human printed only the low 8 bits of
 each impact

---
 tools/JASSv1_to_human.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/JASSv1_to_human.cpp b/tools/JASSv1_to_human.cpp
index c6167c7..4ace5eb 100755
--- a/tools/JASSv1_to_human.cpp
+++ b/tools/JASSv1_to_human.cpp
@@ -104,11 +104,11 @@ class printer
 		/*!
 			@brief print the posting
 			@param document [in] The document identifier (docid) used internally.
-			@param impact [in] The impact score of this term in this document.
+			@param impact [in] Ignored, the decompressor's impact is too narrow so the impact given to set_score() is printed.
 		*/
 		void add_rsv(uint64_t document, uint64_t impact)
 			{
-			std::cout << '<' << document << ',' << impact << '>';
+			std::cout << '<' << document << ',' << this->impact << '>';
 			}
 	} ;
 
@@ -144,7 +144,7 @@ void walk_index_v1(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 				uint64_t *postings = (uint64_t *)term.offset + current_segment;
 				const JASS::deserialised_jass_v1::segment_header_on_disk &header = *reinterpret_cast<const JASS::deserialised_jass_v1::segment_header_on_disk *>(index.postings() + *postings);
 
-				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, index.postings() + header.offset, header.end - header.offset);
 				}
 			}
@@ -197,7 +197,7 @@ void walk_index_v2(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 //printf("%02X ", *(current_header_pointer + header.offset + byte));
 //std::cout << "\n";
 
-				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, segment_header_pointer + header.offset, header.end);
 				}
 			}
-- 
2.43.0


From 75b5a4b37942cc84f47497bc95f2f5ab80711ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:33 +0000
Subject: [PATCH 75/79] fix: the TREC topic reader lost text, read past the end
 of a token and invented a topic in an empty file

---
 source/channel_trec.cpp | 21 ++++++++++++++++-----
 source/channel_trec.h   |  2 ++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 2f889dd..6a9aa3b 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -35,7 +35,6 @@ namespace JASS
 		{
 		int64_t old_number;
 		std::ostringstream raw_query;
-		parser parser;
 		std::ostringstream answer;
 
 		if (at_eof)
@@ -52,14 +51,15 @@ namespace JASS
 				in_channel->gets(buffer);
 				if (buffer.size() == 0)
 					break;		// at end of input
+				query_parser.set_document(buffer);
 				}
-			parser.set_document(buffer);
+			read = true;
 
 			bool finished = false;
 			const char *token_start;
 			do
 				{
-				const auto &token = parser.get_next_token();
+				const auto &token = query_parser.get_next_token();
 
 				switch (token.type)
 					{
@@ -84,13 +84,16 @@ namespace JASS
 							*/
 							parser::token digits;
 							do
-								digits = parser.get_next_token();
+								digits = query_parser.get_next_token();
 							while (digits.type != JASS::parser::token::numeric && digits.type != JASS::parser::token::eof);
 							old_number = number;
-							number = atol(reinterpret_cast<char *>(digits.get().address()));
+							number = atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str());
 
 							if (old_number >= 0)
+								{
+								read = false;		// the rest of this line is the start of the next topic
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && strncmp(token_start, "topic", 5) == 0)
 							{
@@ -107,7 +110,10 @@ namespace JASS
 									}
 
 							if (old_number >= 0)
+								{
+								read = false;		// the rest of this line is the start of the next topic
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && (strncmp(token_start, "query", 5) == 0) && (tag.find('q') != std::string::npos))
 								match = true;			// ClueWeb
@@ -126,6 +132,11 @@ namespace JASS
 			}
 
 		at_eof = true;
+		if (number < 0)
+			{
+			into.clear();		// there were no topics
+			return;
+			}
 		return construct(into, number, answer.str());
 		}
 
diff --git a/source/channel_trec.h b/source/channel_trec.h
index 1bdde74..c769593 100644
--- a/source/channel_trec.h
+++ b/source/channel_trec.h
@@ -15,6 +15,7 @@
 
 #include <sstream>
 
+#include "parser.h"
 #include "channel.h"
 
 namespace JASS
@@ -31,6 +32,7 @@ namespace JASS
 		private:
 			std::unique_ptr<channel> in_channel;	///< The channel this channel reads from
 			std::string buffer;							///< Storage of date read from the in_channel
+			parser query_parser;							///< The parser, which might be part way through the buffer
 			bool read;										///< Do we need to read from the input channel
 			bool at_eof;									///< Are we at end of input?
 			int64_t number;								///< The topic number of the topic being constructed
-- 
2.43.0


From 32fc8d9d6772b2b29c0d2289b26eb8347c52b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:33 +0000
Subject: [PATCH 76/79] fix: JASS_eval did not sort the run it was given and
 used uninitialised ranks

---
 tools/JASS_eval.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index ab8b420..7f7d55e 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -9,6 +9,7 @@
 
 #include <map>
 #include <string>
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 
@@ -577,7 +578,9 @@ class run_result
 					51 Q0 WSJ871218-0126 1 208 JASSv2
 			@param source [in] a single line from a TREC run file in trec_eval format.
 		*/
-		explicit run_result(uint8_t *source)
+		explicit run_result(uint8_t *source) :
+			rank(0),
+			score(0)
 			{
 			if (char *column_1 = (char *)source)
 				{
@@ -635,7 +638,7 @@ class run_result
 			@param second [in] a second object to compare to.
 			@return true if this is strictly less than second.
 		*/
-		bool operator<(run_result &second)
+		bool operator<(const run_result &second) const
 			{
 			/*
 				query id first
@@ -725,6 +728,8 @@ void load_run(const std::string &run_filename, std::vector<run_result> &parsed_r
 
 	for (uint8_t *line : run_list)
 		parsed_run.push_back(run_result(line));
+
+	std::sort(parsed_run.begin(), parsed_run.end());
 	}
 
 /*
-- 
2.43.0


From 921407afe2ada6cb13fcabd4058b0764c8c59357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:33 +0000
Subject: [PATCH 77/79] fix: errors in a CIFF file ran off the end of the file
 or looped rather than being reported

---
 tools/ciff_lin.h       | 56 ++++++++++++++++++++++++++++++++----------
 tools/ciff_to_JASS.cpp | 13 +++++++++-
 2 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/tools/ciff_lin.h b/tools/ciff_lin.h
index d2b2f17..26f9d21 100644
--- a/tools/ciff_lin.h
+++ b/tools/ciff_lin.h
@@ -137,6 +137,22 @@ namespace JASS
 				FAIL = 1			///< Method did not completed successfully
 				} ;
 
+			/*
+				CIFF_LIN::IS_WITHIN()
+				---------------------
+			*/
+			/*!
+				@brief Check that a blob ends before the message it is in ends
+				@param blob [in] The blob.
+				@param end [in] The byte after the end of the message.
+				@return true if the blob is within the message, else false.
+			*/
+			static bool is_within(const slice &blob, const uint8_t *end)
+				{
+				const uint8_t *start = reinterpret_cast<const uint8_t *>(blob.address());
+				return start <= end && blob.size() <= static_cast<size_t>(end - start);
+				}
+
 			/*
 				CLASS CIFF_LIN::HEADER
 				----------------------
@@ -244,7 +260,7 @@ namespace JASS
 							else
 								return FAIL;
 							}
-						return OK;
+						return stream == stream_end ? OK : FAIL;
 						}
 
 				public:
@@ -280,6 +296,8 @@ namespace JASS
 							else if (type == protobuf::BLOB)
 								{
 								slice term = protobuf::get_blob(stream);
+								if (!is_within(term, stream_end))
+									return FAIL;
 
 								if (field == 1)
 									into.term = term;
@@ -295,7 +313,7 @@ namespace JASS
 							else
 								return FAIL;
 							}
-						return OK;
+						return stream == stream_end ? OK : FAIL;
 						}
 
 				/*
@@ -364,9 +382,11 @@ namespace JASS
 					/*!
 						@brief Get the next doc record from the stream
 					*/
-					static error_code get_next(doc_record &into, const uint8_t *&stream)
+					static error_code get_next(doc_record &into, const uint8_t *&stream, const uint8_t *source_end)
 						{
 						size_t length = protobuf::get_uint64_t(stream);
+						if (stream > source_end || length > static_cast<size_t>(source_end - stream))
+							return FAIL;
 						const uint8_t *stream_end = stream + length;
 
 						while (stream < stream_end)
@@ -388,6 +408,8 @@ namespace JASS
 							else if (type == protobuf::BLOB)
 								{
 								slice term = protobuf::get_blob(stream);
+								if (!is_within(term, stream_end))
+									return FAIL;
 								if (field == 2)
 									into.collection_docid = term;
 								else
@@ -396,7 +418,7 @@ namespace JASS
 							else
 								return FAIL;
 							}
-						return OK;
+						return stream == stream_end ? OK : FAIL;
 						}
 				};
 				
@@ -458,15 +480,15 @@ namespace JASS
 					*/
 					postings_list &operator*()
 						{
-						int64_t postings_list_length = protobuf::get_uint64_t(stream);
+						uint64_t postings_list_length = protobuf::get_uint64_t(stream);
 
 						postings.clear();
-						if (postings_list::get_next_postings(postings, stream, stream + postings_list_length) == FAIL)
+						if (stream > source.source_end || postings_list_length > static_cast<uint64_t>(source.source_end - stream) || postings_list::get_next_postings(postings, stream, stream + postings_list_length) == FAIL)
 							{
 							/*
 								On error move to the end of the stream and mark the stream as bad
 							*/
-							which = (std::numeric_limits<decltype(which)>::max)();
+							which = (std::numeric_limits<decltype(which)>::max)() - 1;		// operator++() adds 1
 							source.status = FAIL;
 							}
 
@@ -579,12 +601,12 @@ namespace JASS
 						{
 						current.clear();
 
-						if (doc_record::get_next(current, stream) == FAIL)
+						if (which < static_cast<size_t>(source.ciff_header.num_docs) && doc_record::get_next(current, stream, source.source_end) == FAIL)
 							{
 							/*
 								On error move to the end of the stream and mark the stream as bad
 							*/
-							which = (std::numeric_limits<decltype(which)>::max)();
+							which = (std::numeric_limits<decltype(which)>::max)() - 1;		// operator++() adds 1
 							source.status = FAIL;
 							}
 
@@ -665,6 +687,7 @@ namespace JASS
 
 		private:
 			const uint8_t *source_file;				///< The CIFF file in memory
+			const uint8_t *source_end;					///< The byte after the last byte of the CIFF file
 			const uint8_t *stream;						///< Where in the CIFF we currently are
 			header ciff_header;							///< The header from the CIFF file
 			
@@ -685,6 +708,8 @@ namespace JASS
 				{
 				stream = source_file;
 				size_t length = protobuf::get_uint64_t(stream);
+				if (stream > source_end || length > static_cast<size_t>(source_end - stream))
+					return FAIL;
 				const uint8_t *stream_end = stream + length;
 
 				while (stream < stream_end)
@@ -713,6 +738,8 @@ namespace JASS
 						}
 					else if (type == protobuf::SIXTY_FOUR_BIT)
 						{
+						if (stream_end - stream < 8)
+							return FAIL;
 						double value = protobuf::get_double(stream);
 						if (field == 7)
 							header.average_doclength = value;
@@ -722,6 +749,8 @@ namespace JASS
 					else if (type == protobuf::BLOB)
 						{
 						slice term = protobuf::get_blob(stream);
+						if (!is_within(term, stream_end))
+							return FAIL;
 
 						if (field == 8)
 							header.description = std::string(reinterpret_cast<char *>(term.address()), term.size());
@@ -731,7 +760,7 @@ namespace JASS
 					else
 						return FAIL;
 					}
-				return OK;
+				return stream == stream_end ? OK : FAIL;
 				}
 
 		public:
@@ -741,15 +770,16 @@ namespace JASS
 			*/
 			/*!
 				@brief Constructor
-				@param source_file [in] a Pointer to the protobuf file once already read into memory.
+				@param source_file [in] a Pointer to the protobuf file once already read into memory (and '\0' terminated).
 				@param source_file_length [in] The length (in bytes) of the source file once in memory.
 			*/
-			ciff_lin(const uint8_t *source_file) :
+			ciff_lin(const uint8_t *source_file, size_t source_file_length) :
 				source_file(source_file),
+				source_end(source_file + source_file_length),
 				stream(source_file),
 				status(OK)
 				{
-				read_header(ciff_header);
+				status = read_header(ciff_header);
 				ciff_header.text_render();
 				}
 
diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index e29ccc5..3fe4236 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -166,7 +166,9 @@ int main(int argc, const char *argv[])
 	/*
 		set up the protobuf reader
 	*/
-	JASS::ciff_lin source((uint8_t *)&file[0]);
+	JASS::ciff_lin source((uint8_t *)&file[0], file.size());
+	if (source.status == JASS::ciff_lin::FAIL)
+		exit(printf("File is not in the correct format\n"));
 
 	/*
 		go list at a time, adding each one to the index
@@ -178,6 +180,9 @@ int main(int argc, const char *argv[])
 	size_t percent_threshold = JASS::maths::maximum(total_terms / 100, (size_t)1);
 	for (auto &posting : source.postings())
 		{
+		if (source.status == JASS::ciff_lin::FAIL || posting.postings.empty())
+			exit(printf("File is not in the correct format\n"));
+
 		term_count++;
 		if (((term_count % (percent_threshold * 5)) == 0) || (term_count == total_terms - 1))
 			{
@@ -224,6 +229,12 @@ int main(int argc, const char *argv[])
 		last_docid = docid.docid + 1;
 		}
 
+	/*
+		check that we got to the end
+	*/
+	if (source.status == JASS::ciff_lin::FAIL)
+		exit(printf("File is not in the correct format\n"));
+
 	/*
 		set the length vector and the primary key vector
 	*/
-- 
2.43.0


From 82bc9a7757e79807c7844086c757094666dfd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:17 +0000
Subject: [PATCH 78/79] fix: the p value of a t-test could be (just) below 0

---
 source/statistics.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/statistics.cpp b/source/statistics.cpp
index e76ba08..8155a24 100644
--- a/source/statistics.cpp
+++ b/source/statistics.cpp
@@ -224,6 +224,8 @@ namespace JASS
 		*/
 
 		double p = (1 - t_cumulative_distribution_function(fabs(t_value), degrees_of_freedom));
+		if (p < 0)
+			p = 0;				// the cumulative distribution function can round to just over 1.
 		if (tails == ONE_TAILED)
 			return p;
 		else
-- 
2.43.0


From 5a9b0b8da04aafc1714b780d116e19cb94ce554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:27 +0000
Subject: [PATCH 79/79] fix: ECOM19_to_run mixed up row numbers, column numbers
 and identifiers

---
 tools/ECOM19_to_run.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/tools/ECOM19_to_run.cpp b/tools/ECOM19_to_run.cpp
index 0cc233d..9746c9d 100644
--- a/tools/ECOM19_to_run.cpp
+++ b/tools/ECOM19_to_run.cpp
@@ -77,7 +77,7 @@ class query_document_price
 	READ_MATRIX()
 	-------------
 */
-void read_matrix(std::string &data, std::unordered_map<int, std::unordered_map<int, int>> &table, int include_minus_1 = true)
+void read_matrix(std::string &data, std::unordered_map<int, std::unordered_map<int, int>> &table, std::vector<size_t> &queries, std::vector<size_t> &documents, int include_minus_1 = true)
 	{
 	size_t document_id = 0;
 
@@ -100,15 +100,21 @@ void read_matrix(std::string &data, std::unordered_map<int, std::unordered_map<i
 			if (*column == '\0')
 				break_at_end = true;
 			*column++ = '\0';
-			if (row_number == 0 || column_number == 0)
+			if (*start_of_data == '\0')
+				break;						// white space at the end of the line
+			if (row_number == 0)
 				{
-				table[row_number][column_number] = atol((char *)start_of_data);
-				if (column_number == 0)
-					document_id = atol((char *)start_of_data);
+				if (column_number != 0)
+					queries.push_back(atol((char *)start_of_data));
 				}
-			else
+			else if (column_number == 0)
+				{
+				document_id = atol((char *)start_of_data);
+				documents.push_back(document_id);
+				}
+			else if (column_number <= queries.size())
 				{
-				size_t query_id = table[0][column_number];
+				size_t query_id = queries[column_number - 1];
 				if (*start_of_data == '1')
 					table[document_id][query_id] = 1;
 				if (include_minus_1 && *start_of_data == '-')
@@ -183,7 +189,9 @@ fprintf(stderr, "Load training data");
 			exit(printf("Cannot read documents from file:%s", argv[2]));
 
 	std::unordered_map<int, std::unordered_map<int, int>> training_data;
-	read_matrix(training_data_text, training_data, true);
+	std::vector<size_t> training_queries;
+	std::vector<size_t> training_documents;
+	read_matrix(training_data_text, training_data, training_queries, training_documents, true);
 
 	/*
 		Load the run
@@ -196,7 +204,9 @@ fprintf(stderr, "Load Run\n");
 
 fprintf(stderr, "Matrix the Run\n");
 	std::unordered_map<int, std::unordered_map<int, int>> run;
-	read_matrix(run_text, run, false);
+	std::vector<size_t> run_queries;
+	std::vector<size_t> run_documents;
+	read_matrix(run_text, run, run_queries, run_documents, false);
 
 	/*
 		Remove the training data from the run and convert the run into trec_eval format
@@ -204,14 +214,11 @@ fprintf(stderr, "Matrix the Run\n");
 fprintf(stderr, "Dump the Run\n");
 	//coverity[format_changed]
 	std::cout << std::setprecision(2) << std::fixed;
-	for (size_t column = 1; column < run[0].size(); column++)
+	for (size_t query_id : run_queries)
 		{
 		std::vector<query_document_price> answer;
-		for (size_t row = 1; row < run.size(); row++)
+		for (size_t document_id : run_documents)
 			{
-			size_t query_id = run[0][column];
-			size_t document_id = run[row][0];
-
 			if (run[document_id][query_id] == 1 && training_data[document_id][query_id] == 0)
 				answer.push_back(query_document_price(query_id, document_id, prices[document_id]));
 			}
-- 
2.43.0


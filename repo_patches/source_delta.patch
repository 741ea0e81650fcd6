From c9f4840f28860d98a29c9459c3c4daafd31011ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 01/13] fix: lib: end the decode stream after an invalid third
 character

An invalid character in the third position of a quantum made the decoder
return 0, but left the stream open: the next call would resume decoding
in the middle of the quantum. Set the end-of-file marker, as is done for
the other three positions.
---
 lib/arch/generic/dec_tail.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index e64f724..0c8adef 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -55,6 +55,7 @@
 				}
 			}
 			// If we get here, there was an error:
+			st.eof = BASE64_EOF;
 			break;
 		}
 		*o++ = st.carry | (q >> 2);
-- 
2.43.0


From f511b06b94d5b485b161a8fba8d7935578eb9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 02/13] fix: lib: accept an empty chunk while waiting for the
 last '='

Between the two '=' characters of the padding, feeding an empty chunk to
the stream decoder reported a decoding error, although nothing was wrong
with the stream and decoding could go on. Empty chunks are accepted
everywhere else inside the stream.
---
 lib/arch/generic/dec_head.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/arch/generic/dec_head.c b/lib/arch/generic/dec_head.c
index 179a31b..9e046a7 100644
--- a/lib/arch/generic/dec_head.c
+++ b/lib/arch/generic/dec_head.c
@@ -16,7 +16,11 @@ if (st.eof) {
 	*outlen = 0;
 	ret = 0;
 	// If there was a trailing '=' to check, check it:
-	if (slen && (st.eof == BASE64_AEOF)) {
+	if (st.eof == BASE64_AEOF) {
+		// Without input, keep waiting:
+		if (slen == 0) {
+			return 1;
+		}
 		state->bytes = 0;
 		state->eof = BASE64_EOF;
 		ret = ((base64_table_dec_8bit[*s++] == 254) && (slen == 1)) ? 1 : 0;
-- 
2.43.0


From 1d9885fbcd89ec952ac8a8abde3529dc4c8c0e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 03/13] fix: lib: make forcing a codec local to the stream or
 call

Forcing a codec replaced the global default codec. Streams in progress
were switched to another codec, and later calls with flags 0 used
whatever was forced last. If that was a codec which is not in the build,
encoding with flags 0 produced nothing and decoding returned -1. Encoding
also ignored BASE64_FORCE_AVX512, because its bit was masked off.

Look up the codec by the flags of the stream instead, and choose the
default codec only once.
---
 lib/lib.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/lib/lib.c b/lib/lib.c
index 053931a..3da92ff 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -14,13 +14,32 @@
 // The idea being that CPU features don't change at runtime.
 static struct codec codec = { NULL, NULL };
 
+// Get the codec for the given flags. A forced codec applies only to the stream
+// or call that asks for it, and leaves the default codec alone.
+static inline struct codec
+codec_get (int flags)
+{
+	struct codec ret;
+
+	// If any of the codec flags are set, choose that codec:
+	if (flags & 0xFFFF) {
+		codec_choose(&ret, flags);
+		return ret;
+	}
+
+	// Else use the default codec, which is chosen only once:
+	if (codec.enc == NULL || codec.dec == NULL) {
+		codec_choose(&ret, 0);
+		codec = ret;
+		return ret;
+	}
+	return codec;
+}
+
 void
 base64_stream_encode_init (struct base64_state *state, int flags)
 {
-	// If any of the codec flags are set, redo choice:
-	if (codec.enc == NULL || flags & 0xFF) {
-		codec_choose(&codec, flags);
-	}
+	codec_get(flags);
 	state->eof = 0;
 	state->bytes = 0;
 	state->carry = 0;
@@ -36,7 +55,7 @@ base64_stream_encode
 	, size_t		*outlen
 	)
 {
-	codec.enc(state, src, srclen, out, outlen);
+	codec_get(state->flags).enc(state, src, srclen, out, outlen);
 }
 
 void
@@ -67,10 +86,7 @@ base64_stream_encode_final
 void
 base64_stream_decode_init (struct base64_state *state, int flags)
 {
-	// If any of the codec flags are set, redo choice:
-	if (codec.dec == NULL || flags & 0xFFFF) {
-		codec_choose(&codec, flags);
-	}
+	codec_get(flags);
 	state->eof = 0;
 	state->bytes = 0;
 	state->carry = 0;
@@ -86,7 +102,7 @@ base64_stream_decode
 	, size_t		*outlen
 	)
 {
-	return codec.dec(state, src, srclen, out, outlen);
+	return codec_get(state->flags).dec(state, src, srclen, out, outlen);
 }
 
 #ifdef _OPENMP
-- 
2.43.0


From afe0ca0150b513e81d5d65070cb84c9421082044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 04/13] fix: lib: set the output length when the codec is not
 available

The API promises that outlen is set to zero when decoding starts, but the
stub that stands in for a codec which is not in the build left it as it
was.
---
 lib/codecs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/codecs.h b/lib/codecs.h
index f6af0e7..4de3f42 100644
--- a/lib/codecs.h
+++ b/lib/codecs.h
@@ -40,8 +40,8 @@ base64_dec_stub BASE64_DEC_PARAMS
 	(void) src;
 	(void) srclen;
 	(void) out;
-	(void) outlen;
 
+	*outlen = 0;
 	return -1;
 }
 
-- 
2.43.0


From c44a51eb9ac729221c5ccf3ef5b645da17aec01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 05/13] fix: lib: openmp: set the output length when decoding
 fails

The API promises that outlen is set, but the OpenMP decoder left it as it
was when the codec was not available or one of the threads found an
error.
---
 lib/lib_openmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 6b87c52..3727247 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -125,12 +125,14 @@ base64_decode_openmp
 	// If `result' equals `-num_threads', then all threads returned -1,
 	// indicating that the requested codec is not available:
 	if (result == -num_threads) {
+		*outlen = 0;
 		return -1;
 	}
 
 	// If `result' does not equal `num_threads', then at least one of the
 	// threads hit a decode error:
 	if (result != num_threads) {
+		*outlen = 0;
 		return 0;
 	}
 
-- 
2.43.0


From c063300740b6e66cd3c738f70a1a351fa41efeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 06/13] fix: lib: openmp: reject padding before the end of the
 input

When padding happened to be at the end of the part of one of the threads,
the decoder of that thread was satisfied, and the input was accepted as
if the padding were not there. The output had gaps.
---
 lib/lib_openmp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 3727247..c8b61bd 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -117,6 +117,12 @@ base64_decode_openmp
 
 			// Feed each part of the string to the stream reader:
 			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+
+			// Padding ends the stream, so it is an error if any
+			// data follows this part:
+			if (this_result == 1 && state.eof && (i < num_threads - 1 || last_len > 0)) {
+				this_result = 0;
+			}
 			sum += s;
 			result += this_result;
 		}
-- 
2.43.0


From 33066361a5918d79bdf3680e85875d520a8b6dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 07/13] fix: lib: openmp: compute the output offsets without
 overflow

On 32-bit platforms, multiplying a part's input offset by 4 or 3 before
dividing overflows for inputs of 1 GiB and up. The part length is always a
multiple of the divisor, so divide first.
---
 lib/lib_openmp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index c8b61bd..e3e37c2 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -53,7 +53,7 @@ base64_encode_openmp
 		for (i = 0; i < num_threads; i++)
 		{
 			// Feed each part of the string to the stream reader:
-			base64_stream_encode(&state, src + i * len, len, out + i * len * 4 / 3, &s);
+			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3 * 4), &s);
 			sum += s;
 		}
 	}
@@ -63,10 +63,10 @@ base64_encode_openmp
 	state = initial_state;
 
 	// Encode the remaining bytes:
-	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * len * 4 / 3, &s);
+	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * (len / 3 * 4), &s);
 
 	// Finalize the stream by writing trailer if any:
-	base64_stream_encode_final(&state, out + num_threads * len * 4 / 3 + s, &t);
+	base64_stream_encode_final(&state, out + num_threads * (len / 3 * 4) + s, &t);
 
 	// Final output length is stream length plus tail:
 	sum += s + t;
@@ -116,7 +116,7 @@ base64_decode_openmp
 			int this_result;
 
 			// Feed each part of the string to the stream reader:
-			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4 * 3), &s);
 
 			// Padding ends the stream, so it is an error if any
 			// data follows this part:
@@ -145,7 +145,7 @@ base64_decode_openmp
 	// So far so good, now decode whatever remains in the buffer. Reuse the
 	// initial state, since we are at a 4-byte boundary:
 	state = initial_state;
-	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * len * 3 / 4, &s);
+	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4 * 3), &s);
 	sum += s;
 	*outlen = sum;
 
-- 
2.43.0


From 71487b38278a5661c97b6cbedb80f8d5b32436df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 08/13] fix: bin: treat '=' as base64 and '"' as garbage with
 -i

The table of characters that are not garbage contained a double quote instead
of the padding character, so that --ignore-garbage choked on double quotes and
dropped padding.
---
 bin/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index 02dcd1e..34f983d 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -376,7 +376,7 @@ find_garbage (const char *p, const size_t avail)
 		['z'] = 1,
 		['0'] = 1, ['1'] = 1, ['2'] = 1, ['3'] = 1, ['4'] = 1,
 		['5'] = 1, ['6'] = 1, ['7'] = 1, ['8'] = 1, ['9'] = 1,
-		['+'] = 1, ['/'] = 1, ['"'] = 1,
+		['+'] = 1, ['/'] = 1, ['='] = 1,
 	};
 
 	for (size_t len = 0; len < avail; len++) {
-- 
2.43.0


From cb3e05a91d894933fff6868bac28e823ed3304f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 09/13] fix: bin: report truncated input when decoding

Input that ended inside a group of four characters was decoded as far as
possible and the tool exited with success.
---
 bin/base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index 34f983d..0e74992 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -478,6 +478,13 @@ decode (const struct config *config, struct buffer *buf)
 		return false;
 	}
 
+	// The input is truncated if it ends inside a group of four characters.
+	if (state.bytes != 0) {
+		fprintf(stderr, "%s: %s: decoding error\n",
+			config->name, config->file);
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From a251d5d79ee5fc2481888d9ab5eb17def34e577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 10/13] fix: resolve section groups before making their symbols
 local

With a compiler that makes position-independent code by default, every i386
object contains the PC thunks as COMDAT groups. In lib/libbase64.o objcopy made
their signature symbols local, so that neither bin/base64 nor any other
position-independent or static program could be linked with it.
---
 Makefile | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Makefile b/Makefile
index bba3fde..2af54ea 100644
--- a/Makefile
+++ b/Makefile
@@ -3,6 +3,11 @@ CFLAGS += -std=c99 -O3 -Wall -Wextra -pedantic -DBASE64_STATIC_DEFINE
 # Set OBJCOPY if not defined by environment:
 OBJCOPY ?= objcopy
 
+# Section groups, such as those of the PC thunks of 32-bit x86, must be resolved
+# before their symbols are made local, or they get mixed up with the groups of
+# the same name in other objects. Not every linker has the option:
+LD_GROUPS := $(shell $(LD) --help 2>/dev/null | grep -o -m 1 -e '--force-group-allocation')
+
 OBJS = \
   lib/arch/avx512/codec.o \
   lib/arch/avx2/codec.o \
@@ -74,7 +79,7 @@ else
 endif
 
 lib/libbase64.o: lib/exports.build.txt $(OBJS)
-	$(LD) -r -o $@ $(OBJS)
+	$(LD) -r $(LD_GROUPS) -o $@ $(OBJS)
 	$(OBJCOPY) --keep-global-symbols=$< $@
 
 lib/config.h:
-- 
2.43.0


From e41324b53b7f31929eeb2f7153da4fe385151454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 11/13] fix: CMake package of a static OpenMP build finds
 OpenMP for its clients

The exported target of a static library links to OpenMP::OpenMP_C, but the
package configuration did not look for it, so that every find_package(base64)
failed unless the client happened to look for OpenMP first.
---
 cmake/base64-config.cmake.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmake/base64-config.cmake.in b/cmake/base64-config.cmake.in
index d009bf7..59d574c 100644
--- a/cmake/base64-config.cmake.in
+++ b/cmake/base64-config.cmake.in
@@ -1,5 +1,11 @@
 @PACKAGE_INIT@
 
+# A static library is linked together with the libraries it depends on.
+if ("@BASE64_WITH_OpenMP@" AND NOT "@BUILD_SHARED_LIBS@")
+    include(CMakeFindDependencyMacro)
+    find_dependency(OpenMP COMPONENTS C)
+endif()
+
 include("${CMAKE_CURRENT_LIST_DIR}/base64-targets.cmake")
 
 check_required_components(base64)
-- 
2.43.0


From a63a1f8cdad36afa8098d250e80c1ec572f70ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 12/13] fix: fail if the help text cannot be written

base64 --help exited with 0 when writing to a full device or to a closed
standard output, and nothing was reported.
---
 bin/base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index 0e74992..869caa0 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -648,6 +648,13 @@ main (int argc, char **argv)
 	// Return early if the user just wanted the help text.
 	if (config.print_help) {
 		usage(stdout, &config);
+
+		// Check that the text was actually written.
+		if (fflush(stdout) == EOF || ferror(stdout)) {
+			fprintf(stderr, "%s: write: %s\n",
+			        config.name, strerror(errno));
+			return 1;
+		}
 		return 0;
 	}
 
-- 
2.43.0


From bee1bec9b984d531c51b6d040e4f8aa87b9a38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 13/13] fix: codec_choose: do not shift 1 into the sign bit of
 an int

1 << 31 is undefined behaviour when int has 32 bits; builds with
-fsanitize=undefined report it on the first call that selects a codec.
---
 lib/codec_choose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/codec_choose.c b/lib/codec_choose.c
index a98b947..b5b7f0c 100644
--- a/lib/codec_choose.c
+++ b/lib/codec_choose.c
@@ -47,7 +47,7 @@
 #endif
 
 #ifndef bit_AVX512vl
-#define bit_AVX512vl (1 << 31)
+#define bit_AVX512vl (1U << 31)
 #endif
 #ifndef bit_AVX512vbmi
 #define bit_AVX512vbmi (1 << 1)
-- 
2.43.0


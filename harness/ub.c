// C28: no undefined behaviour, nothing uninitialised. The library under test is compiled with UBSan (trapping, or with
// its reports) or MemorySanitizer; the calls of a case use arbitrary addresses, and what a call may not rely on (state
// before its initialisation, outlen, output space) holds rubbish, which MemorySanitizer takes as uninitialised.
#include "common.h"
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define RUBBISH(p, n) __msan_poison((p), (n))
#define DEFINED(p, n) (__msan_test_shadow((p), (n)) == -1)
#else
#define RUBBISH(p, n) ((void)0)
#define DEFINED(p, n) true
#endif

#define BUF (1u << 19)
static unsigned char *src, *out, data[BUF], want[BUF], got[BUF];
static size_t maxlen;

void pbt_setup (void)
{
	common_setup();
	src = aligned_alloc(64, BUF + 128); out = aligned_alloc(64, BUF + 128);
	memset(src, 1, BUF + 128); memset(out, 1, BUF + 128);
	maxlen = pbt_param_u("maxlen", 200000);
}

static unsigned so, oo;		// misalignment
static unsigned char *put (const unsigned char *p, size_t n)
{
	so = (unsigned)pbt_draw(64);
	if (n) memcpy(src + so, p, n);
	RUBBISH(src, so);
	RUBBISH(src + so + n, 64);
	return src + so;
}
static unsigned char *space (size_t n)
{
	oo = (unsigned)pbt_draw(64);
	memset(out + oo, (int)pbt_draw(256), n);
	RUBBISH(out, n + 128);
	return out + oo;
}
static void rubbish_state (struct base64_state *st)
{
	memset(st, (int)pbt_draw(256), sizeof *st);
	RUBBISH(st, sizeof *st);
}
static void check (const char *what, int ci, const unsigned char *o, size_t *ol, const unsigned char *w, size_t wn)
{
	if (!DEFINED(ol, sizeof *ol)) pbt_fail("%s (%s): *outlen is uninitialised", what, codecs[ci].name);
	if (*ol != wn) pbt_fail("%s (%s): reports %zu, must be %zu", what, codecs[ci].name, *ol, wn);
	if (wn && !DEFINED(o, wn)) pbt_fail("%s (%s): uninitialised bytes in the output of %zu", what, codecs[ci].name, wn);
	if (wn && memcmp(o, w, wn)) pbt_fail("%s (%s): wrong output", what, codecs[ci].name);
	pbt_eval(1);
}

static unsigned empties;
static size_t chunk (size_t left)
{
	size_t c;
	switch (pbt_draw(5)) {
	case 0: c = pbt_draw(5); break;
	case 1: c = pbt_draw(70); break;
	case 2: c = near(64 * pbt_draw(20)); break;
	default: c = left; break;
	}
	if (c == 0 && ++empties > 20) c = left;
	return c > left ? left : c;
}

static void one (void)
{
	int ci = gen_codec();
	unsigned op = (unsigned)pbt_draw(5);
	size_t n = op & 1 ? gen_text(data, maxlen) : gen_len(maxlen), ol, w = 0;
	bool bad = false;
	empties = 0;
	if (!(op & 1)) gen_bytes(data, n);
	else if (pbt_chance(1, 3)) n = gen_mutate(data, n, BUF - 64), bad = true;
	struct base64_state st, st2;
	RUBBISH(&ol, sizeof ol);
	switch (op) {
	case 0: case 4: {
		w = ref_encode(data, n, (char *)want);
		unsigned char *s = put(data, n), *o = space(w);
		pbt_note("base64_encode codec=%s %zu bytes at misalignment %u to %u %s", codecs[ci].name, n, so, oo, pbt_hex(data, n));
		base64_encode((char *)s, n, (char *)o, &ol, codecs[ci].flag);
		check("base64_encode", ci, o, &ol, want, w);
		break;
	}
	case 1: {
		bool ok = ref_decode(data, n, want, &w);
		unsigned char *s = put(data, n), *o = space(n);
		pbt_note("base64_decode codec=%s %zu characters at misalignment %u to %u %s", codecs[ci].name, n, so, oo, pbt_hex(data, n));
		int r = base64_decode((char *)s, n, (char *)o, &ol, codecs[ci].flag);
		if (!DEFINED(&r, sizeof r)) pbt_fail("base64_decode (%s): uninitialised result", codecs[ci].name);
		if (r != ok) pbt_fail("base64_decode (%s): returns %d, must be %d", codecs[ci].name, r, ok);
		if (ok) check("base64_decode", ci, o, &ol, want, w);
		break;
	}
	case 2: {
		w = ref_encode(data, n, (char *)want);
		size_t done = 0, g = 0;
		rubbish_state(&st);
		base64_stream_encode_init(&st, codecs[ci].flag);
		while (done < n) {
			size_t c = chunk(n - done), e = ref_enc_emitted(done + c) - ref_enc_emitted(done);
			unsigned char *s = put(data + done, c), *o = space(e);
			pbt_note("base64_stream_encode codec=%s chunk of %zu at %zu of %zu, misalignment %u to %u %s", codecs[ci].name, c, done, n, so, oo, pbt_hex(data, n));
			RUBBISH(&ol, sizeof ol);
			base64_stream_encode(&st, (char *)s, c, (char *)o, &ol);
			check("base64_stream_encode", ci, o, &ol, want + g, e);
			g += e; done += c;
			if (pbt_chance(1, 6)) { st2 = st; rubbish_state(&st); st = st2; }	// copied, as C08 allows
		}
		unsigned char *o = space(4);
		pbt_note("base64_stream_encode_final codec=%s after %zu bytes %s", codecs[ci].name, n, pbt_hex(data, n));
		RUBBISH(&ol, sizeof ol);
		base64_stream_encode_final(&st, (char *)o, &ol);
		check("base64_stream_encode_final", ci, o, &ol, want + g, w - g);
		break;
	}
	case 3: {
		struct ref_dec m;
		ref_dec_init(&m);
		size_t done = 0;
		unsigned after = (unsigned)pbt_draw(3);
		rubbish_state(&st);
		base64_stream_decode_init(&st, codecs[ci].flag);
		while (done < n) {
			size_t c = chunk(n - done), e;
			bool over = m.failed || m.ended;
			int wr = ref_dec_feed(&m, data + done, c, got, &e) == c;
			unsigned char *s = put(data + done, c), *o = space(c);
			pbt_note("base64_stream_decode codec=%s chunk of %zu at %zu of %zu, misalignment %u to %u %s", codecs[ci].name, c, done, n, so, oo, pbt_hex(data, n));
			RUBBISH(&ol, sizeof ol);
			int r = base64_stream_decode(&st, (char *)s, c, (char *)o, &ol);
			if (!DEFINED(&r, sizeof r)) pbt_fail("base64_stream_decode (%s): uninitialised result", codecs[ci].name);
			if (r != wr && !(c == 0 && over)) pbt_fail("base64_stream_decode (%s): returns %d, must be %d", codecs[ci].name, r, wr);
			check("base64_stream_decode", ci, o, &ol, got, e);
			done += c;
			if (!r && !after--) break;
			if (pbt_chance(1, 6)) { st2 = st; rubbish_state(&st); st = st2; }
		}
		break;
	}
	}
	static const char *const ops[] = { "encode", "decode", "stream encode", "stream decode", "encode" };
	pbt_class(ops[op]); pbt_class(codecs[ci].name);
	if (so % 8 || oo % 8) pbt_class("misaligned");
	if (bad) pbt_class("damaged text");
	if (n >= 4) pbt_hit(pbt_hash(pbt_mix(op * 16u + (unsigned)ci) ^ so * 64 ^ oo, data, n));
	if (pbt_want_sample() && n >= 8 && n < 120) pbt_sample("%s codec=%s misalignment %u to %u, %zu: %s", ops[op], codecs[ci].name, so, oo, n, pbt_hex(data, n));
}

static void p_ub (void)
{
	unsigned k = 1 + (unsigned)pbt_draw(3);
	while (k--) one();
}

const struct pbt_prop pbt_props[] = { { "ub", p_ub }, { NULL, NULL } };

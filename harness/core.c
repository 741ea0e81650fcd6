// C01 - C07: the seven API functions against the reference model.
#include "common.h"
#ifdef _OPENMP
#include <omp.h>
#endif

static struct gbuf gs, go, gst, gol;
static unsigned char *data, *text, *want, *tmp;	// MAXLEN-sized scratch
static size_t maxlen;

// A pool of random bytes and its encoding, for sweeps over lengths.
#define POOL (384u * 1024)	// multiple of 3
static unsigned char pool[POOL]; static char *poolenc;

void pbt_setup (void)
{
	common_setup();
	maxlen = pbt_param_u("maxlen", 1u << 20);
	if (maxlen > MAXLEN / 2) maxlen = MAXLEN / 2;
	gbuf_init(&gs, MAXLEN); gbuf_init(&go, MAXLEN * 2);
	gbuf_init(&gst, 64); gbuf_init(&gol, 64);
	data = malloc(MAXLEN); text = malloc(MAXLEN * 2); want = malloc(MAXLEN * 2); tmp = malloc(MAXLEN * 2);
	poolenc = malloc(POOL / 3 * 4 + 4);
	uint64_t s = pbt_param_u("pool", 12345);
	for (size_t i = 0; i < POOL; i++) { s = pbt_mix(s); pool[i] = (unsigned char)(s >> 20); }
	ref_encode(pool, POOL, poolenc);
}

#define ROOMY 4096
// Roomy placement: arbitrary alignment, with base64-like text or noise around.
static unsigned char *roomy_src (const unsigned char *p, size_t n)
{
	unsigned off = (unsigned)pbt_draw(64);
	unsigned char salt = (unsigned char)pbt_draw(256);
	unsigned char *s = gbuf_place(&gs, n, P_MID, off, salt);
	memcpy(s, p, n);
	return s;
}
static unsigned char *roomy_out (size_t n)
{
	unsigned off = (unsigned)pbt_draw(64);
	return gbuf_place(&go, n + ROOMY, P_MID, off, 1);
}

static size_t first_diff (const unsigned char *a, const unsigned char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return i;
	return n;
}

static const char *size_class (size_t n)
{
	return n == 0 ? "len 0" : n < 16 ? "len 1-15" : n < 64 ? "len 16-63" : n < 256 ? "len 64-255" :
		n < 1024 ? "len 256-1023" : n < 65536 ? "len 1K-64K" : "len 64K+";
}
static uint64_t case_hash (uint64_t a, uint64_t b, const void *p, size_t n) { return pbt_hash(pbt_mix(a * 1315423911u + b), p, n); }

// ---------------------------------------------------------------- C01 encode

static void check_encode (const unsigned char *s, size_t n, unsigned char *o, int ci, const unsigned char *w, size_t wn)
{
	size_t olen = (size_t)pbt_draw(3) * 77777;
	pbt_note("base64_encode codec=%s srclen=%zu src=%s", codecs[ci].name, n, pbt_hex(s, n));
	base64_encode((const char *)s, n, (char *)o, &olen, codecs[ci].flag);
	pbt_eval(1);
	if (olen != wn) pbt_fail("base64_encode(%s, %zu bytes): outlen is %zu, must be %zu", codecs[ci].name, n, olen, wn);
	if (memcmp(o, w, wn)) {
		size_t d = first_diff(o, w, wn);
		pbt_fail("base64_encode(%s, %zu bytes): wrong character at %zu: %s, must be %s", codecs[ci].name, n, d,
			pbt_hex(o + d, wn - d < 24 ? wn - d : 24), pbt_hex(w + d, wn - d < 24 ? wn - d : 24));
	}
}

static void p_enc_rand (void)
{
	int ci = gen_codec();
	size_t n = gen_len(maxlen);
	gen_bytes(data, n);
	size_t wn = ref_encode(data, n, (char *)want);
	unsigned char *s = roomy_src(data, n), *o = roomy_out(wn);
	check_encode(s, n, o, ci, want, wn);
	pbt_class(codecs[ci].name); pbt_class(size_class(n));
	if (n >= 12) pbt_hit(case_hash(1, ci, data, n));
	if (pbt_want_sample() && n >= 12 && n < 100) pbt_sample("encode codec=%s len=%zu src=%s -> %s", codecs[ci].name, n, pbt_hex(data, n), pbt_hex(o, wn));
}

// every length x every codec
static void p_enc_len (void)
{
	size_t lens = pbt_param_u("lens", 4097);
	uint64_t k = pbt_enum(lens * navail);
	int ci = avail[k % navail];
	size_t n = k / navail;
	size_t at = 3 * pbt_draw((POOL - n) / 3);
	size_t wn = ref_enclen(n);
	unsigned char *s = roomy_src(pool + at, n), *o = roomy_out(wn);
	size_t full = n / 3 * 3;
	memcpy(want, poolenc + at / 3 * 4, full / 3 * 4);
	ref_encode(pool + at + full, n - full, (char *)want + full / 3 * 4);
	check_encode(s, n, o, ci, want, wn);
	if (n >= 12) pbt_hit(case_hash(2, ci * 1000003u + n, pool + at, n < 64 ? n : 64));
	if (pbt_want_sample() && n > 20 && n < 60) pbt_sample("encode sweep codec=%s len=%zu src=%s", codecs[ci].name, n, pbt_hex(s, n));
}

// every three-byte group x every codec, at varying places of the blocks
static void p_enc_triple (void)
{
	uint64_t k = pbt_enum(4096 * (uint64_t)navail);
	int ci = avail[k % navail];
	unsigned hi = (unsigned)(k / navail);
	unsigned mul = 1 + 2 * (unsigned)pbt_draw(2048), add = (unsigned)pbt_draw(4096);
	for (unsigned i = 0; i < 4096; i++) {
		unsigned v = hi << 12 | ((i * mul + add) & 4095);
		data[3 * i] = (unsigned char)(v >> 16); data[3 * i + 1] = (unsigned char)(v >> 8); data[3 * i + 2] = (unsigned char)v;
	}
	size_t n = 3 * 4096, wn = ref_encode(data, n, (char *)want);
	unsigned char *s = roomy_src(data, n), *o = roomy_out(wn);
	check_encode(s, n, o, ci, want, wn);
	pbt_hit(case_hash(3, ci, data, n));
	if (pbt_want_sample()) pbt_sample("encode codec=%s all 4096 groups with upper bits %03x, order i*%u+%u", codecs[ci].name, hi, mul, add);
}

// ---------------------------------------------------------------- C02 round trip

static void round_trip (const unsigned char *d, size_t n, int ce, int cd)
{
	size_t cap = ref_enclen(n), el = 1, dl = 1;
	unsigned char *s = roomy_src(d, n), *o = roomy_out(cap);
	pbt_note("base64_encode codec=%s srclen=%zu src=%s", codecs[ce].name, n, pbt_hex(d, n));
	base64_encode((char *)s, n, (char *)o, &el, codecs[ce].flag);
	if (el > cap + ROOMY) pbt_fail("base64_encode(%s, %zu bytes): outlen is %zu", codecs[ce].name, n, el);
	memcpy(text, o, el);
	s = roomy_src(text, el); o = roomy_out(el);
	pbt_note("base64_decode codec=%s srclen=%zu src=%s (encoded by %s from %zu bytes %s)", codecs[cd].name, el, pbt_hex(text, el), codecs[ce].name, n, pbt_hex(d, n));
	int r = base64_decode((char *)s, el, (char *)o, &dl, codecs[cd].flag);
	pbt_eval(1);
	if (r != 1) pbt_fail("decode(%s) of what encode(%s) made of %zu bytes returns %d", codecs[cd].name, codecs[ce].name, n, r);
	if (dl != n) pbt_fail("decode(%s) of what encode(%s) made of %zu bytes gives %zu bytes", codecs[cd].name, codecs[ce].name, n, dl);
	if (memcmp(o, d, n)) {
		size_t k = first_diff(o, d, n);
		pbt_fail("decode(%s) of what encode(%s) made of %zu bytes differs at %zu: %02x, must be %02x", codecs[cd].name, codecs[ce].name, n, k, o[k], d[k]);
	}
	pbt_class(ce == cd ? "same codec" : "different codecs"); pbt_class(size_class(n));
	if (n >= 12) pbt_hit(case_hash(10 + ce, cd, d, n));
	if (pbt_want_sample() && n >= 12 && n < 80) pbt_sample("round trip %s -> %s len=%zu src=%s text=%s", codecs[ce].name, codecs[cd].name, n, pbt_hex(d, n), pbt_hex(text, el));
}

static void p_rt_rand (void)
{
	int a = gen_codec(), b = gen_codec();
	size_t n = gen_len(maxlen);
	gen_bytes(data, n);
	round_trip(data, n, a, b);
}

// every pair of codecs x every length
static void p_rt_len (void)
{
	size_t lens = pbt_param_u("lens", 1025);
	uint64_t k = pbt_enum(lens * navail * navail);
	int a = avail[k % navail], b = avail[k / navail % navail];
	size_t n = k / navail / navail;
	round_trip(pool + pbt_draw(POOL - n), n, a, b);
}

// ---------------------------------------------------------------- C03 one-shot decode

static void check_decode (const unsigned char *s, size_t n, unsigned char *o, int ci, bool ok, const unsigned char *w, size_t wn)
{
	size_t olen = (size_t)pbt_draw(3) * 77777;
	pbt_note("base64_decode codec=%s srclen=%zu src=%s", codecs[ci].name, n, pbt_hex(s, n));
	int r = base64_decode((const char *)s, n, (char *)o, &olen, codecs[ci].flag);
	pbt_eval(1);
	if (r != (ok ? 1 : 0)) pbt_fail("base64_decode(%s, %zu characters, %s) returns %d", codecs[ci].name, n, ok ? "well-formed" : "malformed", r);
	if (!ok) return;
	if (olen != wn) pbt_fail("base64_decode(%s, %zu characters): outlen is %zu, must be %zu", codecs[ci].name, n, olen, wn);
	if (memcmp(o, w, wn)) {
		size_t d = first_diff(o, w, wn);
		pbt_fail("base64_decode(%s, %zu characters): wrong byte at %zu: %02x, must be %02x", codecs[ci].name, n, d, o[d], w[d]);
	}
}

static void p_dec_rand (void)
{
	int ci = gen_codec();
	size_t n = gen_text(text, maxlen);
	bool mutated = pbt_chance(2, 3);
	if (mutated) n = gen_mutate(text, n, MAXLEN);
	size_t wn;
	bool ok = ref_decode(text, n, want, &wn);
	unsigned char *s = roomy_src(text, n), *o = roomy_out(n);
	check_decode(s, n, o, ci, ok, want, wn);
	pbt_class(ok ? (mutated ? "damaged but well-formed" : "well-formed") : "malformed");
	pbt_class(codecs[ci].name); pbt_class(size_class(n));
	if (n >= 16) pbt_hit(case_hash(20, ci, text, n));
	if (pbt_want_sample() && n >= 16 && n < 100) pbt_sample("decode codec=%s len=%zu %s src=%s", codecs[ci].name, n, ok ? "well-formed" : "malformed", pbt_hex(text, n));
}

static void p_dec_len (void)
{
	size_t lens = pbt_param_u("lens", 4097);
	uint64_t k = pbt_enum(lens * navail);
	int ci = avail[k % navail];
	size_t n = k / navail;		// characters; if not a multiple of 4 it is truncated text
	size_t at = 4 * pbt_draw((POOL / 3 * 4 - n) / 4);
	unsigned pad = n >= 4 && n % 4 == 0 ? (unsigned)pbt_draw(3) : 0;
	unsigned char *s = roomy_src((unsigned char *)poolenc + at, n), *o = roomy_out(n);
	for (unsigned i = 0; i < pad; i++) s[n - 1 - i] = '=';
	check_decode(s, n, o, ci, n % 4 == 0, pool + at / 4 * 3, n / 4 * 3 - pad);
	if (n >= 16) pbt_hit(case_hash(21, ci * 1000003u + n, s, n < 64 ? n : 64));
	if (pbt_want_sample() && n > 20 && n < 60) pbt_sample("decode sweep codec=%s len=%zu src=%s", codecs[ci].name, n, pbt_hex(s, n));
}

static void p_dec_quad (void)
{
	uint64_t k = pbt_enum(4096 * (uint64_t)navail);
	int ci = avail[k % navail];
	unsigned hi = (unsigned)(k / navail);
	unsigned mul = 1 + 2 * (unsigned)pbt_draw(2048), add = (unsigned)pbt_draw(4096);
	for (unsigned i = 0; i < 4096; i++) {
		unsigned v = hi << 12 | ((i * mul + add) & 4095);
		for (int j = 0; j < 4; j++) text[4 * i + j] = ref_alpha[v >> (18 - 6 * j) & 63];
		want[3 * i] = (unsigned char)(v >> 16); want[3 * i + 1] = (unsigned char)(v >> 8); want[3 * i + 2] = (unsigned char)v;
	}
	size_t n = 4 * 4096;
	unsigned char *s = roomy_src(text, n), *o = roomy_out(n);
	check_decode(s, n, o, ci, true, want, 3 * 4096);
	pbt_hit(case_hash(22, ci, text, n));
	if (pbt_want_sample()) pbt_sample("decode codec=%s all 4096 groups with upper bits %03x, order i*%u+%u", codecs[ci].name, hi, mul, add);
}

// every byte value at every position of texts of several lengths
static const unsigned bad_lens[] = { 4, 8, 16, 20, 36, 44, 64, 68, 88, 100, 128, 136, 200, 260, 332, 400, 520, 1044, 4100 };
static void p_dec_bad (void)
{
	unsigned nl = (unsigned)pbt_param_u("badlens", sizeof bad_lens / sizeof *bad_lens);
	uint64_t total = 0;
	for (unsigned i = 0; i < nl; i++) total += bad_lens[i];
	uint64_t k = pbt_enum(total * navail);
	int ci = avail[k % navail];
	k /= navail;
	unsigned l = 0;
	while (k >= bad_lens[l]) k -= bad_lens[l++];
	size_t n = bad_lens[l], pos = k;
	size_t at = 4 * pbt_draw((POOL / 3 * 4 - n) / 4);
	memcpy(text, poolenc + at, n);
	unsigned pad = (unsigned)pbt_draw(3);
	for (unsigned i = 0; i < pad; i++) text[n - 1 - i] = '=';
	unsigned char *s = roomy_src(text, n), *o = roomy_out(n);
	uint64_t bits = 0;
	for (unsigned c = 0; c < 256; c++) {
		size_t wn;
		s[pos] = (unsigned char)c;
		bool ok = ref_decode(s, n, want, &wn);
		if (!ok) bits++;
		check_decode(s, n, o, ci, ok, want, wn);
	}
	pbt_hit(case_hash(23, ci * 1000003u + pos, text, n));
	if (pbt_want_sample() && n < 80) pbt_sample("decode codec=%s len=%zu each of 256 bytes at %zu of %s (%u malformed)", codecs[ci].name, n, pos, pbt_hex(text, n), (unsigned)bits);
}

// all pairs of bytes next to each other, somewhere in a block or in the tail
static void p_dec_pair (void)
{
	uint64_t k = pbt_enum(256 * 8 * (uint64_t)navail);
	int ci = avail[k % navail];
	unsigned b1 = (unsigned)(k / navail % 256);
	unsigned lane = (unsigned)(k / navail / 256);		// 0..7: phase and place
	size_t n = lane < 4 ? 256 : 4 * (1 + pbt_draw(6));
	size_t at = 4 * pbt_draw(POOL / 3 - n / 4);
	memcpy(text, poolenc + at, n);
	size_t pos = lane < 4 ? pbt_draw(48) * 4 + lane : n - 4 + (lane - 4);
	if (pos + 1 >= n) pos = n - 2;
	unsigned char *s = roomy_src(text, n), *o = roomy_out(n);
	for (unsigned c = 0; c < 256; c++) {
		size_t wn;
		s[pos] = (unsigned char)b1; s[pos + 1] = (unsigned char)c;
		bool ok = ref_decode(s, n, want, &wn);
		check_decode(s, n, o, ci, ok, want, wn);
	}
	pbt_hit(case_hash(24, ci * 1000003u + pos * 256 + b1, text, n));
	if (pbt_want_sample()) pbt_sample("decode codec=%s len=%zu bytes %02x,00-ff at %zu", codecs[ci].name, n, b1, pos);
}

// ---------------------------------------------------------------- chunking

static unsigned chunk_mode;
static void gen_chunk_mode (void) { chunk_mode = (unsigned)pbt_draw(8); }
static size_t gen_chunk (size_t left)
{
	size_t n;
	switch (chunk_mode) {
	case 0: n = left; break;
	case 1: n = 1; break;
	case 2: n = pbt_draw(6); break;
	case 3: n = gen_len(left); break;
	case 4: n = pbt_draw(left + 1); break;
	case 5: n = pbt_chance(1, 3) ? 0 : 1 + pbt_draw(70); break;
	case 6: n = 1 + pbt_draw(4); if (pbt_chance(1, 4)) n = left; break;
	default: n = 24 + pbt_draw(300); break;
	}
	return n > left ? left : n;
}

// ---------------------------------------------------------------- C04 streaming encode

static void p_senc_rand (void)
{
	int ci = gen_codec();
	gen_chunk_mode();
	size_t n = gen_len(chunk_mode == 1 || chunk_mode == 2 || chunk_mode == 6 ? 600 : maxlen);
	gen_bytes(data, n);
	size_t wn = ref_encode(data, n, (char *)want);
	struct base64_state st;
	memset(&st, (int)pbt_draw(256), sizeof st);
	base64_stream_encode_init(&st, codecs[ci].flag);
	size_t done = 0, got = 0, calls = 0, empties = 0;
	uint64_t h = 0;
	while (done < n || pbt_chance(1, 4)) {
		size_t c = gen_chunk(n - done);
		if (calls > 20000) c = n - done;
		if (c == 0) { if (++empties > 50) { if (done == n) break; c = n - done; } }
		unsigned char *s = roomy_src(data + done, c), *o = roomy_out(ref_enclen(c));
		size_t ol = 99999, w = ref_enc_emitted(done + c) - ref_enc_emitted(done);
		pbt_note("base64_stream_encode codec=%s call %zu: chunk of %zu bytes at %zu of %zu bytes %s", codecs[ci].name, calls, c, done, n, pbt_hex(data, n));
		base64_stream_encode(&st, (char *)s, c, (char *)o, &ol);
		pbt_eval(1);
		if (ol != w) pbt_fail("stream encode (%s): chunk of %zu bytes at %zu reports %zu characters, must be %zu", codecs[ci].name, c, done, ol, w);
		if (memcmp(o, want + got, ol)) {
			size_t d = first_diff(o, want + got, ol);
			pbt_fail("stream encode (%s): chunk of %zu bytes at %zu: wrong character at %zu of the text", codecs[ci].name, c, done, got + d);
		}
		got += ol; done += c; calls++;
		h = pbt_mix(h ^ c);
	}
	unsigned char *o = roomy_out(4);
	size_t ol = 99999;
	pbt_note("base64_stream_encode_final codec=%s after %zu bytes %s in %zu chunks", codecs[ci].name, n, pbt_hex(data, n), calls);
	base64_stream_encode_final(&st, (char *)o, &ol);
	if (ol != wn - got) pbt_fail("stream encode final (%s): reports %zu characters after %zu bytes, must be %zu", codecs[ci].name, ol, n, wn - got);
	if (memcmp(o, want + got, ol)) pbt_fail("stream encode final (%s): %s, must be %s", codecs[ci].name, pbt_hex(o, ol), pbt_hex(want + got, ol));
	pbt_class(codecs[ci].name); pbt_class(calls < 2 ? "at most 1 chunk" : calls < 10 ? "2-9 chunks" : "10+ chunks");
	if (empties) pbt_class("with empty chunks");
	if (calls >= 2 && n >= 4) pbt_hit(case_hash(40 + ci, h, data, n));
	if (pbt_want_sample() && calls >= 2 && n >= 4 && n < 100) pbt_sample("stream encode codec=%s %zu bytes in %zu chunks (%zu empty): %s", codecs[ci].name, n, calls, empties, pbt_hex(data, n));
}

// all ways to cut n bytes into three chunks
static void p_senc_cut (void)
{
	size_t lens = pbt_param_u("cutlens", 130);
	uint64_t k = pbt_enum(lens * navail);
	int ci = avail[k % navail];
	size_t n = k / navail;
	const unsigned char *d = pool + pbt_draw(POOL - n);
	size_t wn = ref_encode(d, n, (char *)want);
	unsigned char *s = roomy_src(d, n), *o = roomy_out(wn);
	for (size_t a = 0; a <= n; a++) for (size_t b = a; b <= n; b++) {
		size_t cut[5] = { 0, a, b, n, n }, got = 0, ol;
		struct base64_state st;
		pbt_note("stream encode codec=%s %zu bytes %s cut at %zu and %zu", codecs[ci].name, n, pbt_hex(s, n), a, b);
		base64_stream_encode_init(&st, codecs[ci].flag);
		for (int i = 0; i < 3; i++) {
			ol = 12345;
			base64_stream_encode(&st, (char *)s + cut[i], cut[i + 1] - cut[i], (char *)o + got, &ol);
			size_t w = ref_enc_emitted(cut[i + 1]) - ref_enc_emitted(cut[i]);
			if (ol != w) pbt_fail("stream encode (%s): %zu bytes cut at %zu and %zu: chunk %d reports %zu characters, must be %zu", codecs[ci].name, n, a, b, i, ol, w);
			got += ol;
		}
		ol = 12345;
		base64_stream_encode_final(&st, (char *)o + got, &ol);
		pbt_eval(1);
		if (got + ol != wn || memcmp(o, want, wn))
			pbt_fail("stream encode (%s): %zu bytes cut at %zu and %zu: wrong text %s, must be %s", codecs[ci].name, n, a, b, pbt_hex(o, got + ol), pbt_hex(want, wn));
	}
	if (n >= 2) pbt_hit(case_hash(45, ci, d, n));
	if (pbt_want_sample() && n > 4 && n < 40) pbt_sample("stream encode codec=%s %s cut in all ways into three chunks", codecs[ci].name, pbt_hex(d, n));
}

// ---------------------------------------------------------------- C05 / C06 streaming decode

// Feeds one chunk and compares with the model. Returns the model's verdict.
static int feed (struct base64_state *st, struct ref_dec *m, const unsigned char *s, size_t c, unsigned char *o, int ci, size_t at, bool untouched)
{
	size_t ol = 99999, w;
	bool was_over = m->failed || m->ended;
	size_t used = ref_dec_feed(m, s, c, want, &w);
	int r = base64_stream_decode(st, (const char *)s, c, (char *)o, &ol);
	int wr = used == c;
	pbt_eval(1);
	if (ol != w) pbt_fail("stream decode (%s): chunk %s at %zu reports %zu bytes, must be %zu", codecs[ci].name, pbt_hex(s, c), at, ol, w);
	if (memcmp(o, want, w)) pbt_fail("stream decode (%s): chunk %s at %zu: wrong bytes %s, must be %s", codecs[ci].name, pbt_hex(s, c), at, pbt_hex(o, w), pbt_hex(want, w));
	if (c == 0 && was_over) return wr;	// nothing is promised
	if (r != wr) pbt_fail("stream decode (%s): chunk %s at %zu returns %d, must be %d", codecs[ci].name, pbt_hex(s, c), at, r, wr);
	(void)untouched;
	return wr;
}

static void p_sdec_rand (void)
{
	int ci = gen_codec();
	gen_chunk_mode();
	size_t n = gen_text(text, chunk_mode == 1 || chunk_mode == 2 || chunk_mode == 6 ? 800 : maxlen);
	if (pbt_chance(1, 2)) n = gen_mutate(text, n, MAXLEN);
	struct base64_state st; struct ref_dec m;
	memset(&st, (int)pbt_draw(256), sizeof st);
	base64_stream_decode_init(&st, codecs[ci].flag);
	ref_dec_init(&m);
	size_t done = 0, calls = 0, empties = 0;
	uint64_t h = 0;
	bool inside = false;
	while (done < n || pbt_chance(1, 4)) {
		if (m.ended && done == n) break;
		size_t c = gen_chunk(n - done);
		if (calls > 20000) c = n - done;
		if (c == 0) { if (++empties > 50) { if (done == n) break; c = n - done; } }
		unsigned char *s = roomy_src(text + done, c), *o = roomy_out(c);
		pbt_note("base64_stream_decode codec=%s call %zu: chunk of %zu at %zu of %zu characters %s", codecs[ci].name, calls, c, done, n, pbt_hex(text, n));
		int r = feed(&st, &m, s, c, o, ci, done, false);
		done += c; calls++;
		if (done % 4 && done < n) inside = true;
		h = pbt_mix(h ^ c);
		if (!r) break;
	}
	pbt_class(codecs[ci].name); pbt_class(m.failed ? "error" : m.ended ? "ended" : m.want_pad ? "waiting for '='" : "open");
	pbt_class(calls < 2 ? "at most 1 chunk" : calls < 10 ? "2-9 chunks" : "10+ chunks");
	if (empties) pbt_class("with empty chunks");
	if (inside) pbt_class("cut inside a group");
	if (calls >= 2 && n >= 4) pbt_hit(case_hash(50 + ci, h, text, n));
	if (pbt_want_sample() && calls >= 2 && n >= 4 && n < 100) pbt_sample("stream decode codec=%s in %zu chunks (%s): %s", codecs[ci].name, calls, m.failed ? "error" : "fine", pbt_hex(text, n));
}

// all ways to cut a text (well-formed, padded, damaged at one place) into three chunks
static void p_sdec_cut (void)
{
	size_t lens = pbt_param_u("cutlens", 150);
	uint64_t k = pbt_enum(lens * 4 * navail);
	int ci = avail[k % navail];
	unsigned kind = (unsigned)(k / navail % 4);
	size_t n = k / navail / 4;
	size_t at = 4 * pbt_draw((POOL / 3 * 4 - n) / 4);
	memcpy(text, poolenc + at, n);
	if (kind == 1 && n >= 4) text[n - 1] = '=';
	if (kind == 2 && n >= 4) text[n - 1] = text[n - 2] = '=';
	if (kind == 3 && n >= 1) text[pbt_draw(n)] = gen_badbyte();
	unsigned char *s = roomy_src(text, n), *o = roomy_out(n);
	for (size_t a = 0; a <= n; a++) for (size_t b = a; b <= n; b++) {
		size_t cut[4] = { 0, a, b, n };
		struct base64_state st; struct ref_dec m;
		pbt_note("stream decode codec=%s %zu characters %s cut at %zu and %zu", codecs[ci].name, n, pbt_hex(s, n), a, b);
		base64_stream_decode_init(&st, codecs[ci].flag);
		ref_dec_init(&m);
		for (int i = 0; i < 3; i++)
			if (!feed(&st, &m, s + cut[i], cut[i + 1] - cut[i], o, ci, cut[i], false)) break;
	}
	if (n >= 2) pbt_hit(case_hash(55 + kind, ci, text, n));
	if (pbt_want_sample() && n > 4 && n < 40) pbt_sample("stream decode codec=%s %s cut in all ways into three chunks", codecs[ci].name, pbt_hex(text, n));
}

// all short strings over {A, /, =, !} x all chunkings (empty chunks included), after
// a well-formed prefix, up to the first error (C05) or beyond (C06)
static void sdec_exh (bool beyond)
{
	unsigned L = (unsigned)pbt_param_u("exhlen", 6);
	uint64_t strings = 1;
	for (unsigned i = 0; i < L; i++) strings *= 4;
	uint64_t k = pbt_enum(strings * navail);
	int ci = avail[k % navail];
	k /= navail;
	size_t pre = 4 * pbt_draw(3) * pbt_draw(20);
	size_t at = 4 * pbt_draw((POOL / 3 * 4 - pre) / 4);
	memcpy(text, poolenc + at, pre);
	unsigned char t[16];
	for (unsigned i = 0; i < L; i++, k /= 4) t[i] = "A/=!"[k % 4];
	if (pbt_chance(1, 2)) for (unsigned i = 0; i < L; i++) if (t[i] == '!') t[i] = (unsigned char)(pbt_draw(256) | 0x80);
	memcpy(text + pre, t, L);
	unsigned char *s = roomy_src(text, pre + L), *o = roomy_out(pre + L + 64);
	unsigned empties = (unsigned)pbt_draw(1u << L);	// where empty chunks are put in
	uint64_t nt = 0;
	for (unsigned cuts = 0; cuts < 1u << (L - 1); cuts++) {
		struct base64_state st; struct ref_dec m;
		base64_stream_decode_init(&st, codecs[ci].flag);
		ref_dec_init(&m);
		size_t a = 0;
		pbt_note("stream decode codec=%s %s cuts=%x (bit i: cut after character i of the last %u) empty=%x", codecs[ci].name, pbt_hex(s, pre + L), cuts, L, empties);
		bool over = false;
		for (unsigned i = 0; i < L; i++) {
			if (i + 1 < L && !(cuts >> i & 1)) continue;
			size_t b = pre + i + 1;
			memset(o, 0xEE, b - a + 8);
			bool was = m.failed || m.ended;
			if (was) nt++;
			int r = feed(&st, &m, s + a, b - a, o, ci, a, was);
			if (was) for (size_t z = 0; z < b - a; z++) if (o[z] != 0xEE) pbt_fail("stream decode (%s): a call after the end or an error wrote to its output", codecs[ci].name);
			a = b;
			if (!r && !beyond) { over = true; break; }
			if (empties >> i & 1) feed(&st, &m, s + a, 0, o, ci, a, false);
		}
		(void)over;
	}
	if (!beyond || nt) pbt_hit(case_hash(60 + beyond, ci, text, pre + L));
	if (pbt_want_sample()) pbt_sample("stream decode codec=%s %s, the last %u characters cut in all ways%s", codecs[ci].name, pbt_hex(text, pre + L), L, beyond ? ", going on after errors" : "");
}
static void p_sdec_exh (void) { sdec_exh(false); }
static void p_sticky_exh (void) { sdec_exh(true); }

// C06: reach the end or an error, then keep feeding
static void p_sticky (void)
{
	int ci = gen_codec();
	gen_chunk_mode();
	size_t n = gen_text(text, 2000);
	unsigned kind = (unsigned)pbt_draw(4);
	if (kind) n = gen_mutate(text, n, MAXLEN);
	struct base64_state st; struct ref_dec m;
	base64_stream_decode_init(&st, codecs[ci].flag);
	ref_dec_init(&m);
	size_t done = 0, calls = 0, after = 0;
	while (done < n && calls < 3000) {
		size_t c = gen_chunk(n - done);
		if (c == 0 && calls > 50) c = n - done;
		bool was = m.failed || m.ended;
		unsigned char *s = roomy_src(text + done, c), *o = roomy_out(c);
		pbt_note("base64_stream_decode codec=%s call %zu: chunk of %zu at %zu of %zu characters %s", codecs[ci].name, calls, c, done, n, pbt_hex(text, n));
		if (was) { memset(o, 0xEE, c + 8); if (c) after++; }
		feed(&st, &m, s, c, o, ci, done, was);
		if (was) for (size_t z = 0; z < c + 8; z++) if (o[z] != 0xEE) pbt_fail("stream decode (%s): a call after the end or an error wrote to its output", codecs[ci].name);
		done += c; calls++;
	}
	unsigned more = 1 + (unsigned)pbt_draw(6);
	bool over = m.failed || m.ended;
	while (over && more--) {
		size_t c;
		switch (pbt_draw(6)) {
		case 0: c = 1; text[0] = (unsigned char)ref_alpha[pbt_draw(64)]; break;
		case 1: c = 1 + pbt_draw(3); memset(text, '=', c); break;
		case 2: c = 1; text[0] = gen_badbyte(); break;
		case 3: c = 0; break;
		case 4: c = gen_text(text, 300); break;
		default: c = gen_text(text, 300); c = gen_mutate(text, c, 400); break;
		}
		unsigned char *s = roomy_src(text, c), *o = roomy_out(c);
		memset(o, 0xEE, c + 8);
		pbt_note("base64_stream_decode codec=%s after the %s: chunk %s", codecs[ci].name, m.failed ? "error" : "end", pbt_hex(text, c));
		feed(&st, &m, s, c, o, ci, done, true);
		for (size_t z = 0; z < c + 8; z++) if (o[z] != 0xEE) pbt_fail("stream decode (%s): a call after the end or an error wrote to its output", codecs[ci].name);
		if (c) after++;
		done += c;
	}
	pbt_class(!over ? "never over" : m.failed ? "error" : "ended"); pbt_class(codecs[ci].name);
	if (after) { pbt_class("calls after the end or an error"); pbt_hit(case_hash(65, ci * 64 + after, text, 32) ^ pbt_mix(done * 31 + n)); }
	if (pbt_want_sample() && after) pbt_sample("codec=%s %zu characters then %zu calls after the %s, last chunk %s", codecs[ci].name, n, after, m.failed ? "error" : "end", pbt_hex(text, 20));
}

// ---------------------------------------------------------------- C07 memory

static enum place gen_place (void) { return (enum place)pbt_draw(3); }

struct call {
	int op;			// 0 encode, 1 decode, 2 stream encode, 3 stream encode final, 4 stream decode
	int ci;
	const unsigned char *src; size_t n, cap;
	struct base64_state st;	// in and out
	int ret; size_t outlen;
};
static const char *const opname[] = { "base64_encode", "base64_decode", "base64_stream_encode", "base64_stream_encode_final", "base64_stream_decode" };

// Makes one call with every buffer at a boundary; result bytes are copied to dst.
static void guarded (struct call *c, unsigned char *dst)
{
	enum place ps = gen_place(), po = gen_place(), pt = gen_place();
	unsigned os = (unsigned)pbt_draw(64), oo = (unsigned)pbt_draw(64);
	unsigned char s1 = (unsigned char)pbt_draw(256), fill = (unsigned char)pbt_draw(256);
	unsigned char *s = gbuf_place(&gs, c->n, ps, os, s1);
	memcpy(s, c->src, c->n);
	if (c->n < 100000) gbuf_protect(&gs, true);
	unsigned char *o = gbuf_place(&go, c->cap, po, oo, s1 ^ 1);
	memset(o, fill, c->cap);
	struct base64_state *st = (void *)gbuf_place(&gst, sizeof *st, pt, 0, s1);
	memcpy(st, &c->st, sizeof *st);
	size_t *ol = (void *)gbuf_place(&gol, sizeof *ol, pt, 0, s1);
	*ol = fill * (size_t)0x01010101;
	pbt_note("%s codec=%s srclen=%zu outcap=%zu src placement %d out placement %d state={eof=%d bytes=%d carry=%d} src=%s", opname[c->op], codecs[c->ci].name, c->n, c->cap,
		ps, po, c->st.eof, c->st.bytes, c->st.carry, pbt_hex(c->src, c->n));
	c->ret = 1;
	switch (c->op) {
	case 0: base64_encode((char *)s, c->n, (char *)o, ol, codecs[c->ci].flag); break;
	case 1: c->ret = base64_decode((char *)s, c->n, (char *)o, ol, codecs[c->ci].flag); break;
	case 2: base64_stream_encode(st, (char *)s, c->n, (char *)o, ol); break;
	case 3: base64_stream_encode_final(st, (char *)o, ol); break;
	case 4: c->ret = base64_stream_decode(st, (char *)s, c->n, (char *)o, ol); break;
	}
	pbt_eval(1);
	ptrdiff_t k;
	if (c->n >= 100000 && memcmp(s, c->src, c->n)) pbt_fail("%s (%s): the input was modified", opname[c->op], codecs[c->ci].name);
	if ((k = gbuf_check(&gs))) pbt_fail("%s (%s): memory near the input was written at %td", opname[c->op], codecs[c->ci].name, k);
	if ((k = gbuf_check(&go))) pbt_fail("%s (%s): wrote outside the output space of %zu bytes, at %td", opname[c->op], codecs[c->ci].name, c->cap, k > 0 ? k - 1 : k);
	if ((k = gbuf_check(&gst))) pbt_fail("%s (%s): wrote outside the state", opname[c->op], codecs[c->ci].name);
	if ((k = gbuf_check(&gol))) pbt_fail("%s (%s): wrote outside *outlen", opname[c->op], codecs[c->ci].name);
	// a malformed one-shot text promises nothing about outlen
	if (!(c->op == 1 && c->ret != 1) && *ol > c->cap) pbt_fail("%s (%s): outlen %zu exceeds the output space of %zu", opname[c->op], codecs[c->ci].name, *ol, c->cap);
	c->outlen = c->op == 1 && c->ret != 1 ? 0 : *ol;
	memcpy(&c->st, st, sizeof *st);
	if (c->outlen <= c->cap) memcpy(dst, o, c->outlen);
}

// Two runs with different surroundings must agree.
static void guarded_twice (struct call *c)
{
	struct call d = *c;
	guarded(c, tmp);
	guarded(&d, want);
	if (c->ret != d.ret || c->outlen != d.outlen || memcmp(tmp, want, c->outlen))
		pbt_fail("%s (%s): the result depends on the surroundings: returns %d/%d, outlen %zu/%zu, first difference at %zu", opname[c->op], codecs[c->ci].name,
			c->ret, d.ret, c->outlen, d.outlen, first_diff(tmp, want, c->outlen < d.outlen ? c->outlen : d.outlen));
}

static void p_mem_one (void)
{
	struct call c = { .op = (int)pbt_draw(2), .ci = gen_codec() };
	if (c.op == 0) { c.n = gen_len(maxlen); gen_bytes(data, c.n); c.src = data; c.cap = ref_enclen(c.n); }
	else {
		c.n = gen_text(text, maxlen);
		if (pbt_chance(1, 2)) c.n = gen_mutate(text, c.n, MAXLEN);
		c.src = text; c.cap = c.n / 4 * 3 + c.n % 4 * 3 / 4;
	}
	uint64_t h = case_hash(70 + c.op, c.ci, c.src, c.n);
	size_t n = c.n;
	guarded_twice(&c);
	pbt_class(opname[c.op]); pbt_class(codecs[c.ci].name); pbt_class(size_class(n));
	if (n >= 1) pbt_hit(h);
	if (pbt_want_sample() && n > 4 && n < 100) pbt_sample("%s codec=%s len=%zu out space=%zu, tight: %s", opname[c.op], codecs[c.ci].name, n, c.cap, pbt_hex(c.src, n));
}

static void p_mem_len (void)
{
	size_t lens = pbt_param_u("lens", 1100);
	uint64_t k = pbt_enum(lens * navail * 2);
	struct call c = { .op = (int)(k % 2), .ci = avail[k / 2 % navail], .n = k / 2 / navail };
	if (c.op == 0) { c.src = pool + pbt_draw(POOL - c.n); c.cap = ref_enclen(c.n); }
	else {
		c.src = (unsigned char *)poolenc + 4 * pbt_draw((POOL / 3 * 4 - c.n) / 4);
		c.cap = c.n / 4 * 3 + c.n % 4 * 3 / 4;
		unsigned kind = (unsigned)pbt_draw(4);
		memcpy(text, c.src, c.n); c.src = text;
		if (kind == 1 && c.n) text[pbt_draw(c.n)] = gen_badbyte();
		if (kind >= 2 && c.n % 4 == 0 && c.n) { text[c.n - 1] = '='; if (kind == 3) text[c.n - 2] = '='; }
	}
	size_t n = c.n;
	guarded_twice(&c);
	if (n) pbt_hit(case_hash(72 + c.op, c.ci * 1000003u + n, c.src, n));
	if (pbt_want_sample() && n > 10 && n < 60) pbt_sample("%s codec=%s len=%zu sweep", opname[c.op], codecs[c.ci].name, n);
}

static void p_mem_stream (void)
{
	int ci = gen_codec();
	bool enc = pbt_chance(1, 2);
	gen_chunk_mode();
	size_t lim = chunk_mode == 1 || chunk_mode == 2 || chunk_mode == 6 ? 200 : 5000, n;
	struct base64_state st; struct ref_dec m;
	if (enc) { n = gen_len(lim); gen_bytes(data, n); base64_stream_encode_init(&st, codecs[ci].flag); }
	else {
		n = gen_text(text, lim);
		if (pbt_chance(1, 2)) n = gen_mutate(text, n, lim + 64);
		base64_stream_decode_init(&st, codecs[ci].flag);
	}
	ref_dec_init(&m);
	size_t done = 0, calls = 0, inmid = 0;
	uint64_t h = 0;
	while (done < n) {
		size_t c = gen_chunk(n - done);
		if (c == 0 && calls > 60) c = n - done;
		struct call k = { .op = enc ? 2 : 4, .ci = ci, .src = (enc ? data : text) + done, .n = c, .st = st };
		if (enc) k.cap = ref_enclen(c);
		else {
			// what the pending bits and this chunk can hold
			size_t pend = m.failed || m.ended ? 0 : m.nb;
			k.cap = c / 4 * 3 + (c % 4 * 6 + pend) / 8;
		}
		if ((enc ? done % 3 : m.phase) && c > 16) inmid++;
		guarded_twice(&k);
		st = k.st;
		if (!enc) { size_t w; ref_dec_feed(&m, text + done, c, want, &w); }
		done += c; calls++;
		h = pbt_mix(h ^ c);
	}
	if (enc) {
		struct call k = { .op = 3, .ci = ci, .src = data, .n = 0, .cap = n % 3 == 1 ? 3 : n % 3 == 2 ? 2 : 0, .st = st };
		guarded_twice(&k);
	}
	pbt_class(enc ? "stream encode" : "stream decode"); pbt_class(codecs[ci].name);
	if (inmid) pbt_class("long chunk starting inside a group");
	if (n >= 2 && calls >= 2) pbt_hit(case_hash(75 + enc, ci ^ h, enc ? data : text, n));
	if (pbt_want_sample() && n > 10 && n < 80) pbt_sample("stream %s codec=%s %zu bytes in %zu tight chunks: %s", enc ? "encode" : "decode", codecs[ci].name, n, calls, pbt_hex(enc ? data : text, n));
}

// ---------------------------------------------------------------- sizes from 1 to 64 MiB

#define MIDMAX ((size_t)64 << 20)
static unsigned char *md, *mt, *mo;	// data, its text, output
static size_t edits[16]; static unsigned char olds[16]; static int nedits;	// of md

static void mid_edit (size_t p, unsigned char x)
{
	md[p] ^= x;
	size_t g = p / 3 * 3;
	ref_encode(md + g, 3, (char *)mt + g / 3 * 4);
}
static size_t mid_pos (size_t n)
{
	size_t p = pbt_chance(1, 2) ? pbt_draw(n) : near((size_t)1 << (10 + pbt_draw(17)));
	return p % n;
}
// n bytes in md, their text (unpadded groups) in mt
static size_t mid_data (void)
{
	size_t max = pbt_param_u("midmax", MIDMAX - 8), n;
	if (!md) {
		md = malloc(MIDMAX + POOL); mt = malloc((MIDMAX + POOL) / 3 * 4); mo = malloc(MIDMAX / 3 * 4 + 4096);
		for (size_t i = 0; i < max + 8; i += POOL) { memcpy(md + i, pool, POOL); memcpy(mt + i / 3 * 4, poolenc, POOL / 3 * 4); }
	}
	while (nedits) { nedits--; mid_edit(edits[nedits], olds[nedits]); }
#ifdef _OPENMP
	int threads = 1 + (int)pbt_draw(pbt_chance(1, 3) ? 250 : 20);
	omp_set_num_threads(threads);
	pbt_class(threads > 64 ? "more than 64 threads" : "up to 64 threads");
#endif
	unsigned k = 20 + (unsigned)pbt_draw(6);
	switch (pbt_draw(5)) {
	case 0: n = max - pbt_draw(max >> 5); break;
	case 4: n = near((size_t)1 << k); break;
	case 1: n = near(3 * ((size_t)1 << (k - 1))); break;
	default: n = ((size_t)1 << k) + pbt_draw((uint64_t)1 << k);
	}
	if (n > max) n = max / 2 + n % (max / 2);
	for (int i = (int)pbt_draw(12); i > 0; i--) {
		edits[nedits] = mid_pos(n); olds[nedits] = (unsigned char)(1 + pbt_draw(255));
		mid_edit(edits[nedits], olds[nedits]); nedits++;
	}
	return n;
}
// the text of n bytes differs from mt in the last group only
static size_t mid_tail (size_t n, unsigned char tail[4]) { return n % 3 ? ref_encode(md + n / 3 * 3, n % 3, (char *)tail) : 0; }

static void mid_text_is (const unsigned char *o, size_t n, const char *what)
{
	unsigned char tail[4];
	size_t f = n / 3 * 4, t = mid_tail(n, tail);
	if (memcmp(o, mt, f)) pbt_fail("%s: wrong character at %zu", what, first_diff(o, mt, f));
	if (memcmp(o + f, tail, t)) pbt_fail("%s: wrong character at %zu", what, f + first_diff(o + f, tail, t));
}

static void p_enc_mid (void)
{
	int ci = gen_codec();
	size_t n = mid_data(), ol = 5, off = pbt_draw(64);
	char what[100];
	sprintf(what, "base64_encode(%s, %zu bytes)", codecs[ci].name, n);
	pbt_note("%s", what);
	base64_encode((char *)md, n, (char *)mo + off, &ol, codecs[ci].flag);
	pbt_eval(1);
	if (ol != ref_enclen(n)) pbt_fail("%s: outlen is %zu, must be %zu", what, ol, ref_enclen(n));
	mid_text_is(mo + off, n, what);
	pbt_class("len 1M-64M");
	pbt_hit(case_hash(80, ci * 100003u + nedits, &n, sizeof n) ^ pbt_hash(1, edits, sizeof *edits * nedits));
	if (pbt_want_sample()) pbt_sample("%s, %d bytes of the pattern changed", what, nedits);
}

// Text of n bytes in mt (tail put in place); returns its length and what must come back.
static unsigned char mid_saved[4]; static size_t mid_saved_at = SIZE_MAX;
static size_t mid_text (size_t n)
{
	if (mid_saved_at != SIZE_MAX) memcpy(mt + mid_saved_at, mid_saved, 4);
	mid_saved_at = n / 3 * 4;
	memcpy(mid_saved, mt + mid_saved_at, 4);
	return mid_saved_at + mid_tail(n, mt + mid_saved_at);
}
static void mid_untext (void) { memcpy(mt + mid_saved_at, mid_saved, 4); mid_saved_at = SIZE_MAX; }

static void p_rt_mid (void)
{
	int a = gen_codec(), b = gen_codec();
	size_t n = mid_data(), ol = 5, dl = 5;
	char what[150];
	sprintf(what, "decode(%s) of what encode(%s) made of %zu bytes", codecs[b].name, codecs[a].name, n);
	pbt_note("%s", what);
	base64_encode((char *)md, n, (char *)mo, &ol, codecs[a].flag);
	if (ol > MIDMAX / 3 * 4 + 4000) pbt_fail("encode(%s) of %zu bytes: outlen is %zu", codecs[a].name, n, ol);
	static unsigned char *back;
	if (!back) back = malloc(MIDMAX + 4096);
	int r = base64_decode((char *)mo, ol, (char *)back, &dl, codecs[b].flag);
	pbt_eval(1);
	if (r != 1 || dl != n) pbt_fail("%s returns %d and %zu bytes", what, r, dl);
	if (memcmp(back, md, n)) pbt_fail("%s differs at %zu", what, first_diff(back, md, n));
	pbt_class("len 1M-64M");
	pbt_hit(case_hash(81, a * 64 + b, &n, sizeof n) ^ pbt_hash(1, edits, sizeof *edits * nedits));
	if (pbt_want_sample()) pbt_sample("%s, %d bytes of the pattern changed", what, nedits);
}

static void mid_decode (bool stream)
{
	int ci = gen_codec();
	size_t n = mid_data(), t = mid_text(n), kind = pbt_draw(6), bad = SIZE_MAX, len = t;
	unsigned char was = 0;
	size_t r = pbt_draw(3);
	if (kind == 1 || kind == 2) {
		bad = mid_pos(t - 8);
		was = mt[bad];
		unsigned char c = kind == 1 ? '=' : gen_badbyte();
		if (ref_value(c) >= 0) c |= 0x80;
		// '=' at the third place is an offence only with what follows
		if (c == '=') bad = bad / 4 * 4 + (bad % 4 == 2 ? 1 : bad % 4), was = mt[bad];
		mt[bad] = c;
	} else if (kind == 3) len = t - t % 4 - (n % 3 ? 4 : 0) - 1 - r;	// inside a group
	// '=' in the fourth place ends the stream: what follows is the offence
	size_t offence = bad == SIZE_MAX ? SIZE_MAX : mt[bad] == '=' && bad % 4 == 3 ? bad + 1 : bad;
	char what[300];
	int k = sprintf(what, "%s(%s, %zu characters", stream ? "stream decode" : "base64_decode", codecs[ci].name, len);
	if (bad != SIZE_MAX) k += sprintf(what + k, ", 0x%02x at %zu", mt[bad], bad);
	sprintf(what + k, ")");
	pbt_note("%s", what);
	#define UPTO(a) ((a) / 4 * 3 + ((a) % 4 ? (a) % 4 - 1 : 0))
	#define BYTES(a) (bad != SIZE_MAX && (a) > bad ? UPTO(bad) : (a) >= t - (n % 3 ? 3 - n % 3 : 0) ? n : UPTO(a))
	if (!stream) {
		size_t ol = 5;
		int ok = bad == SIZE_MAX && kind != 3;
		int ret = base64_decode((char *)mt, len, (char *)mo, &ol, codecs[ci].flag);
		pbt_eval(1);
		if (ret != ok) pbt_fail("%s returns %d, must be %d", what, ret, ok);
		if (ok && ol != n) pbt_fail("%s: outlen is %zu, must be %zu", what, ol, n);
		if (ok && memcmp(mo, md, n)) pbt_fail("%s: wrong byte at %zu", what, first_diff(mo, md, n));
		pbt_hit(case_hash(82, ci, &n, sizeof n) ^ pbt_mix(bad) ^ pbt_hash(kind, edits, sizeof *edits * nedits));
	} else {
		struct base64_state st;
		size_t at = 0, got = 0, ol, calls = 0;
		base64_stream_decode_init(&st, codecs[ci].flag);
		uint64_t h = 0;
		while (at < len) {
			size_t c = pbt_chance(1, 3) ? 1 + pbt_draw(100) : pbt_chance(1, 2) ? 1 + pbt_draw(len - at) : near((size_t)1 << (10 + pbt_draw(17)));
			if (c > len - at || calls > 12) c = len - at;
			ol = 5;
			int ret = base64_stream_decode(&st, (char *)mt + at, c, (char *)mo + got, &ol);
			pbt_eval(1);
			at += c; calls++; h = pbt_mix(h ^ c);
			int ok = at <= offence;
			if (ret != ok) pbt_fail("%s: the chunk of %zu characters up to %zu returns %d, must be %d", what, c, at, ret, ok);
			got += ol;
			if (got != BYTES(at)) pbt_fail("%s: after the chunk of %zu characters up to %zu there are %zu bytes, must be %zu", what, c, at, got, BYTES(at));
			if (!ok) break;
		}
		if (memcmp(mo, md, got)) pbt_fail("%s: wrong byte at %zu", what, first_diff(mo, md, got));
		pbt_hit(case_hash(83, ci, &n, sizeof n) ^ pbt_mix(bad) ^ h ^ pbt_hash(kind, edits, sizeof *edits * nedits));
	}
	if (bad != SIZE_MAX) mt[bad] = was;
	mid_untext();
	pbt_class("len 1M-64M"); pbt_class(bad != SIZE_MAX ? "malformed" : "well-formed");
	if (pbt_want_sample()) pbt_sample("%s, %d bytes of the pattern changed", what, nedits);
}
static void p_dec_mid (void) { mid_decode(false); }
static void p_sdec_mid (void) { mid_decode(true); }

static void p_senc_mid (void)
{
	int ci = gen_codec();
	size_t n = mid_data(), at = 0, got = 0, ol, calls = 0;
	char what[150];
	struct base64_state st;
	uint64_t h = 0;
	base64_stream_encode_init(&st, codecs[ci].flag);
	while (at < n) {
		size_t c = pbt_chance(1, 3) ? pbt_draw(100) : pbt_chance(1, 2) ? pbt_draw(n - at) : near((size_t)1 << (10 + pbt_draw(17)));
		if (c > n - at || calls > 12) c = n - at;
		sprintf(what, "stream encode (%s, %zu bytes, %zu at %zu)", codecs[ci].name, n, c, at);
		pbt_note("%s", what);
		ol = 5;
		base64_stream_encode(&st, (char *)md + at, c, (char *)mo + got, &ol);
		pbt_eval(1);
		at += c; got += ol; calls++; h = pbt_mix(h ^ c);
		if (got != ref_enc_emitted(at)) pbt_fail("%s: %zu characters so far, must be %zu", what, got, ref_enc_emitted(at));
	}
	ol = 5;
	base64_stream_encode_final(&st, (char *)mo + got, &ol);
	if (got + ol != ref_enclen(n)) pbt_fail("%s: %zu characters in the end, must be %zu", what, got + ol, ref_enclen(n));
	mid_text_is(mo, n, what);
	pbt_class("len 1M-64M");
	pbt_hit(case_hash(84, ci, &n, sizeof n) ^ h ^ pbt_hash(1, edits, sizeof *edits * nedits));
	if (pbt_want_sample()) pbt_sample("%s in %zu chunks, %d bytes of the pattern changed", what, calls, nedits);
}

const struct pbt_prop pbt_props[] = {
	{ "enc_rand", p_enc_rand }, { "enc_len", p_enc_len }, { "enc_triple", p_enc_triple },
	{ "rt_rand", p_rt_rand }, { "rt_len", p_rt_len },
	{ "dec_rand", p_dec_rand }, { "dec_len", p_dec_len }, { "dec_quad", p_dec_quad }, { "dec_bad", p_dec_bad }, { "dec_pair", p_dec_pair },
	{ "senc_rand", p_senc_rand }, { "senc_cut", p_senc_cut },
	{ "sdec_rand", p_sdec_rand }, { "sdec_cut", p_sdec_cut }, { "sdec_exh", p_sdec_exh },
	{ "sticky", p_sticky }, { "sticky_exh", p_sticky_exh },
	{ "mem_one", p_mem_one }, { "mem_len", p_mem_len }, { "mem_stream", p_mem_stream },
	{ "enc_mid", p_enc_mid }, { "rt_mid", p_rt_mid }, { "dec_mid", p_dec_mid }, { "senc_mid", p_senc_mid }, { "sdec_mid", p_sdec_mid },
	{ NULL, NULL },
};

// C11: one build: every codec flag, built in or not, one-shot and streaming.
#include "common.h"

static struct gbuf gs, go;
static unsigned char data[1 << 17], want[1 << 18];

void pbt_setup (void)
{
	common_setup();
	gbuf_init(&gs, 1 << 18); gbuf_init(&go, 1 << 19);
}

static unsigned char *src_of (size_t n)
{
	unsigned a = (unsigned)pbt_draw(32);
	unsigned char *s = gbuf_place(&gs, n, P_MID, a, (unsigned char)pbt_draw(4));
	memcpy(s, data, n);
	return s;
}
static unsigned char *out_of (size_t n)
{
	unsigned char *o = gbuf_place(&go, n, P_MID, (unsigned)pbt_draw(32), 1);
	memset(o, 0xE7, n);
	return o;
}
static void untouched (const unsigned char *o, size_t n, const char *what, int ci)
{
	for (size_t i = 0; i < n; i++) if (o[i] != 0xE7) pbt_fail("%s with the absent codec %s wrote to its output", what, codecs[ci].name);
	if (gbuf_check(&go)) pbt_fail("%s with the absent codec %s wrote around its output", what, codecs[ci].name);
}

static void p_conf (void)
{
	int ci = (int)pbt_draw(10);
	if (codecs[ci].cannot) ci = 0;
	bool here = codecs[ci].built;
	const char *cn = codecs[ci].name;
	unsigned op = (unsigned)pbt_draw(4);
	size_t ol = 4711, w = 0, n;
	int flag = codecs[ci].flag;
	struct base64_state st;
	pbt_class(here ? (ci ? "built-in codec" : "default codec") : "absent codec");
	if (op == 0) {
		n = gen_len(31000); gen_bytes(data, n);
		unsigned char *s = src_of(n), *o = out_of(ref_enclen(n) + 64);
		pbt_note("base64_encode codec=%s (%s) len=%zu %s", cn, here ? "built" : "absent", n, pbt_hex(data, n));
		base64_encode((char *)s, n, (char *)o, &ol, flag);
		w = here ? ref_encode(data, n, (char *)want) : 0;
		if (ol != w) pbt_fail("base64_encode (%s, %s): outlen is %zu, must be %zu", cn, here ? "built" : "absent", ol, w);
		if (here && memcmp(o, want, w)) pbt_fail("base64_encode (%s): wrong text", cn);
		if (!here) untouched(o, ref_enclen(n) + 64, "base64_encode", ci);
	} else if (op == 1) {
		n = gen_text(data, 31000);
		if (pbt_chance(1, 3)) n = gen_mutate(data, n, 30000);
		unsigned char *s = src_of(n), *o = out_of(n + 64);
		bool ok = ref_decode(data, n, want, &w);
		pbt_note("base64_decode codec=%s (%s) len=%zu %s", cn, here ? "built" : "absent", n, pbt_hex(data, n));
		int r = base64_decode((char *)s, n, (char *)o, &ol, flag);
		int wr = here ? ok : -1;
		if (r != wr) pbt_fail("base64_decode (%s, %s) returns %d, must be %d", cn, here ? "built" : "absent", r, wr);
		if (here && ok && (ol != w || memcmp(o, want, w))) pbt_fail("base64_decode (%s): wrong result, outlen %zu", cn, ol);
		if (!here) {
			if (ol != 0) pbt_fail("base64_decode with the absent codec %s: outlen is %zu, must be 0", cn, ol);
			untouched(o, n + 64, "base64_decode", ci);
		}
	} else if (op == 2) {
		n = gen_len(3000); gen_bytes(data, n);
		w = ref_encode(data, n, (char *)want);
		base64_stream_encode_init(&st, flag);
		size_t done = 0, got = 0;
		unsigned parts = 1 + (unsigned)pbt_draw(4);
		while (parts--) {
			size_t c = parts ? pbt_draw(n - done + 1) : n - done;
			memmove(gbuf_place(&gs, c, P_MID, 0, 0), data + done, c);
			unsigned char *o = out_of(ref_enclen(c) + 64);
			pbt_note("base64_stream_encode codec=%s (%s) chunk %zu at %zu of %zu", cn, here ? "built" : "absent", c, done, n);
			ol = 4711;
			base64_stream_encode(&st, (char *)gs.p, c, (char *)o, &ol);
			size_t x = here ? ref_enc_emitted(done + c) - ref_enc_emitted(done) : 0;
			if (ol != x) pbt_fail("base64_stream_encode (%s, %s): outlen is %zu, must be %zu", cn, here ? "built" : "absent", ol, x);
			if (here && memcmp(o, want + got, x)) pbt_fail("base64_stream_encode (%s): wrong text", cn);
			if (!here) untouched(o, ref_enclen(c) + 64, "base64_stream_encode", ci);
			got += x; done += c;
		}
		unsigned char *o = out_of(64);
		ol = 4711;
		base64_stream_encode_final(&st, (char *)o, &ol);
		size_t x = here ? w - got : 0;
		if (ol != x || (here && memcmp(o, want + got, x))) pbt_fail("base64_stream_encode_final (%s, %s): outlen is %zu, must be %zu", cn, here ? "built" : "absent", ol, x);
		if (!here) untouched(o, 64, "base64_stream_encode_final", ci);
	} else {
		n = gen_text(data, 3000);
		if (pbt_chance(1, 3)) n = gen_mutate(data, n, 4000);
		struct ref_dec m; ref_dec_init(&m);
		base64_stream_decode_init(&st, flag);
		size_t done = 0;
		unsigned parts = 1 + (unsigned)pbt_draw(4);
		while (parts--) {
			size_t c = parts ? pbt_draw(n - done + 1) : n - done;
			memmove(gbuf_place(&gs, c, P_MID, 0, 0), data + done, c);
			unsigned char *o = out_of(c + 64);
			pbt_note("base64_stream_decode codec=%s (%s) chunk %s at %zu", cn, here ? "built" : "absent", pbt_hex(data + done, c), done);
			ol = 4711;
			int r = base64_stream_decode(&st, (char *)gs.p, c, (char *)o, &ol);
			if (!here) {
				if (r != -1) pbt_fail("base64_stream_decode with the absent codec %s returns %d, must be -1", cn, r);
				if (ol != 0) pbt_fail("base64_stream_decode with the absent codec %s: outlen is %zu, must be 0", cn, ol);
				untouched(o, c + 64, "base64_stream_decode", ci);
			} else {
				bool was = m.failed || m.ended;
				size_t used = ref_dec_feed(&m, data + done, c, want, &w);
				if (r == -1) pbt_fail("base64_stream_decode (%s) returns -1, but the codec is in the build", cn);
				if (!(c == 0 && was) && r != (used == c)) pbt_fail("base64_stream_decode (%s) returns %d, must be %d", cn, r, used == c);
				if (ol != w || memcmp(o, want, w)) pbt_fail("base64_stream_decode (%s): wrong bytes or outlen %zu, must be %zu", cn, ol, w);
				if (m.failed || m.ended) break;
			}
			done += c;
		}
	}
	pbt_eval(1);
	if (n >= 1) pbt_hit(pbt_hash(ci * 16 + op, data, n) ^ pbt_mix(pbt_param_u("config", 0)));
	if (pbt_want_sample() && n > 0 && n < 60) pbt_sample("config %s op %u codec=%s (%s) len=%zu %s", pbt_param("config", "?"), op, cn, here ? "built" : "absent", n, pbt_hex(data, n));
}

const struct pbt_prop pbt_props[] = { { "conf", p_conf }, { NULL, NULL } };

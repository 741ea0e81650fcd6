// C08, C13: histories over a pool of streams and one-shot calls.
#include "common.h"
#include <stdarg.h>

#define SLOTS 6
#define CAP 6000
struct slot {
	struct base64_state st;
	int kind;		// 0 none, 1 encoder, 2 decoder
	int ci;			// codec it was initialised with
	size_t n;
	unsigned char data[CAP];
	struct ref_dec m;
};
static struct slot slots[SLOTS];
static struct gbuf gs, go;
static unsigned char buf[1 << 18], want[1 << 18];
static bool transcript;
static FILE *script_in, *script_out, *script_idx;	// for harness/mini

void pbt_setup (void)
{
	common_setup();
	gbuf_init(&gs, 1 << 18); gbuf_init(&go, 1 << 19);
	const char *sc = pbt_param("script", NULL);
	if (sc) {
		char b[4200];
		snprintf(b, sizeof b, "%s.in", sc); script_in = fopen(b, "wb");
		snprintf(b, sizeof b, "%s.out", sc); script_out = fopen(b, "wb");
		snprintf(b, sizeof b, "%s.idx", sc); script_idx = fopen(b, "w");
		if (!script_in || !script_out || !script_idx) { perror(b); exit(98); }
	}
}

static void put32 (FILE *f, uint32_t v) { for (int i = 0; i < 4; i++) fputc((int)(v >> (8 * i) & 255), f); }
static void script (int op, int slot, int arg, const unsigned char *in, size_t n, int r, const unsigned char *o, size_t ol)
{
	if (!script_in) return;
	if (ol > 1 << 17) ol = 0;	// nonsense
	fputc(op, script_in); fputc(slot, script_in);
	put32(script_in, (uint32_t)arg); put32(script_in, (uint32_t)n);
	if (n) fwrite(in, 1, n, script_in);
	put32(script_out, (uint32_t)r); put32(script_out, (uint32_t)ol);
	if (ol) fwrite(o, 1, ol, script_out);
}

static char hist[3000]; static size_t hlen;
static void say (const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (hlen > sizeof hist - 200) { memmove(hist, hist + 1000, hlen - 1000); hlen -= 1000; memcpy(hist, "...", 3); }
	hlen += (size_t)vsnprintf(hist + hlen, sizeof hist - hlen, fmt, ap);
	va_end(ap);
	pbt_note("%s", hist);
}

// In a transcript the same draws must be made on every platform, and every codec must exist.
static int any_codec (void)
{
	unsigned k = (unsigned)pbt_draw(24);
	if (k < 8) return 0;
	if (transcript) return script_in ? 0 : avail[k % (unsigned)navail];
	k = 1 + (k - 8) % 9;		// built or not
	return codecs[k].cannot ? 0 : (int)k;
}

static void dig (int ret, const unsigned char *o, size_t n)
{
	pbt_digest_u((uint64_t)(int64_t)ret);
	pbt_digest_u(n);
	pbt_digest(o, n < 1 << 18 ? n : 0);
}

static unsigned char *place_src (const unsigned char *p, size_t n)
{
	unsigned a = (unsigned)pbt_draw(32);
	unsigned char *s = gbuf_place(&gs, n, P_MID, a, (unsigned char)pbt_draw(4));
	memcpy(s, p, n);
	return s;
}

static size_t small_len (void)
{
	switch (pbt_draw(4)) {
	case 0: return pbt_draw(5);
	case 1: return pbt_draw(70);
	case 2: return pbt_draw(400);
	default: return pbt_draw(2000);
	}
}

static void op_init (int i)
{
	struct slot *s = &slots[i];
	int kind = 1 + (int)pbt_draw(2);
	s->ci = any_codec();
	s->kind = kind;
	s->n = 0;
	ref_dec_init(&s->m);
	if (pbt_chance(1, 2)) memset(&s->st, (int)pbt_draw(256), sizeof s->st);
	say("init%s(s%d,%s); ", kind == 1 ? "E" : "D", i, codecs[s->ci].name);
	script(kind == 1 ? 'e' : 'd', i, codecs[s->ci].flag, NULL, 0, 1, NULL, 0);
	if (kind == 1) base64_stream_encode_init(&s->st, codecs[s->ci].flag);
	else base64_stream_decode_init(&s->st, codecs[s->ci].flag);
}

static void op_feed (int i)
{
	struct slot *s = &slots[i];
	size_t c = small_len(), ol = 77777;
	if (s->kind == 1) {
		if (c > CAP - s->n) c = CAP - s->n;
		gen_bytes(s->data + s->n, c);
		unsigned char *src = place_src(s->data + s->n, c);
		unsigned char *o = gbuf_place(&go, ref_enclen(c) + 256, P_MID, (unsigned)pbt_draw(32), 1);
		say("enc(s%d,%zu); ", i, c);
		base64_stream_encode(&s->st, (char *)src, c, (char *)o, &ol);
		pbt_eval(1);
		script('E', i, 0, s->data + s->n, c, 1, o, ol);
		if (transcript) dig(1, o, ol);
		else if (codecs[s->ci].built) {
			size_t base = s->n / 3 * 3, skip = ref_enc_emitted(s->n - base);
			size_t w = ref_enc_emitted(s->n + c) - ref_enc_emitted(s->n);
			ref_encode(s->data + base, s->n + c - base, (char *)want);
			if (ol != w) pbt_fail("encoder s%d (%s): chunk of %zu bytes at %zu gives %zu characters, must be %zu", i, codecs[s->ci].name, c, s->n, ol, w);
			if (memcmp(o, want + skip, w)) pbt_fail("encoder s%d (%s): chunk of %zu bytes at %zu: wrong text", i, codecs[s->ci].name, c, s->n);
		}
		s->n += c;
	} else {
		// mostly well-formed, in odd pieces
		for (size_t k = 0; k < c; k += 61) {
			uint64_t z = pbt_draw(UINT64_MAX);
			for (size_t j = k; j < c && j < k + 61; j++) { buf[j] = (unsigned char)ref_alpha[z & 63]; z = pbt_mix(z); }
		}
		if (pbt_chance(1, 8) && c) buf[c - 1] = '=';
		if (pbt_chance(1, 12) && c) { size_t k = pbt_draw(c); buf[k] = gen_badbyte(); }
		unsigned char *src = place_src(buf, c);
		unsigned char *o = gbuf_place(&go, c + 256, P_MID, (unsigned)pbt_draw(32), 1);
		say("dec(s%d,%s); ", i, c < 12 ? pbt_hex(buf, c) : "...");
		int r = base64_stream_decode(&s->st, (char *)src, c, (char *)o, &ol);
		pbt_eval(1);
		if (codecs[s->ci].built) {
			size_t w, used;
			bool was = s->m.failed || s->m.ended;
			used = ref_dec_feed(&s->m, buf, c, want, &w);
			if (transcript) {
				if (!(c == 0 && was)) { dig(r, o, ol); script('D', i, 0, buf, c, r, o, ol); }
			} else {
			if (!(c == 0 && was) && r != (used == c)) pbt_fail("decoder s%d (%s): chunk of %zu returns %d, must be %d", i, codecs[s->ci].name, c, r, used == c);
			if (ol != w) pbt_fail("decoder s%d (%s): chunk of %zu gives %zu bytes, must be %zu", i, codecs[s->ci].name, c, ol, w);
			if (memcmp(o, want, w)) pbt_fail("decoder s%d (%s): chunk of %zu: wrong bytes", i, codecs[s->ci].name, c);
			}
			if (s->m.failed || s->m.ended) s->kind = 0;	// what follows is property C06
		}
	}
}

static void op_final (int i)
{
	struct slot *s = &slots[i];
	size_t ol = 77777;
	unsigned char *o = gbuf_place(&go, 256, P_MID, (unsigned)pbt_draw(32), 1);
	say("fin(s%d); ", i);
	base64_stream_encode_final(&s->st, (char *)o, &ol);
	pbt_eval(1);
	script('F', i, 0, NULL, 0, 1, o, ol);
	if (transcript) dig(1, o, ol);
	else if (codecs[s->ci].built) {
		size_t w = ref_enclen(s->n) - ref_enc_emitted(s->n);
		size_t base = s->n / 3 * 3;
		ref_encode(s->data + base, s->n - base, (char *)want);
		size_t k = s->n % 3 ? s->n % 3 : 0;
		if (ol != w || memcmp(o, want + k, w)) pbt_fail("encoder s%d (%s): final after %zu bytes gives %s, must be %s", i, codecs[s->ci].name, s->n, pbt_hex(o, ol), pbt_hex(want + k, w));
	}
	s->kind = 0;
}

static void op_oneshot (void)
{
	int ci = any_codec();
	bool enc = pbt_chance(1, 2);
	size_t n = pbt_chance(1, 10) ? gen_len(59000) : small_len(), ol = 77777, w;
	if (enc) {
		gen_bytes(buf, n);
		unsigned char *src = place_src(buf, n), *o = gbuf_place(&go, ref_enclen(n) + 256, P_MID, (unsigned)pbt_draw(32), 1);
		say("encode(%s,%zu); ", codecs[ci].name, n);
		base64_encode((char *)src, n, (char *)o, &ol, codecs[ci].flag);
		pbt_eval(1);
		script('1', 0, codecs[ci].flag, buf, n, 1, o, ol);
		if (transcript) { dig(1, o, ol); return; }
		if (!codecs[ci].built) return;
		w = ref_encode(buf, n, (char *)want);
		if (ol != w || memcmp(o, want, w)) pbt_fail("base64_encode(%s) of %zu bytes %s: outlen %zu, wrong result", codecs[ci].name, n, pbt_hex(buf, n), ol);
		dig(1, o, ol);
	} else {
		static unsigned char t[60000];
		n = n * 3 / 4;
		if (n > sizeof t) n = sizeof t;
		gen_bytes(t, n);
		n = ref_encode(t, n, (char *)buf);
		if (pbt_chance(1, 4)) n = gen_mutate(buf, n, sizeof buf);
		unsigned char *src = place_src(buf, n), *o = gbuf_place(&go, n + 256, P_MID, (unsigned)pbt_draw(32), 1);
		say("decode(%s,%zu); ", codecs[ci].name, n);
		int r = base64_decode((char *)src, n, (char *)o, &ol, codecs[ci].flag);
		pbt_eval(1);
		script('2', 0, codecs[ci].flag, buf, n, r, o, r == 1 ? ol : 0);
		if (transcript) { dig(r, o, r == 1 ? ol : 0); return; }
		if (!codecs[ci].built) return;
		bool ok = ref_decode(buf, n, want, &w);
		if (r != ok) pbt_fail("base64_decode(%s) of %s returns %d, must be %d", codecs[ci].name, pbt_hex(buf, n), r, ok);
		if (ok && (ol != w || memcmp(o, want, w))) pbt_fail("base64_decode(%s) of %s: wrong result, outlen %zu", codecs[ci].name, pbt_hex(buf, n), ol);
	}
}

static void op_copy (int i, int j)
{
	say("s%d=s%d; ", j, i);
	script('c', i, j, NULL, 0, 1, NULL, 0);
	if (i != j) memcpy(&slots[j], &slots[i], sizeof slots[j]);
}

static void run_history (void)
{
	if (script_idx) fprintf(script_idx, "%llu %ld\n", (unsigned long long)pbt_index(), ftell(script_out));
	memset(slots, 0, sizeof slots);
	hlen = 0; hist[0] = 0;
	unsigned nslots = 1 + (unsigned)pbt_draw(SLOTS);
	unsigned nops = 2 + (unsigned)pbt_draw(60), live_max = 0, switches = 0, copies = 0, absent = 0, reinit = 0;
	int last = -1;
	uint64_t h = nslots;
	for (unsigned k = 0; k < nops; k++) {
		int i = (int)pbt_draw(nslots);
		unsigned op = (unsigned)pbt_draw(12);
		h = pbt_mix(h ^ op ^ (uint64_t)i << 8);
		if (slots[i].kind == 0 && op < 9) op = 9;
		if (op < 7) op_feed(i);
		else if (op < 9) { if (slots[i].kind == 1) op_final(i); else op_feed(i); }
		else if (op == 9) { if (slots[i].kind) reinit++; op_init(i); }
		else if (op == 10) op_oneshot();
		else { op_copy(i, (int)pbt_draw(nslots)); copies++; }
		if (op < 10 && i != last) { switches++; last = i; }
		if (slots[i].kind && !codecs[slots[i].ci].built) absent++;
		unsigned live = 0;
		for (unsigned j = 0; j < nslots; j++) live += slots[j].kind != 0;
		if (live > live_max) live_max = live;
		h = pbt_mix(h ^ slots[i].n ^ (uint64_t)slots[i].ci << 20);
	}
	if (live_max >= 2 && switches >= 3) { pbt_hit(h); pbt_class("interleaved streams"); }
	if (copies) pbt_class("with copied states");
	if (reinit) pbt_class("with re-initialised live states");
	if (absent) pbt_class("with absent codecs");
	if (pbt_want_sample() && live_max >= 2 && nops < 20) pbt_sample("%s", hist);
}

static void p_hist (void) { transcript = false; run_history(); }
static void p_transcript (void) { transcript = true; run_history(); }

const struct pbt_prop pbt_props[] = { { "hist", p_hist }, { "transcript", p_transcript }, { NULL, NULL } };

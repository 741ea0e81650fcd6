// C26: what a call costs, in instructions, counted with the trap flag.
#define _GNU_SOURCE
#include "common.h"
#include "step.h"

#define CAP (1u << 20)
static unsigned char *unit, *data, *text, *out;
void pbt_setup (void)
{
	common_setup();
	step_setup();
	unit = malloc(CAP); data = malloc(CAP); text = malloc(CAP * 2); out = malloc(CAP * 2);
	if (!unit || !data || !text || !out) abort();
	size_t n;
	base64_encode("abc", 3, (char *)out, &n, 0);	// the first use is not counted
}

// Four times the data may cost four times as much, and a half more.
static void p_linear (void)
{
	int op = (int)pbt_draw(4), c = gen_codec(), flag = codecs[c].flag;
	size_t n = 384 + pbt_draw(c == 1 || pbt_chance(7, 8) ? 700 : 8000);
	n -= n % 48;
	gen_bytes(unit, n);
	bool dec = op == DEC || op == SDEC;
	for (int i = 0; i < 4; i++) memcpy(data + i * n, unit, n);
	size_t tn = n;
	if (dec) tn = ref_encode(data, n, (char *)text) ;
	const unsigned char *in = dec ? text : data;
	if (dec) ref_encode(data, 4 * n, (char *)text);
	// damage near the end: what comes before is the same work
	size_t l1 = tn, l4 = 4 * tn, cut = pbt_draw(4);
	bool damaged = dec && pbt_chance(1, 4);
	unsigned pre = op >= SENC ? (unsigned)pbt_draw(4) : 0;
	struct base64_state st;
	uint64_t s[2];
	pbt_note("%s, codec %s, %zu and %zu bytes%s, after %u", opname[op], codecs[c].name, l1, l4, damaged ? ", damaged at the end" : "", pre);
	for (int k = 0; k < 2; k++) {
		size_t l = k ? l4 : l1, ol;
		unsigned char keep = 0;
		budget = k ? s[0] * 6 + 600 : 400000;
		if (damaged) { keep = text[l - 1 - cut]; text[l - 1 - cut] = '!'; }
		if (op == SENC) { base64_stream_encode_init(&st, flag); base64_stream_encode(&st, (const char *)data, pre, (char *)out, &ol); }
		if (op == SDEC) { base64_stream_decode_init(&st, flag); base64_stream_decode(&st, "AAAA", pre, (char *)out, &ol); }
		s[k] = cost(op, flag, in, l, out, &st);
		if (damaged) text[l - 1 - cut] = keep;
		pbt_eval(1);
	}
	if (s[0] >= 400000) pbt_fail("%zu bytes take 400000 instructions and more", l1);
	if (s[1] >= s[0] * 6 + 600) pbt_fail("%zu bytes take %llu instructions, %zu bytes %llu or more", l1, (unsigned long long)s[0], l4, (unsigned long long)s[1]);
	pbt_class(opname[op]); pbt_class(codecs[c].name);
	pbt_hit(pbt_mix(l1 * 64 + (uint64_t)op * 16 + (uint64_t)c) ^ pre ^ (uint64_t)damaged << 8);
	pbt_sample("%s, codec %s: %zu bytes %llu instructions, %zu bytes %llu", opname[op], codecs[c].name, l1, (unsigned long long)s[0], l4, (unsigned long long)s[1]);
}

// A chunk costs the same whatever the stream has been through.
static void p_history (void)
{
	int op = SENC + (int)pbt_draw(2), c = gen_codec(), flag = codecs[c].flag;
	size_t n = pbt_draw(pbt_chance(1, 2) ? 8 : 600);	// the chunk
	unsigned phase = (unsigned)pbt_draw(op == SENC ? 3 : 4);
	unsigned nch = 1 + (unsigned)pbt_draw(pbt_chance(1, 3) ? 3000 : 100);
	size_t clen = 1 + pbt_draw(pbt_chance(1, 2) ? 5 : 400);
	size_t total = (size_t)nch * clen;
	if (total > CAP / 2) { nch = (unsigned)(CAP / 2 / clen); total = (size_t)nch * clen; }
	gen_bytes(data, total + n + 8);
	if (op == SDEC) for (size_t i = 0; i < total + n + 8; i++) data[i] = (unsigned char)ref_alpha[data[i] & 63];
	struct base64_state a, b;
	size_t ol, t = 0;
	unsigned mod = op == SENC ? 3 : 4;
	pbt_note("%s, codec %s: chunk of %zu bytes after %u chunks of %zu bytes, phase %u", opname[op], codecs[c].name, n, nch, clen, phase);
	if (op == SENC) { base64_stream_encode_init(&a, flag); base64_stream_encode_init(&b, flag); }
	else { base64_stream_decode_init(&a, flag); base64_stream_decode_init(&b, flag); }
	#define FEED(st, p, k) do { if (op == SENC) base64_stream_encode(st, (const char *)(p), k, (char *)out, &ol); else base64_stream_decode(st, (const char *)(p), k, (char *)out, &ol); } while (0)
	FEED(&a, data, phase);
	for (unsigned i = 0; i < nch; i++, t += clen) FEED(&b, data + t, clen);
	size_t rest = (phase + mod - total % mod) % mod;	// to the same phase
	FEED(&b, data + t, rest);
	const unsigned char *chunk = data + total + 4;
	budget = 400000;
	uint64_t sa = cost(op, flag, chunk, n, out, &a), sb;
	if (sa >= budget) pbt_fail("%zu bytes take 400000 instructions and more", n);
	budget = sa * 3 / 2 + 300;
	sb = cost(op, flag, chunk, n, out, &b);
	pbt_eval(2);
	if (sb >= budget) pbt_fail("a chunk of %zu bytes takes %llu instructions at the start of a stream, and %llu or more after %zu bytes", n, (unsigned long long)sa, (unsigned long long)sb, total);
	pbt_class("a chunk after others");
	if (total >= 100) pbt_hit(pbt_mix(n * 64 + (uint64_t)op * 16 + (uint64_t)c) ^ pbt_mix(total * 4 + phase));
	pbt_sample("%s, codec %s: a chunk of %zu bytes, %llu instructions in a new stream, %llu after %u chunks of %zu", opname[op], codecs[c].name, n, (unsigned long long)sa, (unsigned long long)sb, nch, clen);
}

const struct pbt_prop pbt_props[] = { { "linear", p_linear }, { "history", p_history }, { NULL, NULL } };

// C29: every codec gives its acceleration to every input, counted in instructions.
#define _GNU_SOURCE
#include "common.h"
#include "step.h"

#ifdef _OPENMP
#include <omp.h>
#endif

#define CAP (1u << 20)
static unsigned char *data, *text, *out, *ref, *raw;
static double plain[2];	// instructions per byte of input of the plain codec: encoding, decoding
static unsigned tail;	// instructions for what remains, and for getting there

// At most this part of what the plain codec takes.
static double part (int c, bool dec)
{
	const char *n = codecs[c].name;
	if (!strcmp(n, "avx512")) return dec ? .8 : .35;
	if (!strcmp(n, "avx2")) return dec ? .8 : .8;
	if (!strcmp(n, "avx")) return dec ? 1.4 : 1.1;
	if (!strcmp(n, "plain")) return 1.3;
	return dec ? 1.5 : 1.2;
}

// What the default codec has to match: the best there is.
static double part_of (int c, bool dec)
{
	if (c) return part(c, dec);
	double best = 10;
	for (int i = 0; i < navail; i++) if (avail[i]) { double p = part(avail[i], dec); if (p < best) best = p; }
	return best;
}

void pbt_setup (void)
{
	common_setup();
	step_setup();
	data = malloc(CAP); text = malloc(CAP * 2); out = malloc(CAP * 2); ref = malloc(CAP * 2); raw = malloc(CAP);
	if (!data || !text || !out || !ref || !raw) abort();
	size_t n;
	base64_encode("abc", 3, (char *)out, &n, 0);	// the first use is not counted
	for (size_t i = 0; i < 6144; i++) raw[i] = (unsigned char)(i * 2654435761u >> 13);
	ref_encode(raw, 4608, (char *)text);
	budget = 1000000;
	struct base64_state st;
	for (int op = ENC; op <= DEC; op++) {
		const unsigned char *in = op == DEC ? text : raw;
		uint64_t a = cost(op, BASE64_FORCE_PLAIN, in, 3072, out, &st), b = cost(op, BASE64_FORCE_PLAIN, in, 6144, out, &st);
		plain[op] = (double)(b - a) / 3072;
	}
	tail = sizeof (void *) == 8 ? 2500 : 3200;
}

// The plain codec takes words, not bytes.
static void p_words (void)
{
	bool dec = pbt_draw(2);
	double limit = sizeof (void *) == 8 ? 10 : 12;
	pbt_note("plain codec, %s", dec ? "decoding" : "encoding");
	pbt_eval(1);
	if (plain[dec] > limit) pbt_fail("the plain codec takes %.1f instructions per byte, more than %.0f", plain[dec], limit);
	pbt_class(dec ? "plain decoding" : "plain encoding");
	pbt_hit(dec);
	pbt_sample("%s with the plain codec: %.2f instructions per byte", dec ? "decoding" : "encoding", plain[dec]);
}

static void p_rate (void)
{
	int op = (int)pbt_draw(4), c = gen_codec(), flag = codecs[c].flag;
	bool dec = op == DEC || op == SDEC;
	double rate = part_of(c, dec) * plain[dec];
	size_t most = (size_t)((pbt_chance(15, 16) ? 9000 : pbt_chance(7, 8) ? 60000 : 400000) / rate);
	if (most > 600000) most = 600000;
	size_t n = pbt_chance(1, 4) ? near((size_t)64 << pbt_draw(10)) : pbt_chance(1, 2) ? 150 + pbt_draw(1500) : 150 + pbt_draw(most);
	if (n > most) n = most;
	unsigned ia = (unsigned)pbt_draw(64), oa = (unsigned)pbt_draw(64);
	unsigned char *in = data + ia;
	gen_bytes(raw, n);
	if (dec) {
		n -= n % 4;
		ref_encode(raw, n / 4 * 3, (char *)ref);
		memcpy(in, ref, n);
	} else
		memcpy(in, raw, n);
	// the stream before it
	struct base64_state st;
	size_t ol, before = 0;
	unsigned nch = op >= SENC ? (unsigned)pbt_draw(4) : 0;
	if (op == SENC) base64_stream_encode_init(&st, flag);
	if (op == SDEC) base64_stream_decode_init(&st, flag);
	for (unsigned i = 0; i < nch; i++) {
		size_t k = pbt_draw(pbt_chance(1, 2) ? 4 : 300);
		if (op == SENC) base64_stream_encode(&st, (const char *)raw, k, (char *)out, &ol);
		else {
			for (size_t j = 0; j < k; j++) text[j] = (unsigned char)ref_alpha[(before + j) * 7 & 63];
			base64_stream_decode(&st, (const char *)text, k, (char *)out, &ol);
		}
		before += k;
	}
	size_t valid = n;
	if (dec && n && pbt_chance(1, 3)) {
		valid = pbt_draw(n);
		in[valid] = pbt_chance(1, 2) ? '=' : '!';
		if (in[valid] == '=') in[valid + 1 < n ? valid + 1 : valid] = '*';
	}
	uint64_t bound = (uint64_t)(rate * (double)valid) + tail;
#ifdef _OPENMP
	omp_set_num_threads(1);	// a thread must not start while this one is single-stepped
	bound += 3000;
#endif
	pbt_note("%s, codec %s: %zu bytes (%zu of them valid) after %zu in %u chunks, source %u and output %u bytes after a boundary of 64",
		opname[op], codecs[c].name, n, valid, before, nch, (unsigned)((uintptr_t)in & 63), (unsigned)((uintptr_t)(out + oa) & 63));
	budget = bound + 1;
	uint64_t got = cost(op, flag, in, n, out + oa, &st);
	pbt_eval(1);
	if (got > bound) pbt_fail("takes more than %llu instructions, the plain codec taking %.2f per byte", (unsigned long long)bound, plain[dec]);
	pbt_class(opname[op]); pbt_class(codecs[c].name);
	if (valid < n) pbt_class("damaged");
	// the bound excludes doing it byte by byte
	if (15.0 * (double)valid > 1.3 * (double)bound) pbt_hit(pbt_mix(valid * 64 + (uint64_t)op * 16 + (uint64_t)c) ^ pbt_mix(ia * 64 + oa) ^ before);
	pbt_sample("%s, codec %s: %zu bytes (%zu of them valid) after %zu: %llu instructions, at most %llu", opname[op], codecs[c].name, n, valid, before, (unsigned long long)got, (unsigned long long)bound);
}

// Instructions per byte, without beginning and end.
static double slope (bool dec, int flag, const unsigned char *in, size_t n)
{
	struct base64_state st;
	budget = 1000000;
	uint64_t a = cost(dec ? DEC : ENC, flag, in, n, out, &st), b = cost(dec ? DEC : ENC, flag, in, 2 * n, out, &st);
	return ((double)b - (double)a) / (double)n;
}

static int index_of (const char *name)
{
	for (int i = 0; i < navail; i++) if (!strcmp(codecs[avail[i]].name, name)) return avail[i];
	return -1;
}

// Wider vectors take fewer instructions; the default codec takes no more than any other.
static void p_ladder (void)
{
	bool dec = pbt_draw(2);
	size_t n = 1152 * (1 + pbt_draw(4)) ;
	unsigned ia = (unsigned)pbt_draw(64);
	unsigned char *in = data + ia;
	gen_bytes(raw, 2 * n);
	if (dec) { memset(text, 0, 2 * n + 4); ref_encode(raw, 2 * n / 4 * 3, (char *)text); memcpy(in, text, 2 * n); }
	else memcpy(in, raw, 2 * n);
#ifdef _OPENMP
	omp_set_num_threads(1);
#endif
	static const struct { const char *a, *b; double most; } rule[] = {
		{ "avx2", "ssse3", .85 }, { "avx2", "avx", .9 }, { "avx512", "avx", .9 }, { "avx512", "avx2", 1.3 },
		{ "default", "plain", 1.25 }, { "default", "ssse3", 1.25 }, { "default", "sse42", 1.25 }, { "default", "avx", 1.25 }, { "default", "avx2", 1.25 }, { "default", "avx512", 1.25 },
	};
	unsigned k = (unsigned)pbt_draw(sizeof rule / sizeof *rule);
	int a = index_of(rule[k].a), b = index_of(rule[k].b);
	if (a < 0 || b < 0) { k = 4; a = index_of("default"); b = index_of("plain"); }
	double sa = slope(dec, codecs[a].flag, in, n), sb = slope(dec, codecs[b].flag, in, n);
	pbt_note("%s, %zu and %zu bytes: codec %s %.2f instructions per byte, codec %s %.2f", opname[dec], n, 2 * n, codecs[a].name, sa, codecs[b].name, sb);
	pbt_eval(2);
	if (sa > sb * rule[k].most) pbt_fail("codec %s takes %.2f instructions per byte, more than %.2f times the %.2f of codec %s", codecs[a].name, sa, rule[k].most, sb, codecs[b].name);
	pbt_class("two codecs");
	if (strcmp(rule[k].b, "plain")) pbt_hit(pbt_mix(n * 64 + ia) ^ k ^ (uint64_t)dec << 8);
	pbt_sample("%s: codec %s %.2f instructions per byte, codec %s %.2f", opname[dec], codecs[a].name, sa, codecs[b].name, sb);
}

#ifdef _OPENMP
// With OpenMP, the calling thread does its share only.
static void p_share (void)
{
	int op = (int)pbt_draw(2), c = pbt_chance(1, 2) ? gen_codec() : 1, flag = codecs[c].flag, threads = 3 + (int)pbt_draw(6);
	double rate = part_of(c, op == DEC) * plain[op];
	size_t n = 60000 + pbt_draw(pbt_chance(3, 4) ? 60000 : 500000);
	size_t most = (size_t)(300000 * threads / rate);
	if (n > most) n = most;
	unsigned ia = (unsigned)pbt_draw(64), oa = (unsigned)pbt_draw(64);
	unsigned char *in = data + ia;
	gen_bytes(raw, 3000);
	for (size_t i = 3000; i < n; i++) raw[i] = raw[i - 3000];
	size_t ol;
	if (op == DEC) { n = ref_encode(raw, n / 4 * 3, (char *)text); memcpy(in, text, n); }
	else memcpy(in, raw, n);
	omp_set_num_threads(threads);
	struct base64_state st;
	pbt_note("%s, codec %s: %zu bytes, %d threads", opname[op], codecs[c].name, n, threads);
	// start the threads
	base64_encode((const char *)raw, 30000, (char *)out, &ol, flag);
	uint64_t bound = (uint64_t)(rate * (double)n / threads * 1.3) + tail + 9000;
	budget = bound + 1;
	uint64_t got = cost(op, flag, in, n, out + oa, &st);
	pbt_eval(1);
	if (got > bound) pbt_fail("one thread of %d takes more than %llu instructions, the plain codec taking %.2f per byte", threads, (unsigned long long)bound, plain[op]);
	pbt_class("shared among threads");
	// the bound excludes one thread doing it all
	double alone = plain[op] * (double)n * (c == 1 ? .7 : strstr(codecs[c].name, "avx512") && op == ENC ? .02 : .12);
	if (alone > 1.3 * (double)bound) pbt_hit(pbt_mix(n * 64 + (uint64_t)op * 16 + (uint64_t)c) ^ pbt_mix((uint64_t)threads));
	pbt_sample("%s, codec %s: %zu bytes, %d threads: %llu instructions by the calling thread, at most %llu", opname[op], codecs[c].name, n, threads, (unsigned long long)got, (unsigned long long)bound);
}
#endif

const struct pbt_prop pbt_props[] = { { "words", p_words }, { "rate", p_rate }, { "ladder", p_ladder },
#ifdef _OPENMP
	{ "share", p_share },
#endif
	{ NULL, NULL } };

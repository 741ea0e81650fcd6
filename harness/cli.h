// What the command-line tool must do, and generators of its inputs.
// Shared by cli.c (runs the real program) and clifault.c (runs it in-process with faults).
#ifndef CLI_H
#define CLI_H
#include "common.h"

#define MIB ((size_t)1 << 20)
#define BUFCAP (24 * MIB)
#define NOWRAP ((size_t)-1)	// option not given

struct spec {
	bool decode, ignore, nostrip;
	size_t wrap;		// NOWRAP: not given
};

static unsigned char *raw, *inp, *want, *got, *tmpb;
static size_t rawn, inpn, wantn, gotn;
static bool want_ok;		// the run must succeed

static void cli_buffers (void)
{
	unsigned char **b[] = { &raw, &inp, &want, &got, &tmpb };
	for (int i = 0; i < 5; i++) if (!(*b[i] = malloc(BUFCAP))) abort();
}

static bool is_b64 (unsigned char c) { return ref_value(c) >= 0 || c == '='; }

// The model of the tool: from inp[0..inpn) to want[0..wantn), want_ok.
static void model (const struct spec *s)
{
	wantn = 0;
	if (!s->decode) {
		size_t n = ref_encode(inp, inpn, (char *)tmpb), w = s->wrap == NOWRAP ? 76 : s->wrap;
		want_ok = true;
		if (w == 0) { memcpy(want, tmpb, n); wantn = n; return; }
		for (size_t i = 0; i < n; ) {
			size_t k = n - i < w ? n - i : w;
			memcpy(want + wantn, tmpb + i, k);
			wantn += k; i += k;
			want[wantn++] = '\n';
		}
		return;
	}
	struct ref_dec d;
	ref_dec_init(&d);
	for (size_t i = 0; i < inpn; i++) {
		unsigned char c = inp[i];
		if (s->ignore ? !is_b64(c) : !s->nostrip && c == '\n') continue;
		if (!ref_dec_char(&d, c, want, &wantn)) break;
	}
	want_ok = ref_dec_complete(&d);
}

static size_t around (size_t base)
{
	size_t d = pbt_draw(13);
	if (d & 1) return base + (d + 1) / 2;
	return base >= d / 2 ? base - d / 2 : base;
}

// Number of raw bytes; limits such as the internal buffers are hit on purpose.
static size_t gen_rawlen (size_t max)
{
	size_t n;
	switch (pbt_draw(20)) {
	case 0: case 1: case 2: case 3: case 4: n = pbt_draw(12); break;
	case 5: case 6: case 7: case 8: n = pbt_draw(200); break;
	case 9: case 10: case 11: case 12: case 13: n = gen_len(5000); break;
	case 14: case 15: n = 57 * pbt_draw(40) + pbt_draw(3); break;		// whole lines of 76
	case 16: n = 768 * (1 + pbt_draw(4)) * 19 + around(8) - 8; break;
	case 17: n = around(MIB * (1 + pbt_draw(2))); break;			// reads when encoding
	case 18: n = around(MIB / 4 * 3 * (1 + pbt_draw(3))); break;		// reads when decoding
	default: n = pbt_draw(5 * MIB / 2); break;
	}
	return n > max ? n % (max + 1) : n;
}

static size_t gen_wrap (size_t textlen, bool long32)
{
	size_t w;
	switch (pbt_draw(12)) {
	case 0: case 1: return NOWRAP;
	case 2: return 0;
	case 3: w = 1 + pbt_draw(8); break;
	case 4: w = 70 + pbt_draw(12); break;
	case 5: w = 1 + pbt_draw(200); break;
	case 6: w = textlen / (1 + pbt_draw(6)) + pbt_draw(3); break;
	case 7: w = textlen + pbt_draw(3) - 1; break;
	case 8: w = around((size_t)512 << pbt_draw(12)); break;
	case 9: w = around(MIB / 3 * 4); break;
	case 10: w = 4 * (1 + pbt_draw(300)); break;
	default: {
		static const unsigned long long big[] = { 0x7FFFFFFF, 0x7FFFFFFE, 1000000000, 0x80000000ULL, 0xFFFFFFFFULL, 0x100000000ULL, 0x100000001ULL, 0x7FFFFFFFFFFFFFFFULL, 0x7FFFFFFFFFFFFFFEULL };
		w = (size_t)big[pbt_draw(long32 ? 3 : 9)];
		break;
	}
	}
	if (w == NOWRAP) w = 0;
	if (long32 && w > 0x7FFFFFFF) w = 0x7FFFFFFF;
	// narrow lines of long texts cost much and show little
	if (w && w < 4 && textlen > 400000) w += 20;
	return w;
}

static uint64_t sm_ (uint64_t *s) { *s += 0x9E3779B97F4A7C15ULL; return pbt_mix(*s); }

// Inserts stuff (from fn) into the n bytes at src; result in dst.
static size_t insert_stuff (const unsigned char *src, size_t n, unsigned char *dst, size_t cap, unsigned char (*fn)(uint64_t r))
{
	uint64_t s = pbt_draw(UINT64_MAX);
	unsigned style = (unsigned)pbt_draw(7);
	size_t o = 0, w = 1, p1 = 0, p2 = 0;
	if (style == 1 || style == 6) w = 1 + pbt_draw(style == 6 ? 3 : 100);
	if (style == 2) w = 2 + pbt_draw(60);
	if (style == 3) { p1 = n ? pbt_draw(n + 1) : 0; p2 = n > 6 ? n - pbt_draw(6) : n; }
	if (style == 4) { p1 = around(MIB * (1 + pbt_draw(2))); p2 = around(MIB); }
	size_t lead = style == 5 ? pbt_draw(40) : pbt_draw(8) == 0 ? pbt_draw(3) : 0;
	if (style == 5 && pbt_chance(1, 6)) lead = around(MIB);		// a buffer with nothing but that
	#define STUFF(k) do { size_t k_ = (k); while (k_-- && o < cap) dst[o++] = fn(sm_(&s)); } while (0)
	STUFF(lead);
	for (size_t i = 0; i < n && o < cap; i++) {
		switch (style) {
		case 1: if (i && i % w == 0) STUFF(1); break;
		case 2: if (sm_(&s) % w == 0) STUFF(1 + sm_(&s) % 3); break;
		case 3: if (i == p1 || i == p2) STUFF(1 + sm_(&s) % 5); break;
		case 4: if (o == p1 || o == p2 || i == p1) STUFF(1 + sm_(&s) % 3); break;
		case 5: break;
		case 6: if (i % w == 0) STUFF(1 + (sm_(&s) & 1)); break;
		default: break;
		}
		dst[o++] = src[i];
	}
	if (style != 0 || (s & 1)) STUFF(pbt_draw(3));
	return o;
}

static unsigned char f_newline (uint64_t r) { (void)r; return '\n'; }
static unsigned char f_garbage (uint64_t r)
{
	static const unsigned char edge[] = { '\n', '\r', ' ', '"', '-', '_', '.', ',', '*', ':', '@', '[', '`', '{', 0, 0xFF, 0x7F, 0x80, 0xBD, '<', '>', '\'', 0x0A + 128 };
	unsigned char c = r & 1 ? (unsigned char)(r >> 8) : edge[(r >> 8) % sizeof edge];
	while (is_b64(c)) c += 64 + 7;
	return c;
}

static const char *spec_str (const struct spec *s)
{
	static char b[100];
	snprintf(b, sizeof b, "%s%s%s", s->decode ? "-d " : "", s->ignore ? "-i " : "", s->nostrip ? "-n " : "");
	if (s->wrap != NOWRAP) snprintf(b + strlen(b), 60, "-w %zu ", s->wrap);
	return b;
}

// Generators of inp for the different properties. They fill in the mode.
static void gen_encode (struct spec *s, size_t max)
{
	bool long32 = pbt_param_u("long32", 0);
	memset(s, 0, sizeof *s);
	inpn = gen_rawlen(max);
	s->wrap = gen_wrap(ref_enclen(inpn), long32);
	gen_bytes(inp, inpn);
}

static void gen_decode (struct spec *s, size_t max)	// well-formed
{
	memset(s, 0, sizeof *s);
	s->decode = true; s->wrap = NOWRAP;
	s->nostrip = pbt_chance(1, 6);
	rawn = gen_rawlen(max);
	gen_bytes(raw, rawn);
	size_t n = ref_encode(raw, rawn, (char *)got);
	if (s->nostrip && !pbt_chance(1, 3)) { memcpy(inp, got, n); inpn = n; }
	else inpn = insert_stuff(got, n, inp, BUFCAP, f_newline);
}

static void gen_malformed (struct spec *s, size_t max)	// may happen to be well-formed
{
	memset(s, 0, sizeof *s);
	s->decode = true; s->wrap = NOWRAP;
	s->nostrip = pbt_chance(1, 8);
	rawn = gen_rawlen(max);
	gen_bytes(raw, rawn);
	size_t n = ref_encode(raw, rawn, (char *)got);
	unsigned kind = (unsigned)pbt_draw(9);
	switch (kind) {
	case 0: case 1: n = n > 1 ? n - 1 - pbt_draw(n < 6 ? n : 6) : n; break;	// truncated
	case 2: n = pbt_draw(n + 1); break;
	case 3: if (n) got[pbt_draw(n)] = gen_badbyte(); break;
	case 4: if (n) { size_t p = around(MIB * (1 + pbt_draw(2))); got[p % n] = gen_badbyte(); } break;
	case 5: n = gen_mutate(got, n, BUFCAP / 4); break;
	case 6: got[n++] = pbt_chance(1, 2) ? '=' : (unsigned char)ref_alpha[pbt_draw(64)]; break;
	case 7: {	// two texts after one another
		size_t m = pbt_draw(60);
		gen_bytes(raw, m);
		n += ref_encode(raw, m, (char *)got + n);
		break;
	}
	case 8: {	// an arbitrary short ending
		static const unsigned char al[] = { 'A', 'Q', '=', '=', '/', '+', '!', 'w' };
		size_t m = 1 + pbt_draw(6);
		while (n && got[n - 1] == '=') n--;
		n -= n % 4;
		while (m--) got[n++] = al[pbt_draw(sizeof al)];
		break;
	}
	}
	if (s->nostrip && !pbt_chance(1, 3)) { memcpy(inp, got, n); inpn = n; }
	else inpn = insert_stuff(got, n, inp, BUFCAP, f_newline);
}

static void gen_garbage (struct spec *s, size_t max)
{
	memset(s, 0, sizeof *s);
	if (pbt_chance(1, 4)) {		// around malformed text
		gen_malformed(s, max);
		memcpy(raw, inp, inpn < BUFCAP ? inpn : BUFCAP);
		size_t n = inpn;
		inpn = insert_stuff(raw, n, inp, BUFCAP, f_garbage);
	} else {
		rawn = gen_rawlen(max);
		gen_bytes(raw, rawn);
		size_t n = ref_encode(raw, rawn, (char *)got);
		inpn = insert_stuff(got, n, inp, BUFCAP, f_garbage);
		if (pbt_chance(1, 4)) { memcpy(got, inp, inpn); inpn = insert_stuff(got, inpn, inp, BUFCAP, f_garbage); }
	}
	s->decode = s->ignore = true; s->wrap = NOWRAP;
	s->nostrip = pbt_chance(1, 8);
}

static size_t diff_at (const unsigned char *a, const unsigned char *b, size_t n)
{
	size_t i = 0;
	while (i < n && a[i] == b[i]) i++;
	return i;
}
#endif

#define _GNU_SOURCE
#include "common.h"
#include <sys/mman.h>
#include <unistd.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#  include <sanitizer/asan_interface.h>
#  define POISON(p, n)   __asan_poison_memory_region(p, n)
#  define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#  define POISON(p, n)   ((void)0)
#  define UNPOISON(p, n) ((void)0)
#endif

struct codec_info codecs[10] = {
	{ "default", 0, true, false },
	{ "plain", BASE64_FORCE_PLAIN, false, false },
	{ "ssse3", BASE64_FORCE_SSSE3, false, false },
	{ "sse41", BASE64_FORCE_SSE41, false, false },
	{ "sse42", BASE64_FORCE_SSE42, false, false },
	{ "avx", BASE64_FORCE_AVX, false, false },
	{ "avx2", BASE64_FORCE_AVX2, false, false },
	{ "avx512", BASE64_FORCE_AVX512, false, false },
	{ "neon32", BASE64_FORCE_NEON32, false, false },
	{ "neon64", BASE64_FORCE_NEON64, false, false },
};
int avail[10], navail;

void common_setup (void)
{
	const char *l = pbt_param("codecs", "plain");
	char *c = strdup(l);
	for (char *t = strtok(c, ","); t; t = strtok(NULL, ","))
		for (int i = 1; i < 10; i++)
			if (!strcmp(codecs[i].name, t)) codecs[i].built = true;
	free(c);
	c = strdup(pbt_param("cannot", ""));
	for (char *t = strtok(c, ","); t; t = strtok(NULL, ","))
		for (int i = 1; i < 10; i++)
			if (!strcmp(codecs[i].name, t)) codecs[i].cannot = true;
	free(c);
	for (int i = 0; i < 10; i++)
		if (codecs[i].built) avail[navail++] = i;
}

const char *codec_name_of_flags (int flags)
{
	for (int i = 0; i < 10; i++) if (codecs[i].flag == flags) return codecs[i].name;
	return "?";
}

int gen_codec (void) { return avail[pbt_draw(navail)]; }

// Sizes of what the loops of the codecs take at a time, in and out.
static const unsigned blocks[] = { 3, 4, 6, 8, 12, 16, 24, 28, 32, 36, 40, 48, 52, 64, 72, 96, 100, 108, 128, 144, 192, 216, 256, 384, 432, 768, 1024, 1296, 4096 };

size_t near (size_t base)
{
	size_t d = pbt_draw(17);	// 0, +1, -1, +2, ...
	if (d & 1) return base + (d + 1) / 2;
	return base >= d / 2 ? base - d / 2 : base;
}

size_t gen_len (size_t max)
{
	size_t n = 0;
	switch (pbt_draw(6)) {
	case 0: n = pbt_draw(20); break;
	case 1: n = pbt_draw(300); break;
	case 2: case 3: {
		size_t b = blocks[pbt_draw(sizeof blocks / sizeof *blocks)];
		n = near(b * (1 + pbt_draw(40)));
		if (pbt_chance(1, 2)) n += blocks[pbt_draw(8)];
		break;
	}
	case 4: {
		unsigned k = (unsigned)pbt_draw(22);
		n = ((size_t)1 << k) + pbt_draw((uint64_t)1 << k);
		break;
	}
	case 5: {	// powers of two, three times those (four times, as text), and round numbers
		static const unsigned dec[] = { 100, 500, 1000, 5000, 10000, 50000, 100000, 500000, 1000000 };
		unsigned form = (unsigned)pbt_draw(5);
		size_t b = form < 4 ? (size_t)(form == 3 ? 3 : 1) << pbt_draw(22) : dec[pbt_draw(9)] * (size_t)(1 + pbt_draw(9));
		while (b > max && b > 16) b = form < 4 ? b / 2 : b / 10;
		n = near(b);
		break;
	}
	}
	return n > max ? n % (max + 1) : n;
}

static uint64_t sm (uint64_t *s) { *s += 0x9E3779B97F4A7C15ULL; return pbt_mix(*s); }

void gen_bytes (unsigned char *p, size_t n)
{
	unsigned style = (unsigned)pbt_draw(7);
	if (n <= 48 && style < 3) {
		for (size_t i = 0; i < n; i++) p[i] = (unsigned char)pbt_draw(256);
		return;
	}
	uint64_t s = pbt_draw(UINT64_MAX);
	unsigned char a = (unsigned char)s, b = (unsigned char)(s >> 8);
	switch (style) {
	default:
		for (size_t i = 0; i < n; i += 8) {
			uint64_t w = sm(&s);
			for (size_t k = 0; k < 8 && i + k < n; k++) p[i + k] = (unsigned char)(w >> (8 * k));
		}
		break;
	case 3: memset(p, a, n); break;
	case 4: for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(a + i * (b | 1)); break;
	case 5: {	// few distinct values, extremes included
		unsigned char v[4] = { a, b, 0xFF, 0x00 };
		for (size_t i = 0; i < n; i++) p[i] = v[sm(&s) & 3];
		break;
	}
	case 6: {	// bytes whose sextets sit at the boundaries of the alphabet's ranges
		static const unsigned char e[16] = { 0, 25, 26, 51, 52, 61, 62, 63, 1, 24, 27, 50, 53, 60, 12, 40 };
		unsigned acc = 0, nb = 0;
		for (size_t i = 0; i < n; i++) {
			while (nb < 8) { acc = (acc << 6 | e[sm(&s) & 15]) & 0xFFFF; nb += 6; }
			nb -= 8;
			p[i] = (unsigned char)(acc >> nb);
		}
		break;
	}
	}
}

size_t gen_text (unsigned char *p, size_t max)
{
	size_t n = gen_len(max / 4 * 3);
	static unsigned char tmp[MAXLEN];
	if (n > sizeof tmp) n %= sizeof tmp;
	gen_bytes(tmp, n);
	n = ref_encode(tmp, n, (char *)p);
	// bits before the padding are free
	if (n && p[n - 1] == '=' && pbt_chance(1, 3)) {
		size_t k = p[n - 2] == '=' ? n - 3 : n - 2;
		p[k] = (unsigned char)ref_alpha[pbt_draw(64)];
	}
	return n;
}

unsigned char gen_badbyte (void)
{
	static const unsigned char edge[] = { '=', ' ', '\n', '\r', '\t', 0, '@', '[', '`', '{', '*', ',', '-', '_', '.', ':', ';', '"', '!', 0x7F, 0x80, 0xFF, 0xC1, 0xE1, 0xAB, 0xBF, 0xB0 };
	switch (pbt_draw(4)) {
	case 0: return '=';
	case 1: return edge[pbt_draw(sizeof edge)];
	case 2: return (unsigned char)pbt_draw(256);
	default: {	// like an alphabet character, with one bit changed
		unsigned char c = (unsigned char)ref_alpha[pbt_draw(64)];
		return (unsigned char)(c ^ (1u << pbt_draw(8)));
	}
	}
}

static size_t gen_pos (size_t n)	// n >= 1
{
	switch (pbt_draw(4)) {
	case 0: return pbt_draw(n);
	case 1: { size_t k = pbt_draw(10); return k < n ? n - 1 - k : 0; }
	case 2: { size_t k = pbt_draw(80); return k % n; }
	default: {
		size_t b = blocks[pbt_draw(20)];
		size_t k = b * pbt_draw(n / b + 1);	// one draw per statement: the order must not depend on the compiler
		k += pbt_draw(3);
		k = k ? k - 1 : 0;
		return k % n;
	}
	}
}

size_t gen_mutate (unsigned char *p, size_t n, size_t cap)
{
	unsigned ops = 1 + (unsigned)pbt_draw(3);
	while (ops--) {
		switch (pbt_draw(8)) {
		case 0: case 1: case 2:
			if (n) { size_t k = gen_pos(n); p[k] = gen_badbyte(); }
			break;
		case 3:		// truncate
			if (n) { size_t k = 1 + pbt_draw(6); n = k < n ? n - k : 0; }
			break;
		case 4:		// delete one
			if (n) { size_t k = gen_pos(n); memmove(p + k, p + k + 1, n - k - 1); n--; }
			break;
		case 5:		// insert one
			if (n < cap) { size_t k = gen_pos(n + 1); memmove(p + k + 1, p + k, n - k); p[k] = gen_badbyte(); n++; }
			break;
		case 6:	{	// append padding or data
			unsigned k = 1 + (unsigned)pbt_draw(5);
			while (k-- && n < cap) p[n++] = pbt_chance(1, 2) ? '=' : (unsigned char)ref_alpha[pbt_draw(64)];
			break;
		}
		case 7:	{	// a padded group in the middle
			if (n >= 8) {
				size_t k = gen_pos(n / 4) * 4;
				p[k + 3] = '=';
				if (pbt_chance(1, 2)) p[k + 2] = '=';
			}
			break;
		}
		}
	}
	return n;
}

static size_t pagesz (void) { static size_t p; if (!p) p = (size_t)sysconf(_SC_PAGESIZE); return p; }

void gbuf_init (struct gbuf *g, size_t cap)
{
	size_t ps = pagesz();
	memset(g, 0, sizeof *g);
	g->cap = (cap + 2 * ps - 1) / ps * ps;
	g->base = mmap(NULL, g->cap + 2 * ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (g->base == MAP_FAILED) { perror("mmap"); exit(98); }
	if (mprotect(g->base, ps, PROT_NONE) || mprotect(g->base + ps + g->cap, ps, PROT_NONE)) { perror("mprotect"); exit(98); }
	g->p = g->base + ps;
}

#define WINDOW 4096	// bytes poisoned on each open side, with AddressSanitizer
static void unpoison (const struct gbuf *g)
{
	unsigned char *lo = g->base + pagesz(), *hi = lo + g->cap;
	unsigned char *a = g->p - lo < WINDOW ? lo : g->p - WINDOW;
	unsigned char *b = hi - g->p < (ptrdiff_t)(g->n + WINDOW) ? hi : g->p + g->n + WINDOW;
	UNPOISON(a, b - a);
	(void)a; (void)b;
}

#define MARGIN 160	// bytes of canary looked at on each open side
static unsigned char canary (const struct gbuf *g, ptrdiff_t off)
{
	unsigned char c = (unsigned char)(g->salt * 7 + off * 13);
	// with even salts the surroundings look like base64
	return g->salt & 1 ? c : (unsigned char)ref_alpha[c & 63];
}

// For P_MID, off (0..63) is the misalignment.
unsigned char *gbuf_place (struct gbuf *g, size_t n, enum place place, unsigned off, unsigned char salt)
{
	unsigned char *lo = g->base + pagesz(), *hi = lo + g->cap;
	if (g->ro) gbuf_protect(g, false);
	unpoison(g);
	g->n = n; g->place = place; g->salt = salt;
	if (place == P_END) g->p = hi - n;
	else if (place == P_START) g->p = lo;
	else g->p = lo + 256 + off;
	if (n > g->cap || (place == P_MID && g->p + n + MARGIN > hi)) {
		g->place = P_END;
		g->p = hi - n;
	}
	for (ptrdiff_t k = 1; k <= MARGIN && g->p - k >= lo; k++) g->p[-k] = canary(g, -k);
	for (ptrdiff_t k = 0; k < MARGIN && g->p + n + k < hi; k++) g->p[n + k] = canary(g, k);
	size_t a = g->p - lo < WINDOW ? g->p - lo : WINDOW, b = hi - g->p - n < WINDOW ? hi - g->p - n : WINDOW;
	POISON(g->p - a, a);
	POISON(g->p + n, b);
	(void)a; (void)b;
	return g->p;
}

void gbuf_protect (struct gbuf *g, bool ro)
{
	g->ro = ro;
	mprotect(g->base + pagesz(), g->cap, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}

ptrdiff_t gbuf_check (const struct gbuf *g)
{
	unsigned char *lo = g->base + pagesz(), *hi = lo + g->cap;
	unpoison(g);
	for (ptrdiff_t k = 1; k <= MARGIN && g->p - k >= lo; k++)
		if (g->p[-k] != canary(g, -k)) return -k;
	for (ptrdiff_t k = 0; k < MARGIN && g->p + g->n + k < hi; k++)
		if (g->p[g->n + k] != canary(g, k)) return (ptrdiff_t)g->n + k + 1;
	return 0;
}

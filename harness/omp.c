// C12: a build with OpenMP against the serial model.
#define _GNU_SOURCE
#include "common.h"
#include <omp.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

static struct gbuf gs, go;
static unsigned char *data, *text, *want;
#define BIG (3u << 20)

void pbt_setup (void)
{
	common_setup();
	gbuf_init(&gs, BIG); gbuf_init(&go, BIG);
	data = malloc(BIG); text = malloc(BIG); want = malloc(BIG);
}

static int any_codec (void)
{
	unsigned k = (unsigned)pbt_draw(12);
	if (k < 10) return avail[k % (unsigned)navail];
	k = 1 + (unsigned)pbt_draw(9);	// perhaps not in the build
	return codecs[k].cannot ? 0 : (int)k;
}

static size_t omp_len (size_t max)
{
	size_t n;
	switch (pbt_draw(6)) {
	case 0: n = 19990 + pbt_draw(24); break;
	case 1: n = 15000 + pbt_draw(10000); break;
	case 2: n = 20000 + pbt_draw(100); break;
	case 3: n = 20000 + pbt_draw(60000); break;
	case 4: n = 20000 + pbt_draw(600000); break;
	default: n = (20000 + pbt_draw(40000)) / 48 * 48 + pbt_draw(5); break;
	}
	return n > max ? max : n;
}

static int threads;
static void gen_threads (void)
{
	switch (pbt_draw(4)) {
	case 0: threads = 1 + (int)pbt_draw(8); break;
	case 1: threads = 1 + (int)pbt_draw(4); break;
	case 2: threads = 1 + (int)pbt_draw(17); break;
	default: threads = 2 + (int)pbt_draw(pbt_chance(1, 6) ? 250 : 40); break;
	}
	if (threads > (int)pbt_param_u("maxthreads", 256)) threads = (int)pbt_param_u("maxthreads", 256);
	omp_set_num_threads(threads);
	// The other settings that change how many threads a region gets.
	unsigned k = (unsigned)pbt_draw(8);
	omp_set_dynamic(k == 5 || k == 7);
	omp_set_max_active_levels(k < 4 ? 1 : k == 4 ? 0 : 1 + (int)pbt_draw(3));
	static const omp_sched_t sch[] = { omp_sched_static, omp_sched_dynamic, omp_sched_guided, omp_sched_auto };
	omp_set_schedule(sch[k == 6 ? pbt_draw(4) : 0], 1 + (int)(k == 6 ? pbt_draw(5) : 0));
	if (k >= 4) pbt_class(k == 4 ? "no active levels" : k == 6 ? "run-time schedule set" : "dynamic threads");
}

static void place (size_t n, size_t cap)
{
	enum place a = (enum place)pbt_draw(3), b = (enum place)pbt_draw(3);
	unsigned x = (unsigned)pbt_draw(64), y = (unsigned)pbt_draw(64);
	unsigned char s = (unsigned char)pbt_draw(256);
	gbuf_place(&gs, n, a, x, s);
	gbuf_place(&go, cap, b, y, s ^ 1);
	memset(go.p, 0xE7, cap);
}
static void around (const char *what)
{
	if (gbuf_check(&go)) pbt_fail("%s wrote outside its output space", what);
}

static void p_enc (void)
{
	gen_threads();
	int ci = any_codec();
	size_t n = omp_len(800000), ol = SIZE_MAX - 5;
	gen_bytes(data, n);
	place(n, ref_enclen(n));
	memcpy(gs.p, data, n);
	pbt_note("base64_encode codec=%s threads=%d len=%zu %s", codecs[ci].name, threads, n, pbt_hex(data, n));
	base64_encode((char *)gs.p, n, (char *)go.p, &ol, codecs[ci].flag);
	pbt_eval(1);
	size_t w = codecs[ci].built ? ref_encode(data, n, (char *)want) : 0;
	if (ol != w) pbt_fail("base64_encode (%s, %d threads, %zu bytes): outlen is %zu, must be %zu", codecs[ci].name, threads, n, ol, w);
	for (size_t i = 0; i < w; i++) if (go.p[i] != want[i]) pbt_fail("base64_encode (%s, %d threads, %zu bytes): wrong character at %zu", codecs[ci].name, threads, n, i);
	around("base64_encode");
	pbt_class("encode"); pbt_class(n < 20000 ? "below the threshold" : "parallel"); if (threads > 8) pbt_class(threads > 64 ? "more than 64 threads" : "9 to 64 threads");
	if (n >= 20000) pbt_hit(pbt_hash(ci * 512 + threads, data, n));
	if (pbt_want_sample()) pbt_sample("encode codec=%s threads=%d len=%zu %s", codecs[ci].name, threads, n, pbt_hex(data, 24));
}

static void check_dec (const unsigned char *t, size_t n, int ci, const char *what)
{
	size_t ol = SIZE_MAX - 5, w, cap = n / 4 * 3 + n % 4 * 3 / 4;
	place(n, cap);
	memcpy(gs.p, t, n);
	pbt_note("base64_decode codec=%s threads=%d len=%zu (%s) %s", codecs[ci].name, threads, n, what, pbt_hex(t, n));
	bool ok = ref_decode(t, n, want, &w);
	int r = base64_decode((char *)gs.p, n, (char *)go.p, &ol, codecs[ci].flag);
	int wr = codecs[ci].built ? ok : -1;
	pbt_eval(1);
	if (r != wr) pbt_fail("base64_decode (%s, %d threads, %zu characters, %s) returns %d, must be %d", codecs[ci].name, threads, n, what, r, wr);
	if (r == 1) {
		if (ol != w) pbt_fail("base64_decode (%s, %d threads, %zu characters): outlen is %zu, must be %zu", codecs[ci].name, threads, n, ol, w);
		for (size_t i = 0; i < w; i++) if (go.p[i] != want[i]) pbt_fail("base64_decode (%s, %d threads, %zu characters): wrong byte at %zu", codecs[ci].name, threads, n, i);
	} else if (r == -1) {
		if (ol != 0) pbt_fail("base64_decode (absent codec %s, %d threads): outlen is %zu, must be 0", codecs[ci].name, threads, ol);
	} else if (ol > cap) pbt_fail("base64_decode (%s, %d threads, malformed): outlen is not set (%zu)", codecs[ci].name, threads, ol);
	around("base64_decode");
	pbt_class(!codecs[ci].built ? "absent codec" : ok ? "well-formed" : "malformed"); pbt_class(n < 20000 ? "below the threshold" : "parallel"); if (threads > 8) pbt_class(threads > 64 ? "more than 64 threads" : "9 to 64 threads");
	if (n >= 20000) pbt_hit(pbt_hash(ci * 512 + threads, t, n));
	if (pbt_want_sample()) pbt_sample("decode codec=%s threads=%d len=%zu %s", codecs[ci].name, threads, n, what);
}

static size_t gen_valid (size_t chars)
{
	size_t nb = chars / 4 * 3;
	if (nb && pbt_chance(1, 2)) nb -= pbt_draw(3);
	gen_bytes(data, nb);
	return ref_encode(data, nb, (char *)text);
}

static void p_dec (void)
{
	gen_threads();
	int ci = any_codec();
	size_t n = gen_valid(omp_len(800000));
	const char *what = "well-formed";
	if (pbt_chance(1, 2)) { n = gen_mutate(text, n, BIG); what = "damaged"; }
	check_dec(text, n, ci, what);
}

// Damage at the boundaries of the parts a number of threads would get.
static void p_boundary (void)
{
	gen_threads();
	int ci = any_codec();
	size_t n = gen_valid(omp_len(300000));
	unsigned hits = 1 + (unsigned)pbt_draw(3);
	static char what[200];
	int l = sprintf(what, "damage at");
	if (n < 8) return;
	while (hits--) {
		int parts = pbt_chance(3, 4) ? threads : 1 + (int)pbt_draw(16);
		size_t len = n / 4 / (size_t)parts * 4;
		size_t at = len * (1 + pbt_draw((uint64_t)parts));
		size_t q = at >= 4 ? at - 4 : 0;		// last group of a part
		if (pbt_chance(1, 4)) q = at + 4 * pbt_draw(3);	// or one of the next
		if (q + 4 > n) q = n - 4;
		l += sprintf(what + l, " %zu", q);
		switch (pbt_draw(6)) {
		case 0: case 1: text[q + 3] = '='; break;
		case 2: case 3: text[q + 2] = text[q + 3] = '='; break;
		case 4: text[q + pbt_draw(4)] = gen_badbyte(); break;
		default: text[q] = text[q + 1] = text[q + 2] = text[q + 3] = '='; break;
		}
	}
	check_dec(text, n, ci, what);
}

// Several callers at once: from threads, and from inside a parallel region.
struct job { unsigned char *src, *out, *want; size_t n, w, ol; int enc, flag, ret; };
static void *do_job (void *p)
{
	struct job *j = p;
	j->ret = 1;
	if (j->enc) base64_encode((char *)j->src, j->n, (char *)j->out, &j->ol, j->flag);
	else j->ret = base64_decode((char *)j->src, j->n, (char *)j->out, &j->ol, j->flag);
	return NULL;
}
static void p_callers (void)
{
	gen_threads();
	if (threads > 6) omp_set_num_threads(threads = 6);
	int k = 2 + (int)pbt_draw(3);
	bool region = pbt_chance(1, 2);
	struct job js[5];
	for (int i = 0; i < k; i++) {
		struct job *j = &js[i];
		int ci = gen_codec();
		size_t n = omp_len(60000);
		j->enc = (int)pbt_draw(2); j->flag = codecs[ci].flag; j->ol = 1;
		gen_bytes(data, n);
		j->src = malloc(n * 4 / 3 + 8); j->want = malloc(n * 4 / 3 + 8);
		if (j->enc) { memcpy(j->src, data, n); j->n = n; j->w = ref_encode(data, n, (char *)j->want); }
		else { j->n = ref_encode(data, n, (char *)j->src); memcpy(j->want, data, n); j->w = n; }
		j->out = malloc(n * 4 / 3 + 8);
	}
	pbt_note("%d callers at once (%s), %d threads each, sizes %zu %zu ...", k, region ? "in a parallel region" : "pthreads", threads, js[0].n, js[1].n);
	if (region) {
		#pragma omp parallel for num_threads(4) schedule(dynamic, 1)
		for (int i = 0; i < k; i++) do_job(&js[i]);
	} else {
		pthread_t t[5];
		for (int i = 0; i < k; i++) if (pthread_create(&t[i], NULL, do_job, &js[i])) { perror("pthread_create"); exit(98); }
		for (int i = 0; i < k; i++) pthread_join(t[i], NULL);
	}
	uint64_t h = 0;
	for (int i = 0; i < k; i++) {
		struct job *j = &js[i];
		pbt_eval(1);
		if (j->ret != 1 || j->ol != j->w || memcmp(j->out, j->want, j->w)) pbt_fail("caller %d of %d (%s of %zu, flags %#x): wrong result (returns %d, outlen %zu, must be %zu)", i, k, j->enc ? "encode" : "decode", j->n, (unsigned)j->flag, j->ret, j->ol, j->w);
		h ^= pbt_hash(i, j->src, 64) ^ j->n;
		free(j->src); free(j->out); free(j->want);
	}
	pbt_class(region ? "callers in a parallel region" : "callers in threads");
	pbt_hit(h);
}

// 32-bit builds: offsets of parts beyond 1 GiB. The input is one page-aligned
// pattern mapped again and again, the output is real memory.
static void p_big32 (void)
{
	bool enc = pbt_enum(2) == 0;
	int ci = gen_codec();
	threads = 2 + (int)pbt_draw(7);
	omp_set_num_threads(threads);
	size_t ps = 1u << 16, P = enc ? 3 * ps : 4 * ps;	// period, a multiple of pages and groups
	size_t n = enc ? ((size_t)1 << 30) + 3 * pbt_draw(40000000) : 1500000000u + 4 * pbt_draw(20000000);
	int fd = memfd_create("b64", 0);
	if (fd < 0 || ftruncate(fd, P)) { perror("memfd"); exit(98); }
	unsigned char *a = mmap(NULL, P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	gen_bytes(data, 3 * ps);
	size_t tl = ref_encode(data, 3 * ps, (char *)text);
	memcpy(a, enc ? data : text, P);
	munmap(a, P);
	size_t maps = (n + P - 1) / P, cap = enc ? ref_enclen(n) : n / 4 * 3;
	// Address space is scarce and threads fragment it: reserve it once.
	static unsigned char *region;
	const size_t SRC = 1600u << 20, OUT = 1300u << 20, TOTAL = 2800u << 20;
	if (!region) region = mmap(NULL, TOTAL, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (region == MAP_FAILED) { perror("mmap"); exit(98); }
	unsigned char *src = region, *out = region + (enc ? TOTAL - SRC : SRC);
	if (maps * P > (size_t)(out - src) || cap > (enc ? SRC : OUT - (100u << 20))) abort();
	if (mmap(out, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); exit(98); }
	for (size_t i = 0; i < maps; i++) if (mmap(src + i * P, P, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap fixed"); exit(98); }
	size_t ol = 1;
	int r = 1;
	pbt_note("%s codec=%s threads=%d len=%zu", enc ? "base64_encode" : "base64_decode", codecs[ci].name, threads, n);
	if (enc) base64_encode((char *)src, n, (char *)out, &ol, codecs[ci].flag);
	else r = base64_decode((char *)src, n, (char *)out, &ol, codecs[ci].flag);
	pbt_eval(1);
	if (r != 1) pbt_fail("base64_decode of %zu characters with %d threads returns %d", n, threads, r);
	if (ol != cap) pbt_fail("%zu bytes in, %d threads: outlen is %zu, must be %zu", n, threads, ol, cap);
	size_t Q = enc ? tl : 3 * ps;
	for (size_t i = 0; i < cap; i += Q) {
		size_t m = cap - i < Q ? cap - i : Q;
		if (enc && m < Q) ref_encode(data, n - i / 4 * 3, (char *)text);	// padding
		if (memcmp(out + i, enc ? text : data, m)) pbt_fail("%s of %zu bytes with %d threads: wrong output between %zu and %zu", enc ? "encode" : "decode", n, threads, i, i + m);
	}
	mmap(region, TOTAL, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	close(fd);
	pbt_class(enc ? "encode beyond 1 GiB" : "decode beyond 1.4 GB");
	pbt_hit(pbt_mix(n) ^ (uint64_t)threads);
	pbt_sample("%s codec=%s threads=%d len=%zu on 32 bits", enc ? "encode" : "decode", codecs[ci].name, threads, n);
}

const struct pbt_prop pbt_props[] = {
	{ "omp_enc", p_enc }, { "omp_dec", p_dec }, { "omp_boundary", p_boundary }, { "omp_callers", p_callers }, { "omp_big32", p_big32 }, { NULL, NULL },
};

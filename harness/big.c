// C15: lengths around and beyond 2^31 and 2^32. The source is one small file
// mapped over and over; its length is no divisor of a power of two, so that a
// truncated offset leads to other bytes. The output is a reserved address range
// of which a few windows at a time are backed by memory: a window is opened
// when it is first touched, and compared with what must be there when the
// writer has gone on.
#define _GNU_SOURCE
#include "common.h"
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>

#define PD ((size_t)15 << 20)	// period of the data
#define PT ((size_t)20 << 20)	// period of the text
#define SRCMAX ((uint64_t)6 << 30)
#define OUTMAX ((uint64_t)8 << 30)
#define NW (OUTMAX / PD + 2)

static unsigned char *data, *text;	// one period each, shared
static int dfd, tfd;
static unsigned char *src; static int src_is;	// what src is mapped to: 0 none, 1 data, 2 text
static unsigned char *out;
static size_t W; static const unsigned char *want;	// window size, contents of every window
enum { NONE, OPEN, DONE };
static unsigned char state[NW];
static volatile size_t next_w;
static volatile bool noevict, bad, outside; static volatile uint64_t bad_at;
static volatile int lock_;

static int memfile (size_t n)
{
	int fd = (int)syscall(SYS_memfd_create, "big", 0);
	if (fd < 0 || ftruncate(fd, (off_t)n) < 0) { perror("memfd"); exit(98); }
	return fd;
}

static void open_w (size_t w) { mprotect(out + w * W, W, PROT_READ | PROT_WRITE); state[w] = OPEN; }
static void compare (size_t w, size_t from, size_t n)
{
	const unsigned char *p = out + w * W;
	if (bad || n <= from || memcmp(p + from, want + from, n - from) == 0) return;
	for (size_t i = from; i < n; i++) if (p[i] != want[i]) { bad = true; bad_at = (uint64_t)w * W + i; return; }
}
static void close_w (size_t w)
{
	madvise(out + w * W, W, MADV_DONTNEED);
	mprotect(out + w * W, W, PROT_NONE);
}

static struct sigaction old_sa;
static void on_fault (int sig, siginfo_t *si, void *uc)
{
	(void)uc;
	int e = errno;
	unsigned char *a = si->si_addr;
	if (!W || a < out || a >= out + OUTMAX) { sigaction(sig, &old_sa, NULL); return; }
	size_t w = (size_t)(a - out) / W;
	while (__atomic_exchange_n(&lock_, 1, __ATOMIC_ACQUIRE)) ;
	if (state[w] == NONE) {
		if (w != next_w) noevict = true;	// not in order: keep everything
		open_w(w);
		if (w >= next_w) next_w = w + 1;
		if (!noevict && w >= 2 && state[w - 2] == OPEN) {
			compare(w - 2, 0, W);
			close_w(w - 2);
			state[w - 2] = DONE;
		}
	} else if (state[w] == DONE) {	// comes back to it
		open_w(w);
		memcpy(out + w * W, want, W);
	}
	__atomic_store_n(&lock_, 0, __ATOMIC_RELEASE);
	errno = e;
}

void pbt_setup (void)
{
	common_setup();
	dfd = memfile(PD); tfd = memfile(PT);
	data = mmap(NULL, PD, PROT_READ | PROT_WRITE, MAP_SHARED, dfd, 0);
	text = mmap(NULL, PT, PROT_READ | PROT_WRITE, MAP_SHARED, tfd, 0);
	src = mmap(NULL, SRCMAX + PT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	out = mmap(NULL, OUTMAX + PT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (data == MAP_FAILED || text == MAP_FAILED || src == MAP_FAILED || out == MAP_FAILED) { perror("mmap"); exit(98); }
	uint64_t z = 88172645463325252ULL;
	for (size_t i = 0; i < PD; i++) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; data[i] = (unsigned char)(z >> 24); if (!data[i]) data[i] = 0x5A; }
	ref_encode(data, PD, (char *)text);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_fault;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, &old_sa);
}

static void map_src (int what)
{
	if (src_is == what) return;
	size_t p = what == 1 ? PD : PT;
	for (uint64_t o = 0; o < SRCMAX; o += p)
		if (mmap(src + o, p, PROT_READ, MAP_SHARED | MAP_FIXED, what == 1 ? dfd : tfd, 0) == MAP_FAILED) { perror("mmap"); exit(98); }
	src_is = what;
}

static uint64_t dirty[4]; static int ndirty;
static void put (uint64_t at, unsigned char c)	// into a private copy of the page of the text
{
	long pg = sysconf(_SC_PAGESIZE);
	uint64_t a = at / (uint64_t)pg * (uint64_t)pg;
	int i;
	for (i = 0; i < ndirty && dirty[i] != a; i++) ;
	if (i == ndirty) {
		if (mmap(src + a, (size_t)pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, tfd, (off_t)(a % PT)) == MAP_FAILED) { perror("mmap"); exit(98); }
		dirty[ndirty++] = a;
	}
	src[at] = c;
}
static void unput (void)
{
	long pg = sysconf(_SC_PAGESIZE);
	while (ndirty) { uint64_t a = dirty[--ndirty]; mmap(src + a, (size_t)pg, PROT_READ, MAP_SHARED | MAP_FIXED, tfd, (off_t)(a % PT)); }
}

static void begin (int decode)
{
	W = decode ? PD : PT;
	want = decode ? data : text;
	memset(state, 0, sizeof state);
	next_w = 0;
	noevict = pbt_param_u("keep", 0);
	bad = outside = false;
}
static void end_ (void)
{
	for (size_t w = 0; w < next_w; w++) if (state[w] == OPEN || state[w] == DONE) close_w(w);
	W = 0;
}

#define G31 ((uint64_t)1 << 31)
#define G32 ((uint64_t)1 << 32)

static uint64_t gen_big (bool decode)
{
	uint64_t b, n;
	unsigned k = (unsigned)pbt_draw(10), d = (unsigned)pbt_draw(5);
	uint64_t r = pbt_draw(UINT64_MAX);
	if (pbt_param_u("below", 0)) {	// 32 MiB to 2^31
		b = (uint64_t)1 << (25 + r % 6);
		r >>= 8;
		if (k < 5) n = b + r % b;
		else if (k < 7) n = b - 200 + r % 400;
		else if (k < 8) n = b / 4 * 3 - 100 + r % 200;	// b characters
		else n = b / 3 * 4 - 100 + r % 200;		// b bytes
		return n > G31 ? G31 : n;
	}
	switch (k) {
	case 0: case 1: b = G31; break;
	case 2: case 3: case 4: b = G32; break;
	case 5: b = decode ? G32 / 3 * 2 : G31 / 4 * 3; break;		// output of 2^31
	case 6: case 7: b = decode ? G32 / 3 * 4 : G32 / 4 * 3; break;	// output of 2^32
	case 8: return G31 + r % (G32 / 2);
	default: return G32 + r % (G32 / 4);
	}
	switch (d) {
	case 0: n = b; break;
	case 1: n = b + r % 200; break;
	case 2: n = b - r % 200; break;
	case 3: n = b + r % 20000; break;
	default: n = b + r % (64 << 20); break;
	}
	return n;
}

static bool gen_stream (void)
{
	uint64_t m = pbt_param_u("mode", 0);
	return m ? m == 2 : pbt_turn(pbt_index() / (unsigned)navail, 5) >= 3;
}

static int ncuts; static uint64_t cuts[6];	// ends of the chunks
static void gen_chunks (uint64_t n)
{
	ncuts = 0;
	unsigned k = (unsigned)pbt_draw(5);
	uint64_t a = pbt_draw(200), b = pbt_draw(n);
	switch (k) {
	case 0: break;
	case 1: cuts[ncuts++] = a; break;
	case 2: cuts[ncuts++] = a; cuts[ncuts++] = n - b % 300; break;
	case 3: cuts[ncuts++] = b; break;
	default: if (n < G31) { cuts[ncuts++] = ((uint64_t)1 << (20 + b % 11)) - a; break; } cuts[ncuts++] = G31 - a; if (n > G31 + 300) cuts[ncuts++] = G31 + a; break;
	}
	for (int i = 0; i < ncuts; i++) if (cuts[i] > n) cuts[i] = n;
	cuts[ncuts++] = n;
}

static void settle (uint64_t total, uint64_t cap, const unsigned char *tail, size_t ntail, const char *what)
{
	// everything before the tail is periodic
	uint64_t per = total - ntail;
	size_t last = (size_t)((total + W - 1) / W);
	for (size_t w = 0; w < last; w++) if (state[w] == NONE) pbt_fail("%s: nothing is written at offset %llu of the output", what, (unsigned long long)w * W);
	for (size_t w = 0; w < next_w; w++) if (state[w] != NONE) {
		uint64_t o = (uint64_t)w * W;
		if (o >= cap) pbt_fail("%s: writes at or after offset %llu, beyond its output space of %llu", what, (unsigned long long)o, (unsigned long long)cap);
		if (state[w] != OPEN) continue;
		compare(w, 0, per >= o + W ? W : per > o ? (size_t)(per - o) : 0);
		for (uint64_t i = cap > o ? cap : o; i < o + W; i++) if (out[i]) pbt_fail("%s: writes at offset %llu, beyond its output space of %llu", what, (unsigned long long)i, (unsigned long long)cap);
	}
	if (bad) pbt_fail("%s: the output is wrong at offset %llu of %llu", what, (unsigned long long)bad_at, (unsigned long long)total);
	for (size_t i = 0; i < ntail; i++) if (out[per + i] != tail[i]) pbt_fail("%s: the output is wrong at offset %llu of %llu", what, (unsigned long long)(per + i), (unsigned long long)total);
}

static const char *chunks_str (void)
{
	static char b[150];
	int k = 0;
	b[0] = 0;
	for (int i = 0; i < ncuts; i++) k += snprintf(b + k, sizeof b - (size_t)k, "%s%llu", i ? "," : "", (unsigned long long)(cuts[i] - (i ? cuts[i - 1] : 0)));
	return b;
}

static void p_enc (void)
{
	int ci = avail[pbt_turn(pbt_index(), (unsigned)navail)];	// every codec in turn
	bool stream = gen_stream();
	uint64_t n = gen_big(false);
	char what[300];
	if (stream) gen_chunks(n);
	snprintf(what, sizeof what, "%s, codec %s, %llu bytes%s%s", stream ? "stream encode" : "base64_encode", codecs[ci].name, (unsigned long long)n, stream ? " in chunks of " : "", stream ? chunks_str() : "");
	pbt_note("%s", what);
	map_src(1);
	begin(0);
	uint64_t total = n / 3 * 4 + (n % 3 ? 4 : 0);
	size_t ol;
	if (!stream) {
		ol = 77;
		base64_encode((char *)src, n, (char *)out, &ol, codecs[ci].flag);
		if (ol != total) pbt_fail("%s: outlen is %llu, must be %llu", what, (unsigned long long)ol, (unsigned long long)total);
	} else {
		struct base64_state st;
		uint64_t at = 0, o = 0;
		base64_stream_encode_init(&st, codecs[ci].flag);
		for (int i = 0; i < ncuts; i++) {
			ol = 77;
			base64_stream_encode(&st, (char *)src + at, cuts[i] - at, (char *)out + o, &ol);
			at = cuts[i];
			o += ol;
			if (o != at / 3 * 4 + at % 3) pbt_fail("%s: after chunk %d, %llu characters are delivered, must be %llu", what, i + 1, (unsigned long long)o, (unsigned long long)(at / 3 * 4 + at % 3));
		}
		base64_stream_encode_final(&st, (char *)out + o, &ol);
		if (o + ol != total) pbt_fail("%s: final delivers %zu characters, must be %llu", what, ol, (unsigned long long)(total - o));
	}
	pbt_eval(1);
	char tail[8];
	size_t nt = n % 3 ? ref_encode(data + (n - n % 3) % PD, n % 3, tail) : 0;
	settle(total, total, (unsigned char *)tail, nt, what);
	end_();
	pbt_class(stream ? "stream encode" : "base64_encode"); pbt_class(n >= G32 ? "at least 2^32" : n >= G31 ? "at least 2^31" : pbt_param_u("below", 0) ? "32 MiB to 2^31" : total >= G32 ? "output at least 2^32" : "below 2^31"); pbt_class(codecs[ci].name);
	pbt_hit(pbt_hash(pbt_hash(ci * 2 + stream, &n, 8), cuts, stream ? sizeof *cuts * (size_t)ncuts : 0));
	pbt_sample("%s", what);
}

static void p_dec (void)
{
	int ci = avail[pbt_turn(pbt_index(), (unsigned)navail)];	// every codec in turn
	bool stream = gen_stream();
	uint64_t n = gen_big(true), damage = UINT64_MAX;
	unsigned kind = (unsigned)pbt_draw(8);	// 0..2 whole, 3..4 padded, 5..6 damaged, 7 truncated
	unsigned padn = 1 + (unsigned)pbt_draw(2), place = (unsigned)pbt_draw(6);
	uint64_t r = pbt_draw(UINT64_MAX);
	unsigned char c = gen_badbyte();
	if (ref_value(c) >= 0) c |= 0x80;
	if (pbt_chance(1, 4)) c = '=';
	char what[400];
	if (kind != 7 || n % 4 == 0) n &= ~(uint64_t)3;
	if (kind == 7) n += n % 4 == 0 ? 1 + r % 3 : 0;
	if (n < 1000) n = 1000;
	if (pbt_param_u("below", 0) && place && place < 3) place = 3;
	if (kind == 5 || kind == 6) {
		switch (place) {
		case 0: damage = n - 5 - r % 100; break;
		case 1: damage = G32 + r % 100; break;
		case 2: damage = G31 + r % 100; break;
		case 3: damage = n - 5 - r % (n / 16); break;
		default: damage = r % (n - 5); break;
		}
		if (damage > n - 5) damage = n - 5 - damage % 100;
	}
	if (stream) gen_chunks(n);
	snprintf(what, sizeof what, "%s, codec %s, %llu characters%s%s", stream ? "stream decode" : "base64_decode", codecs[ci].name, (unsigned long long)n, stream ? " in chunks of " : "", stream ? chunks_str() : "");
	if (damage != UINT64_MAX) snprintf(what + strlen(what), 100, ", 0x%02x at %llu", c, (unsigned long long)damage);
	pbt_note("%s", what);
	map_src(2);
	begin(1);
	uint64_t total = n / 4 * 3 + (n % 4 ? n % 4 - 1 : 0), cap = total;
	if (kind == 3 || kind == 4) {
		for (unsigned i = 1; i <= padn; i++) put(n - i, '=');
		total -= padn;
	}
	if (damage != UINT64_MAX) put(damage, c);
	size_t ol = 77;
	bool ok = true;
	if (!stream) {
		int ret = base64_decode((char *)src, n, (char *)out, &ol, codecs[ci].flag);
		ok = damage == UINT64_MAX && kind != 7;
		if (ret != ok) pbt_fail("%s: returns %d, must be %d", what, ret, ok);
		if (ok && ol != total) pbt_fail("%s: outlen is %llu, must be %llu", what, (unsigned long long)ol, (unsigned long long)total);
	} else {
		struct base64_state st;
		uint64_t at = 0, o = 0;
		base64_stream_decode_init(&st, codecs[ci].flag);
		for (int i = 0; i < ncuts && ok; i++) {
			ol = 77;
			int ret = base64_stream_decode(&st, (char *)src + at, cuts[i] - at, (char *)out + o, &ol);
			if (cuts[i] == at && at == n && ret != 1) break;	// an empty chunk at the end: unspecified after padding
			at = cuts[i];
			if (at > damage) ok = false;
			if (ret != ok) pbt_fail("%s: chunk %d returns %d, must be %d", what, i + 1, ret, ok);
			if (!ok) break;
			o += ol;
			uint64_t w = at / 4 * 3 + (at % 4 ? at % 4 - 1 : 0);
			if (w > total) w = total;
			if (o != w) pbt_fail("%s: after chunk %d, %llu bytes are delivered, must be %llu", what, i + 1, (unsigned long long)o, (unsigned long long)w);
		}
	}
	pbt_eval(1);
	if (ok) {
		// the tail: with padding, the last byte has fewer significant bits, but the bytes are those of the data
		settle(total, cap, NULL, 0, what);
	} else if (bad) pbt_fail("%s: the output is wrong at offset %llu, before the error", what, (unsigned long long)bad_at);
	end_();
	unput();
	pbt_class(stream ? "stream decode" : "base64_decode"); pbt_class(n >= G32 ? "at least 2^32" : n >= G31 ? "at least 2^31" : pbt_param_u("below", 0) ? "32 MiB to 2^31" : "below 2^31"); pbt_class(codecs[ci].name);
	pbt_class(damage != UINT64_MAX ? damage >= G32 ? "damage beyond 2^32" : "damage" : kind == 7 ? "truncated" : "well-formed");
	pbt_hit(pbt_hash(pbt_hash(pbt_hash(ci * 2 + stream, &n, 8), &damage, 8), cuts, stream ? sizeof *cuts * (size_t)ncuts : 0));
	pbt_sample("%s", what);
}

const struct pbt_prop pbt_props[] = { { "big_enc", p_enc }, { "big_dec", p_dec }, { NULL, NULL } };

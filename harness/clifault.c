// C20: the command-line program, linked into this harness (main renamed to
// b64_main, calls to the system redirected to the stand-ins below), runs in a
// forked child under a generated plan of short, interrupted and failing calls.
#define _GNU_SOURCE
#include "cli.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

int b64_main (int argc, char **argv);

#define NP 48
enum wkind { W_FULL, W_SHORT, W_VEC, W_EINTR, W_ERR };
enum rkind { R_FULL, R_SHORT, R_ERR };
enum tail { T_NORMAL, T_TINY, T_RANDOM, T_VEC, T_EINTR };
static struct plan {
	int nw, nr;
	struct { enum wkind kind; uint64_t v; int err; } w[NP];
	struct { enum rkind kind; uint64_t v; int err; } r[NP];
	enum tail wtail, rtail;
	uint64_t salt;
	int failmalloc;		// this call fails (1...), 0: none
	bool sticky;		// an error is followed by the same error
} plan;

// Shared with the child.
static struct shm {
	size_t outn;
	int nw, nr, nmalloc, short_w, eintr_w, bad_iov;
	int hard_w, hard_r, hard_m;	// errors delivered
	int done;			// main returned, streams were flushed
	unsigned char out[BUFCAP];
} *sh;
static size_t inpos;
static bool noeintr;	// the platform's write is never interrupted
static int errout = -1;

static uint64_t sticky_w_err, sticky_r_err;

static ssize_t shim_readv_one (void *p, size_t n)
{
	if (n == 0) return 0;
	int k = sh->nr++;
	size_t left = inpn - inpos, m = n < left ? n : left;
	if (sticky_r_err) { errno = (int)sticky_r_err; return -1; }
	if (k < plan.nr) {
		if (plan.r[k].kind == R_ERR) {
			sh->hard_r++;
			if (plan.sticky) sticky_r_err = (uint64_t)plan.r[k].err;
			errno = plan.r[k].err;
			return -1;
		}
		if (plan.r[k].kind == R_SHORT && m > 1) m = 1 + plan.r[k].v % m;
	} else if (m > 1 && plan.rtail != T_NORMAL) {
		uint64_t z = pbt_mix(plan.salt ^ (uint64_t)k);
		if (plan.rtail == T_TINY) m = 1 + z % (m < 5 ? m : 5);
		else m = 1 + z % m;
	}
	memcpy(p, inp + inpos, m);
	inpos += m;
	return (ssize_t)m;
}

ssize_t shim_read (int fd, void *p, size_t n) { (void)fd; return shim_readv_one(p, n); }
ssize_t shim_readv (int fd, const struct iovec *v, int cnt) { (void)fd; for (int i = 0; i < cnt; i++) if (v[i].iov_len) return shim_readv_one(v[i].iov_base, v[i].iov_len); return 0; }

static ssize_t shim_wv (const struct iovec *v, int cnt)
{
	size_t total = 0, m, cut[3] = { 0, 0, 0 };
	for (int i = 0; i < cnt; i++) total += v[i].iov_len;
	if (total == 0) return 0;
	int k = sh->nw++;
	if (sticky_w_err) { errno = (int)sticky_w_err; return -1; }
	m = total;
	uint64_t z = pbt_mix(plan.salt ^ 77 ^ (uint64_t)k);
	enum wkind kind = W_FULL;
	if (k < plan.nw) { kind = plan.w[k].kind; z = plan.w[k].v; }
	else switch (plan.wtail) {
	case T_NORMAL: break;
	case T_TINY: kind = W_SHORT; if (total > 5) { m = 1 + z % 5; kind = W_FULL; } break;
	case T_RANDOM: kind = W_SHORT; break;
	case T_VEC: kind = W_VEC; break;
	case T_EINTR: kind = z & 1 ? W_EINTR : W_SHORT; z >>= 1; break;
	}
	if (kind == W_EINTR && noeintr) kind = W_SHORT;
	// so that the longest runs end in time
	if (k > 20000 && kind != W_ERR) { kind = W_FULL; m = total; }
	switch (kind) {
	case W_FULL: break;
	case W_SHORT: m = 1 + z % total; break;
	case W_VEC: {	// ends at, just before or just after a vector
		int i = (int)(z % (uint64_t)cnt);
		size_t e = 0;
		for (int j = 0; j <= i; j++) e += v[j].iov_len;
		cut[0] = e; cut[1] = e > 1 ? e - 1 : e; cut[2] = e + 1;
		m = cut[(z >> 32) % 3];
		if (m < 1) m = 1;
		if (m > total) m = total;
		break;
	}
	case W_EINTR: sh->eintr_w++; errno = EINTR; return -1;
	case W_ERR:
		sh->hard_w++;
		if (plan.sticky) sticky_w_err = (uint64_t)plan.w[k].err;
		errno = plan.w[k].err;
		return -1;
	}
	if (m < total) sh->short_w++;
	size_t todo = m;
	for (int i = 0; i < cnt && todo; i++) {
		size_t n = v[i].iov_len < todo ? v[i].iov_len : todo;
		if (sh->outn + n > BUFCAP) n = BUFCAP - sh->outn;
		memcpy(sh->out + sh->outn, v[i].iov_base, n);
		sh->outn += n;
		todo -= v[i].iov_len < todo ? v[i].iov_len : todo;
	}
	return (ssize_t)m;
}

ssize_t shim_writev (int fd, const struct iovec *v, int cnt)
{
	if (fd == 2) return writev(errout, v, cnt);
	if (fd != 1) { errno = EBADF; return -1; }
	if (cnt < 0 || cnt > IOV_MAX) { sh->bad_iov++; errno = EINVAL; return -1; }
	return shim_wv(v, cnt);
}
ssize_t shim_write (int fd, const void *p, size_t n)
{
	struct iovec v = { (void *)p, n };
	return shim_writev(fd, &v, 1);
}

static bool malloc_fails (void)
{
	if (++sh->nmalloc != plan.failmalloc) return false;
	sh->hard_m++;
	errno = ENOMEM;
	return true;
}
void *shim_malloc (size_t n) { return malloc_fails() ? NULL : malloc(n); }
void *shim_calloc (size_t a, size_t b) { return malloc_fails() ? NULL : calloc(a, b); }
void *shim_realloc (void *p, size_t n) { return malloc_fails() ? NULL : realloc(p, n); }
int shim_posix_memalign (void **p, size_t a, size_t n) { return malloc_fails() ? ENOMEM : posix_memalign(p, a, n); }
void *shim_aligned_alloc (size_t a, size_t n) { return malloc_fails() ? NULL : aligned_alloc(a, n); }

static ssize_t ck_read (void *c, char *p, size_t n) { (void)c; return shim_readv_one(p, n); }
static ssize_t ck_write (void *c, const char *p, size_t n)
{
	// stdio calls this from its flushes; it takes short counts as errors, so
	// a stand-in for the system's write must be complete or fail
	(void)c;
	size_t o = 0;
	while (o < n) {
		ssize_t k = shim_write(1, p + o, n - o);
		if (k < 0) { if (errno == EINTR) continue; return (ssize_t)o; }
		o += (size_t)k;
	}
	return (ssize_t)o;
}
static FILE *in_stream (void)
{
	cookie_io_functions_t f = { .read = ck_read };
	return fopencookie(NULL, "rb", f);
}
FILE *shim_fopen (const char *path, const char *mode)
{
	if (!strcmp(path, "the-file")) return in_stream();
	return fopen(path, mode);
}
int shim_open (const char *path, int flags, ...)
{
	(void)flags;
	if (!strcmp(path, "the-file")) return 100;
	errno = ENOENT;
	return -1;
}

void pbt_setup (void)
{
	noeintr = pbt_param_u("noeintr", 0);
	common_setup();
	cli_buffers();
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) abort();
}

static const char *plan_str (void)
{
	static char b[2500];
	static const char *tn[] = { "normal", "tiny", "random", "at vectors", "interrupted" };
	int o = 0;
	b[0] = 0;
	for (int i = 0; i < plan.nr && o < 1000; i++) o += sprintf(b + o, plan.r[i].kind == R_ERR ? "read%d:error %d " : plan.r[i].kind == R_SHORT ? "read%d:short " : "", i, plan.r[i].err);
	for (int i = 0; i < plan.nw && o < 2000; i++) {
		if (plan.w[i].kind == W_ERR) o += sprintf(b + o, "write%d:error %d ", i, plan.w[i].err);
		else if (plan.w[i].kind) o += sprintf(b + o, "write%d:%s ", i, plan.w[i].kind == W_SHORT ? "short" : plan.w[i].kind == W_VEC ? "at a vector" : "EINTR");
	}
	if (plan.failmalloc) o += sprintf(b + o, "malloc %d fails ", plan.failmalloc);
	sprintf(b + o, "then reads %s, writes %s", tn[plan.rtail], tn[plan.wtail]);
	return b;
}

static void gen_plan (bool allow_errors)
{
	static const int werr[] = { EIO, ENOSPC, EPIPE, EAGAIN, EBADF, EFBIG, EINVAL };
	static const int rerr[] = { EIO, EISDIR, EBADF, EAGAIN, ENOMEM };
	memset(&plan, 0, sizeof plan);
	plan.salt = pbt_draw(UINT64_MAX);
	plan.nw = (int)pbt_draw(pbt_chance(1, 3) ? NP : 6);
	plan.nr = (int)pbt_draw(pbt_chance(1, 4) ? NP : 4);
	unsigned mix = (unsigned)pbt_draw(4);
	bool we = allow_errors && pbt_chance(1, 2), re = allow_errors && pbt_chance(1, 3);
	for (int i = 0; i < plan.nw; i++) {
		uint64_t k = pbt_draw(8);
		plan.w[i].kind = k < 1 ? W_FULL : mix == 0 ? W_SHORT : mix == 1 ? (k & 1 ? W_VEC : W_EINTR) : mix == 2 ? (k < 4 ? W_EINTR : W_SHORT) : k < 3 ? W_SHORT : k < 6 ? W_VEC : W_EINTR;
		if (we && i == plan.nw - 1) plan.w[i].kind = W_ERR;
		plan.w[i].v = pbt_draw(UINT64_MAX);
		plan.w[i].err = werr[pbt_draw(7)];
	}
	for (int i = 0; i < plan.nr; i++) {
		plan.r[i].kind = pbt_chance(3, 4) ? R_SHORT : R_FULL;
		if (re && i == plan.nr - 1) plan.r[i].kind = R_ERR;
		plan.r[i].v = pbt_draw(UINT64_MAX);
		plan.r[i].err = rerr[pbt_draw(5)];
	}
	plan.wtail = (enum tail)pbt_draw(5);
	plan.rtail = (enum tail)pbt_draw(3);
	plan.sticky = pbt_draw(2);
	if (allow_errors && pbt_chance(1, 12)) plan.failmalloc = 1 + (int)pbt_draw(2);
}

static void run_case (const struct spec *s, bool asfile, bool dash)
{
	char *av[12], wb[40];
	int k = 0;
	av[k++] = "base64";
	if (s->decode) av[k++] = "-d";
	if (s->ignore) av[k++] = "-i";
	if (s->nostrip) av[k++] = "-n";
	if (s->wrap != NOWRAP) { snprintf(wb, sizeof wb, "-w%zu", s->wrap); av[k++] = wb; }
	if (asfile) av[k++] = "the-file";
	else if (dash) av[k++] = "-";
	av[k] = NULL;
	int err = memfd_create("err", MFD_CLOEXEC);
	memset(sh, 0, offsetof(struct shm, out));
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(98); }
	if (pid == 0) {
		static const int sigs[] = { SIGSEGV, SIGILL, SIGBUS, SIGFPE, SIGABRT };
		struct rlimit rl = { 60, 60 };
		setrlimit(RLIMIT_CPU, &rl);
		for (int i = 0; i < 5; i++) signal(sigs[i], SIG_DFL);
		dup2(err, 2);
		errout = 2;
		cookie_io_functions_t f = { .write = ck_write };
		stdin = in_stream();
		stdout = fopencookie(NULL, "w", f);
		int r = b64_main(k, av);
		fflush(NULL);
		sh->done = 1;
		_exit(r);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	char et[1001];
	ssize_t r = pread(err, et, sizeof et - 1, 0);
	et[r > 0 ? r : 0] = 0;
	close(err);
	pbt_eval(1);
	#define WHAT (sh->hard_w ? "after a failed write" : sh->hard_r ? "after a failed read" : sh->hard_m ? "without memory" : "with short and interrupted calls")
	if (!WIFEXITED(st)) pbt_fail("the tool crashed %s (signal %d)", WHAT, WTERMSIG(st));
	if (strstr(et, "Sanitizer")) pbt_fail("sanitizer report %s: %s", WHAT, et);
	bool ok = want_ok && !sh->hard_w && !sh->hard_r && !sh->hard_m;
	size_t m = sh->outn < wantn ? sh->outn : wantn, d = diff_at(sh->out, want, m);
	if (sh->bad_iov) pbt_fail("writev was called with more than IOV_MAX vectors");
	if (ok) {
		if (WEXITSTATUS(st)) pbt_fail("exit status %d %s, must be 0; stderr: %s", WEXITSTATUS(st), WHAT, et);
		if (sh->outn != wantn || d < m) pbt_fail("wrong output %s: %zu bytes, must be %zu; they differ at offset %zu", WHAT, sh->outn, wantn, d);
	} else {
		if (WEXITSTATUS(st) == 0) pbt_fail("exits with 0 %s", WHAT);
		if (!et[0]) pbt_fail("no message on standard error %s", WHAT);
		if (sh->outn > wantn || d < m) pbt_fail("the %zu bytes written %s are not a prefix of the correct output (%zu bytes), differ at %zu", sh->outn, WHAT, wantn, d);
	}
	pbt_class(sh->hard_w ? "failed write" : sh->hard_r ? "failed read" : sh->hard_m ? "failed malloc" : sh->short_w || sh->eintr_w ? "short or interrupted writes" : "no disturbed write");
	if (sh->eintr_w) pbt_class("EINTR");
	if (sh->short_w || sh->eintr_w || sh->hard_w || sh->hard_r || sh->hard_m) {
		pbt_hit(pbt_hash(pbt_hash(pbt_mix(inpn), s, sizeof *s), &plan, sizeof plan));
		pbt_sample("base64 %son %zu bytes: %s -> exit %d", spec_str(s), inpn, plan_str(), WEXITSTATUS(st));
	}
}

static void p_fault (void)
{
	struct spec s;
	size_t max = pbt_param_u("maxraw", 5 * MIB / 2);
	switch (pbt_draw(8)) {
	case 0: case 1: case 2: case 3: gen_encode(&s, max); break;
	case 4: case 5: gen_decode(&s, max); break;
	case 6: gen_garbage(&s, max); break;
	default: gen_malformed(&s, max); break;
	}
	model(&s);
	gen_plan(pbt_chance(1, 2));
	bool asfile = pbt_chance(1, 3), dash = pbt_chance(1, 4);
	pbt_note("base64 %s%s, %zu bytes in %s; %s", spec_str(&s), asfile ? "FILE" : "", inpn, pbt_hex(inp, inpn), plan_str());
	run_case(&s, asfile, dash);
}

// An error at each call in turn, after short ones, for a few small runs.
static void p_faultexh (void)
{
	uint64_t e = pbt_enum(2 * 6 * 5 * 30);
	struct spec s = { .wrap = NOWRAP };
	bool dec = e & 1; e /= 2;
	unsigned what = (unsigned)(e % 6); e /= 6;
	unsigned style = (unsigned)(e % 5); e /= 5;
	unsigned at = (unsigned)e;
	static const size_t wraps[] = { 76, 4, 1, 0, 7 };
	size_t n = 40;
	for (size_t i = 0; i < n; i++) raw[i] = (unsigned char)(i * 37 + style);
	if (dec) {
		s.decode = true;
		size_t k = ref_encode(raw, n, (char *)got);
		inpn = 0;
		for (size_t i = 0; i < k; i++) { inp[inpn++] = got[i]; if (wraps[style] && i % wraps[style] == wraps[style] - 1) inp[inpn++] = '\n'; }
	} else { memcpy(inp, raw, n); inpn = n; s.wrap = wraps[style]; }
	model(&s);
	memset(&plan, 0, sizeof plan);
	plan.salt = 5;
	plan.wtail = plan.rtail = T_TINY;
	plan.sticky = what & 1;
	if (what < 2) {	// a write
		plan.nw = (int)at + 1;
		for (int i = 0; i < plan.nw; i++) { plan.w[i].kind = i & 1 ? W_VEC : W_SHORT; plan.w[i].v = pbt_mix(at * 100 + (uint64_t)i) % 4; }
		plan.w[at].kind = W_ERR; plan.w[at].err = EIO;
	} else if (what < 4) {
		plan.nr = (int)at + 1;
		for (int i = 0; i < plan.nr; i++) { plan.r[i].kind = R_SHORT; plan.r[i].v = pbt_mix(at * 100 + (uint64_t)i) % 3; }
		plan.r[at].kind = R_ERR; plan.r[at].err = EIO;
	} else if (what == 4) plan.failmalloc = 1 + (int)(at % 3);
	else {	// interrupted once here
		plan.nw = (int)at + 1;
		for (int i = 0; i < plan.nw; i++) { plan.w[i].kind = W_SHORT; plan.w[i].v = 0; }
		plan.w[at].kind = W_EINTR;
	}
	pbt_note("base64 %s, %zu bytes in %s; %s", spec_str(&s), inpn, pbt_hex(inp, inpn), plan_str());
	run_case(&s, false, false);
}

const struct pbt_prop pbt_props[] = { { "fault", p_fault }, { "fault_exh", p_faultexh }, { NULL, NULL } };

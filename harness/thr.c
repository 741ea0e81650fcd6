// C09: calls at the same time. Three ways to find interference:
//  thr     threads running generated calls, the first use of the library included
//  thr (ThreadSanitizer build)  the same, looking for conflicting accesses
//  step    one call is stopped after every instruction (trap flag) and another
//          thread's runs to its end in between: schedules with one preemption
// C24: calls made from inside calls, by a signal handler of the same thread:
//  nest    at instructions chosen with the trap flag, to a depth of three
//  alarm   whenever a timer fires (any platform)
#define _GNU_SOURCE
#include "common.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#define NOPS 400
#define POOL (4u << 20)
enum kind { ENC, DEC, SENC, SDEC, BAD };
struct op {
	enum kind kind;
	int flag, ret;		// ret: what decoding must return
	unsigned nchunks, chunk;
	size_t n, wn;
	unsigned char *in, *want;
};
static unsigned char *pool; static size_t poolpos;
static struct shm { char msg[900]; volatile unsigned go; uint64_t calls, steps; } *sh;
static bool warm;

void pbt_setup (void)
{
	common_setup();
	pool = malloc(POOL);
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (!pool || sh == MAP_FAILED) abort();
	warm = pbt_param_u("warm", 0);
	if (warm) {	// see DESIGN.md: the choice of the default codec is not synchronised, but idempotent
		char o[8]; size_t n;
		base64_encode("abc", 3, o, &n, 0);
		base64_decode("YWJj", 4, o, &n, 0);
	}
}

static unsigned char *take (size_t n) { unsigned char *p = pool + poolpos; poolpos += (n + 64) & ~(size_t)15; if (poolpos > POOL) abort(); return p; }

static void gen_op (struct op *o, size_t max)
{
	o->kind = (enum kind)pbt_draw(5);
	o->flag = codecs[gen_codec()].flag;
	size_t n = pbt_draw(3) ? pbt_draw(max / 4 + 1) : pbt_draw(max + 1);
	o->chunk = 1 + (unsigned)pbt_draw(n + 8);
	uint64_t s = pbt_draw(UINT64_MAX);
	unsigned char *data = take(n);
	for (size_t i = 0; i < n; i++) { s = pbt_mix(s); data[i] = (unsigned char)s; }
	unsigned char *text = take(ref_enclen(n));
	size_t tn = ref_encode(data, n, (char *)text);
	o->ret = 1;
	if (o->kind == ENC || o->kind == SENC) { o->in = data; o->n = n; o->want = text; o->wn = tn; }
	else {
		if (o->kind == BAD) {
			size_t p = tn ? pbt_draw(tn) : 0;
			if (tn) text[p] = "!=-\n\x80"[pbt_draw(5)];
			size_t w;
			unsigned char *out = take(tn);
			o->ret = ref_decode(text, tn, out, &w);
			data = out; n = w;
		}
		o->in = text; o->n = tn; o->want = data; o->wn = n;
	}
}

static void bad (const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	char b[900];
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (!sh->msg[0]) strcpy(sh->msg, b);
	_exit(1);
}

static const char *kinds[] = { "base64_encode", "base64_decode", "stream encode", "stream decode", "base64_decode" };

// Makes the call and checks what it gives. out: private space.
static void do_op (const struct op *o, unsigned char *out, const char *who)
{
	size_t ol = 12345, t = 0;
	int r = 1;
	struct base64_state st;
	switch (o->kind) {
	case ENC: base64_encode((const char *)o->in, o->n, (char *)out, &ol, o->flag); break;
	case DEC: case BAD: r = base64_decode((const char *)o->in, o->n, (char *)out, &ol, o->flag); break;
	case SENC:
		base64_stream_encode_init(&st, o->flag);
		for (size_t i = 0; i < o->n; i += o->chunk) {
			size_t c = o->n - i < o->chunk ? o->n - i : o->chunk;
			base64_stream_encode(&st, (const char *)o->in + i, c, (char *)out + t, &ol);
			t += ol;
		}
		base64_stream_encode_final(&st, (char *)out + t, &ol);
		ol += t;
		break;
	case SDEC:
		base64_stream_decode_init(&st, o->flag);
		for (size_t i = 0; i < o->n && r == 1; i += o->chunk) {
			size_t c = o->n - i < o->chunk ? o->n - i : o->chunk;
			r = base64_stream_decode(&st, (const char *)o->in + i, c, (char *)out + t, &ol);
			t += ol;
		}
		ol = t;
		break;
	}
	if (r != o->ret) bad("%s: %s (flags %#x) of %zu bytes returns %d, must be %d", who, kinds[o->kind], (unsigned)o->flag, o->n, r, o->ret);
	if (r == 1 && (ol != o->wn || memcmp(out, o->want, ol))) {
		size_t d = 0;
		while (d < ol && d < o->wn && out[d] == o->want[d]) d++;
		bad("%s: %s (flags %#x) of %zu bytes gives a wrong result: length %zu, must be %zu; differs at %zu", who, kinds[o->kind], (unsigned)o->flag, o->n, ol, o->wn, d);
	}
}

static void in_child (void (*fn)(void))
{
	sh->msg[0] = 0; sh->go = 0; sh->calls = sh->steps = 0;
	int err = memfd_create("err", MFD_CLOEXEC);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(98); }
	if (pid == 0) {
		static const int sigs[] = { SIGSEGV, SIGILL, SIGBUS, SIGFPE, SIGABRT };
		struct rlimit rl = { 120, 120 };
		setrlimit(RLIMIT_CPU, &rl);
		for (int i = 0; i < 5; i++) signal(sigs[i], SIG_DFL);
		if (err >= 0) dup2(err, 2);
		fn();
		_exit(0);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	char et[1500];
	ssize_t r = err >= 0 ? pread(err, et, sizeof et - 1, 0) : 0;
	et[r > 0 ? r : 0] = 0;
	if (err >= 0) close(err);
	pbt_eval(sh->calls);
	if (WIFSIGNALED(st)) pbt_fail("crashed with signal %d while calls overlapped", WTERMSIG(st));
	if (WEXITSTATUS(st) == 66) pbt_fail("ThreadSanitizer: conflicting accesses: %.1200s", et);
	if (WEXITSTATUS(st) == 1) pbt_fail("%s", sh->msg);
	if (WEXITSTATUS(st)) { fprintf(stderr, "child exit %d: %s\n", WEXITSTATUS(st), et); exit(98); }
}

// ---------------------------------------------------------------- threads

static struct { unsigned nops, reps; struct op op[12]; unsigned char *out; } th[8];
static unsigned nthreads;

static void *thread (void *p)
{
	unsigned i = (unsigned)(uintptr_t)p;
	char who[40];
	snprintf(who, sizeof who, "thread %u of %u", i, nthreads);
	__atomic_add_fetch(&sh->go, 1, __ATOMIC_SEQ_CST);
	for (unsigned k = 0; __atomic_load_n(&sh->go, __ATOMIC_SEQ_CST) < nthreads; k++) if (k > 2000) sched_yield();
	for (unsigned r = 0; r < th[i].reps; r++)
		for (unsigned k = 0; k < th[i].nops; k++) do_op(&th[i].op[k], th[i].out, who);
	__atomic_add_fetch(&sh->calls, th[i].reps * th[i].nops, __ATOMIC_SEQ_CST);
	return NULL;
}
static void threads (void)
{
	pthread_t t[8];
	for (unsigned i = 0; i < nthreads; i++) if (pthread_create(&t[i], NULL, thread, (void *)(uintptr_t)i)) _exit(98);
	for (unsigned i = 0; i < nthreads; i++) pthread_join(t[i], NULL);
}

static void p_thr (void)
{
	poolpos = 0;
	nthreads = 2 + (unsigned)pbt_draw(pbt_param_u("maxthreads", 8) - 1);
	bool first = pbt_chance(1, 2);		// nothing but a first call
	size_t max = first ? 100 : pbt_chance(1, 3) ? 6000 : 600;
	uint64_t h = nthreads;
	for (unsigned i = 0; i < nthreads; i++) {
		th[i].nops = first ? 1 : 1 + (unsigned)pbt_draw(8);
		th[i].reps = first ? 1 : 1 + (unsigned)pbt_draw(max > 1000 ? 20 : 100);
		for (unsigned k = 0; k < th[i].nops; k++) {
			gen_op(&th[i].op[k], max);
			h = pbt_mix(h ^ th[i].op[k].n ^ (uint64_t)th[i].op[k].flag << 32 ^ (uint64_t)th[i].op[k].kind << 48);
		}
		th[i].out = take(20000);
	}
	pbt_note("%u threads, %s; thread 0: %s flags %#x of %zu bytes ...", nthreads, warm ? "library used before" : "first use in the threads", kinds[th[0].op[0].kind], (unsigned)th[0].op[0].flag, th[0].op[0].n);
	in_child(threads);
	pbt_class(first ? "first calls only" : "runs of calls");
	pbt_hit(h);
	pbt_sample("%u threads of %u.. calls, thread 0: %s flags %#x of %zu bytes", nthreads, th[0].reps * th[0].nops, kinds[th[0].op[0].kind], (unsigned)th[0].op[0].flag, th[0].op[0].n);
}

// ---------------------------------------------------------------- stepping

static struct op A, B[3];
static unsigned nB;
static unsigned char *outA, *outB[3];
static void gen_ops (bool *first, size_t max_first, size_t max)
{
	poolpos = 0;
	*first = pbt_chance(1, 2) && !warm;
	if (pbt_chance(1, 8)) max *= 5;
	gen_op(&A, *first ? max_first : max);
	nB = 1 + (unsigned)pbt_draw(3);
	for (unsigned i = 0; i < nB; i++) gen_op(&B[i], 300);
	if (*first && pbt_chance(3, 4)) { A.flag = 0; B[0].flag = 0; }
	outA = take(max * 2 + 1000);
	for (unsigned i = 0; i < 3; i++) outB[i] = take(1000);
}
static uint64_t ops_hash (void) { return pbt_mix(pbt_mix(pbt_mix(A.n * 8 + A.kind) ^ B[0].n * 8 ^ B[0].kind) ^ (uint64_t)A.flag << 32 ^ (uint64_t)B[0].flag << 42); }
static void handler_for (int sig, void (*fn)(int, siginfo_t *, void *), int flags)
{
	static unsigned char alt[1 << 18];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = fn;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART | flags;
	sigaction(sig, &sa, NULL);
}

#if defined(__x86_64__) || defined(__i386__)
#if defined(__x86_64__)
#define TRAP_ON __asm__ volatile ("sub $128, %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc")
#define TRAP_OFF __asm__ volatile ("sub $128, %%rsp\n\tpushfq\n\tandq $-257, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc")
#else
#define TRAP_ON __asm__ volatile ("pushfl\n\torl $0x100, (%%esp)\n\tpopfl" ::: "memory", "cc")
#define TRAP_OFF __asm__ volatile ("pushfl\n\tandl $-257, (%%esp)\n\tpopfl" ::: "memory", "cc")
#endif
static uint64_t stop_at, stride, maxsteps;	// stop_at ~0: at every stride-th step
static volatile uint64_t step;

// The other thread. A call of its own may have to wait for the stopped one
// (if the library used locks), so it is waited for only so long.
static volatile unsigned posted, done;
static void *other (void *p)
{
	(void)p;
	for (unsigned n = 0, idle = 0; ; ) {
		if (__atomic_load_n(&posted, __ATOMIC_ACQUIRE) == n) { if (++idle > 200) sched_yield(); continue; }
		idle = 0;
		do_op(&B[n % nB], outB[0], "the call in between");
		__atomic_store_n(&done, ++n, __ATOMIC_RELEASE);
	}
	return NULL;
}
static bool finished (unsigned ms)
{
	for (unsigned i = 0; i < 2000; i++) if (__atomic_load_n(&done, __ATOMIC_ACQUIRE) == posted) return true;
	for (unsigned i = 0; i < ms * 10; i++) {
		for (unsigned k = 0; k < 20; k++) { sched_yield(); if (__atomic_load_n(&done, __ATOMIC_ACQUIRE) == posted) return true; }
		usleep(100);
	}
	return false;
}
static void on_trap (int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)si;
	uint64_t k = step++;
	bool here = stop_at == ~0ULL ? k % stride == 0 : k == stop_at;
	if (here && __atomic_load_n(&done, __ATOMIC_ACQUIRE) == posted) {
		__atomic_store_n(&posted, posted + 1, __ATOMIC_RELEASE);
		finished(50);
		sh->calls++;
	}
	if ((stop_at != ~0ULL && k >= stop_at) || k > maxsteps)
		((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
}
static void stepping (void)
{
	pthread_t t;
	if (pthread_create(&t, NULL, other, NULL)) _exit(98);
	handler_for(SIGTRAP, on_trap, 0);
	TRAP_ON;
	do_op(&A, outA, "the interrupted call");
	TRAP_OFF;
	if (!finished(20000)) bad("the call in between never ends");
	sh->calls++;
	sh->steps = step;
}

static void p_step (void)
{
	bool first;
	gen_ops(&first, 60, 300);
	stop_at = first ? pbt_draw(pbt_chance(1, 2) ? 150 : 700) : ~0ULL;
	stride = first ? 1 : 1 + pbt_draw(3);
	if (A.n > 300) stride *= 5;
	maxsteps = 20000;
	step = 0;
	posted = done = 0;
	pbt_note("%s flags %#x of %zu bytes (chunks of %u), stopped %s for %s flags %#x of %zu bytes in another thread%s", kinds[A.kind], (unsigned)A.flag, A.n, A.chunk, first ? "once" : "at every instruction", kinds[B[0].kind], (unsigned)B[0].flag, B[0].n, first ? ", first use" : "");
	in_child(stepping);
	pbt_class(first ? "stopped once during the first use" : "stopped at every instruction");
	bool hit = sh->calls >= 2;
	if (!hit) pbt_class("ended before the stop");
	if (hit) {
		pbt_hit(ops_hash() ^ stop_at);
		pbt_sample("%s flags %#x of %zu bytes, stopped %s (%llu instructions seen), %s flags %#x of %zu bytes in another thread", kinds[A.kind], (unsigned)A.flag, A.n, first ? "once" : "all along", (unsigned long long)sh->steps, kinds[B[0].kind], (unsigned)B[0].flag, B[0].n);
	}
}

// One level of nesting: the call A, or a call of a handler.
static struct { volatile uint64_t step; uint64_t at, stride; } lv[3];
static volatile unsigned level;
static unsigned depth;	// levels that are stepped

static void on_nest (int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)si;
	unsigned l = level;
	uint64_t k = lv[l].step++;
	bool here = lv[l].at == ~0ULL ? k % lv[l].stride == 0 : k == lv[l].at;
	if (here) {
		const struct op *o = &B[(l + k / lv[l].stride) % nB];
		if (l + 1 < depth) {
			level = l + 1;
			lv[l + 1].step = 0;
			TRAP_ON;
			do_op(o, outB[l], "a call inside a call");
			TRAP_OFF;
			level = l;
		} else do_op(o, outB[l], "a call inside a call");
		sh->calls++;
	}
	if ((lv[l].at != ~0ULL && k >= lv[l].at) || k > maxsteps)
		((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
}
static void nesting (void)
{
	handler_for(SIGTRAP, on_nest, SA_NODEFER);
	alarm(15);	// a call that waits for the one it interrupts
	level = 0;
	TRAP_ON;
	do_op(&A, outA, "the interrupted call");
	TRAP_OFF;
	alarm(0);
	sh->calls++;
	sh->steps = lv[0].step;
}
static void p_nest (void)
{
	bool first;
	gen_ops(&first, 60, 300);
	depth = 1 + (unsigned)pbt_draw(3);
	maxsteps = 20000;
	for (unsigned i = 0; i < 3; i++) {
		lv[i].step = 0;
		bool once = pbt_chance(1, 2) || i > 0 || (first && depth > 1);
		uint64_t a = pbt_draw(pbt_chance(1, 2) ? 150 : 1200), b = 1 + pbt_draw(3);
		lv[i].at = once ? a : ~0ULL;
		lv[i].stride = depth > 1 ? b * 40 : A.n > 300 ? b * 5 : b;
	}
	// after an interruption the library has been used: one is all there is
	if (first) lv[0].at = pbt_draw(pbt_chance(1, 2) ? 150 : 700);
	bool once = lv[0].at != ~0ULL;
	pbt_note("%s flags %#x of %zu bytes (chunks of %u), interrupted %s by %s flags %#x of %zu bytes, depth %u%s", kinds[A.kind], (unsigned)A.flag, A.n, A.chunk, once ? "once" : "all along", kinds[B[0].kind], (unsigned)B[0].flag, B[0].n, depth, first ? ", first use" : "");
	in_child(nesting);
	pbt_class(first ? "interrupted during the first use" : once ? "interrupted once" : "interrupted all along");
	if (sh->calls < 2) { pbt_class("ended before the interruption"); return; }
	pbt_hit(ops_hash() ^ lv[0].at ^ (uint64_t)depth << 60);
	pbt_class(depth == 1 ? "depth 1" : depth == 2 ? "depth 2" : "depth 3");
	pbt_sample("%s flags %#x of %zu bytes, interrupted %s (%llu calls in %llu instructions) by %s flags %#x of %zu bytes, depth %u", kinds[A.kind], (unsigned)A.flag, A.n, once ? "once" : "all along", (unsigned long long)sh->calls, (unsigned long long)sh->steps, kinds[B[0].kind], (unsigned)B[0].flag, B[0].n, depth);
}
#else
static void p_step (void) { pbt_eval(1); }
static void p_nest (void) { pbt_eval(1); }
#endif

static volatile unsigned fired;
static void on_alarm (int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)si; (void)uc;
	do_op(&B[fired % nB], outB[0], "a call inside a call");
	fired++;
	sh->calls++;
}
static void alarming (void)
{
	unsigned us = 40 + (unsigned)(A.n % 160);
	struct itimerval it = { { 0, us }, { 0, us } };
	struct timespec t0, t;
	handler_for(SIGALRM, on_alarm, 0);
	fired = 0;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	setitimer(ITIMER_REAL, &it, NULL);
	do {
		do_op(&A, outA, "the interrupted call");
		clock_gettime(CLOCK_MONOTONIC, &t);
	} while (fired < 400 && (t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000 < 150);
	memset(&it, 0, sizeof it);
	setitimer(ITIMER_REAL, &it, NULL);
	sh->calls++;
}
static void p_alarm (void)
{
	bool first;
	gen_ops(&first, 3000, 3000);
	pbt_note("%s flags %#x of %zu bytes (chunks of %u), interrupted by a timer for %s flags %#x of %zu bytes", kinds[A.kind], (unsigned)A.flag, A.n, A.chunk, kinds[B[0].kind], (unsigned)B[0].flag, B[0].n);
	in_child(alarming);
	pbt_class("interrupted by a timer");
	if (sh->calls > 1) pbt_hit(ops_hash());
}

const struct pbt_prop pbt_props[] = { { "thr", p_thr }, { "step", p_step }, { "nest", p_nest }, { "alarm", p_alarm }, { NULL, NULL } };

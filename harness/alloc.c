// C14: no dynamic memory, and a small stack. Calls run on a stack of their own.
// alloc_paint: the stack is painted before, the lowest touched byte is found after.
// alloc_step: (x86) the calls are single-stepped and the lowest stack pointer is recorded.
#define _GNU_SOURCE
#include "common.h"
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#if defined(__x86_64__) || defined(__i386__)
#  define X86HOST 1
#  include <linux/audit.h>
#  include <linux/filter.h>
#  include <linux/seccomp.h>
#endif

static unsigned LIMIT;	// bytes of stack a call may use
#define SSIZE (256u << 10)	// stack of the calls

// ---------------------------------------------------------------- allocators

static volatile int armed;
static const char *volatile offence;
static unsigned char *arena; static size_t arena_n, arena_cap;

static void seen (const char *w) { if (armed && !offence) offence = w; }

static void *raw_map (size_t n)
{
#ifdef SYS_mmap2
	return (void *)syscall(SYS_mmap2, NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#elif defined(__s390x__)
	unsigned long a[6] = { 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, (unsigned long)-1, 0 };
	return (void *)syscall(SYS_mmap, a);
#else
	return (void *)syscall(SYS_mmap, NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#endif
}
static void *take (size_t al, size_t n)
{
	if (al < 16) al = 16;
	if (!arena) { arena_cap = 192u << 20; arena = raw_map(arena_cap); if (arena == MAP_FAILED) _exit(97); }
	size_t at = ((arena_n + 16 + al - 1) & ~(al - 1));
	if (n > arena_cap || at + n > arena_cap) { errno = ENOMEM; return NULL; }
	memcpy(arena + at - sizeof n, &n, sizeof n);
	arena_n = at + n;
	return arena + at;
}
void *malloc (size_t n) { seen("malloc"); return take(16, n); }
void free (void *p) { if (p) seen("free"); }
void *calloc (size_t a, size_t b) { seen("calloc"); return take(16, a * b); }	// the arena is zero and never reused
void *realloc (void *p, size_t n)
{
	seen("realloc");
	void *q = take(16, n);
	if (p && q) { size_t o; memcpy(&o, (char *)p - sizeof o, sizeof o); memcpy(q, p, o < n ? o : n); }
	return q;
}
void *memalign (size_t a, size_t n) { seen("memalign"); return take(a, n); }
void *aligned_alloc (size_t a, size_t n) { seen("aligned_alloc"); return take(a, n); }
int posix_memalign (void **p, size_t a, size_t n) { seen("posix_memalign"); *p = take(a, n); return *p ? 0 : ENOMEM; }
void *valloc (size_t n) { seen("valloc"); return take(4096, n); }
void *pvalloc (size_t n) { seen("pvalloc"); return take(4096, (n + 4095) & ~(size_t)4095); }
size_t malloc_usable_size (void *p) { size_t o = 0; if (p) memcpy(&o, (char *)p - sizeof o, sizeof o); return o; }

// System calls that get memory, seen by a filter when there is one.
static int *filtered;	// shared
#ifdef X86HOST
static void on_sys (int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)uc;
	seen("a system call that maps memory");
	(void)si;
}
static void install_filter (void)
{
	static const int nr[] = { SYS_mmap, SYS_brk, SYS_mremap, SYS_munmap, SYS_mprotect, SYS_madvise,
#ifdef SYS_mmap2
		SYS_mmap2,
#endif
		SYS_memfd_create, SYS_shmat
	};
	enum { N = sizeof nr / sizeof *nr };
	struct sock_filter f[N + 3];
	f[0] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (int i = 0; i < N; i++) f[1 + i] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr[i], N - i, 0);
	f[N + 1] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	f[N + 2] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	struct sock_fprog p = { N + 3, f };
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_sys;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGSYS, &sa, NULL);
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0) *filtered = 1;
}
#else
static void install_filter (void) {}
#endif

// ---------------------------------------------------------------- the calls

#define BIGN (24u << 20)
static unsigned char *src, *out, *txt;	// big, filled with 'A'
static unsigned char *stk;

enum { ENC, DEC, SENC, SDEC, NOP };
static const char *opname[] = { "base64_encode", "base64_decode", "stream encode", "stream decode" };
struct call { int op, codec; size_t n, off; bool init; const unsigned char *in; unsigned char chunk; };
static struct call calls[8]; static int ncalls;
static struct result { size_t used; } res[8];
static struct base64_state est, dst;

static void work (const struct call *c)
{
	size_t ol = 0;
	char *o = (char *)out;
	int fl = codecs[c->codec].flag;
	switch (c->op) {
	case ENC: base64_encode((const char *)c->in, c->n, o, &ol, fl); break;
	case DEC: base64_decode((const char *)c->in, c->n, o, &ol, fl); break;
	case SENC:
		if (c->init) base64_stream_encode_init(&est, fl);
		base64_stream_encode(&est, (const char *)c->in, c->n, o, &ol);
		if (c->chunk & 1) base64_stream_encode_final(&est, o, &ol);
		break;
	default:
		if (c->init) base64_stream_decode_init(&dst, fl);
		base64_stream_decode(&dst, (const char *)c->in, c->n, o, &ol);
	}
}

static ucontext_t home, away;
static volatile uintptr_t top, lowest;
static volatile int stepping;

#ifdef X86HOST
#  ifdef __x86_64__
#    define SPREG REG_RSP
#    define TF_ON  __asm__ volatile ("sub $128, %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc")
#    define TF_OFF __asm__ volatile ("sub $128, %%rsp\n\tpushfq\n\tandq $-257, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc")
#  else
#    define SPREG REG_ESP
#    define TF_ON  __asm__ volatile ("pushfl\n\torl $0x100, (%%esp)\n\tpopfl" ::: "memory", "cc")
#    define TF_OFF __asm__ volatile ("pushfl\n\tandl $-257, (%%esp)\n\tpopfl" ::: "memory", "cc")
#  endif
static void on_trap (int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)si;
	uintptr_t sp = (uintptr_t)((ucontext_t *)uc)->uc_mcontext.gregs[SPREG];
	if (sp < lowest) lowest = sp;
}
#else
#  define TF_ON
#  define TF_OFF
#endif

static const struct call *cur;
static void __attribute__((noinline)) go (void)
{
	unsigned char here;
	top = (uintptr_t)&here;
	armed = 1;
	if (stepping) { TF_ON; work(cur); TF_OFF; }
	else work(cur);
	armed = 0;
}

static size_t on_stack (const struct call *c)
{
	if (!stepping) memset(stk, 0xA5, SSIZE);
	getcontext(&away);
	away.uc_stack.ss_sp = stk;
	away.uc_stack.ss_size = SSIZE;
	away.uc_link = &home;
	makecontext(&away, go, 0);
	cur = c;
	lowest = (uintptr_t)stk + SSIZE;
	swapcontext(&home, &away);
	if (stepping) return top - lowest;
	size_t i = 0;
	while (i < SSIZE && stk[i] == 0xA5) i++;
	uintptr_t low = (uintptr_t)stk + i;
	return top > low ? top - low : 0;
}

static unsigned char *rnd, *rtext;
#define RMAX (1u << 20)

void pbt_setup (void)
{
	common_setup();
	LIMIT = (unsigned)pbt_param_u("limit", 16384);
	src = raw_map(BIGN); out = raw_map(BIGN / 3 * 4 + 64);
	rnd = raw_map(RMAX); rtext = raw_map(RMAX * 2);
	unsigned char *m = raw_map(SSIZE + 8192);
	mprotect(m, 4096, PROT_NONE);
	stk = m + 4096;
	mprotect(stk + SSIZE, 4096, PROT_NONE);
	memset(src, 'A', BIGN);
	txt = src;
	filtered = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(out, 0, BIGN / 3 * 4 + 64);
}

static size_t text_len;
static void gen_calls (size_t max, bool big)
{
	ncalls = 1 + (int)pbt_draw(4);
	gen_bytes(rnd, max);
	text_len = gen_text(rtext, max);
	if (pbt_chance(1, 4)) text_len = gen_mutate(rtext, text_len, RMAX);
	bool ei = false, di = false;
	for (int i = 0; i < ncalls; i++) {
		struct call *c = &calls[i];
		memset(c, 0, sizeof *c);
		c->op = (int)pbt_draw(NOP);
		c->codec = pbt_chance(1, 12) ? 1 + (int)pbt_draw(9) : gen_codec();
		if (codecs[c->codec].cannot) c->codec = 0;
		bool dec = c->op == DEC || c->op == SDEC;
		if (big && pbt_chance(1, 2)) { c->in = src; c->n = BIGN - pbt_draw(1 << 16); if (dec) c->n &= ~(size_t)3; }
		else {
			size_t cap = dec ? text_len : max;
			c->n = dec && pbt_chance(2, 3) ? text_len : gen_len(cap);
			c->in = dec ? rtext : rnd;
			if (c->n < cap && pbt_chance(1, 2)) c->in += pbt_draw(cap - c->n + 1);
		}
		c->chunk = (unsigned char)pbt_draw(4);
		c->init = pbt_chance(1, 3);
		if (c->op == SENC && !ei) c->init = ei = true;
		if (c->op == SDEC && !di) c->init = di = true;
	}
}

static void note (const char *how)
{
	const struct call *c = &calls[0];
	pbt_note("%s; %d calls; first %s, codec %s, %zu bytes", how, ncalls, opname[c->op], codecs[c->codec].name, c->n);
}

static void conclude (const char *how)
{
	uint64_t h = ncalls;
	size_t most = 0;
	bool nontriv = false;
	for (int i = 0; i < ncalls; i++) {
		const struct call *c = &calls[i];
		pbt_eval(1);
		if (res[i].used > LIMIT) pbt_fail("%s: call %d, %s with codec %s and %zu bytes uses %zu bytes of stack (limit %u)", how, i, opname[c->op], codecs[c->codec].name, c->n, res[i].used, LIMIT);
		if (res[i].used > most) most = res[i].used;
		h = pbt_hash(h * 31 + (uint64_t)c->op * 16 + (uint64_t)c->codec, &c->n, sizeof c->n);
		if (c->n >= 48) nontriv = true;
		if (c->in == src) pbt_class("more than 16 MiB");
		pbt_class(opname[c->op]);
	}
	pbt_class(most < 512 ? "stack < 512" : most < 1024 ? "stack < 1024" : most < 2048 ? "stack < 2048" : most < 4096 ? "stack < 4096" : most < 8192 ? "stack < 8192" : "stack < 16384");
	if (nontriv) pbt_hit(h);
	if (pbt_want_sample()) pbt_sample("%s: %d calls, first %s codec=%s n=%zu; at most %zu bytes of stack", how, ncalls, opname[calls[0].op], codecs[calls[0].codec].name, calls[0].n, most);
}

static void p_paint (void)
{
	bool big = pbt_chance(1, (unsigned)pbt_param_u("big", 60));
	gen_calls(gen_len((size_t)pbt_param_u("maxlen", 300000)) + 1, big);
	note("painted stack");
	offence = NULL;
	stepping = 0;
	for (int i = 0; i < ncalls; i++) {
		res[i].used = on_stack(&calls[i]);
		if (offence) pbt_fail("call %d, %s with codec %s and %zu bytes: calls %s", i, opname[calls[i].op], codecs[calls[i].codec].name, calls[i].n, offence);
	}
	conclude("painted");
}

#ifdef X86HOST
// In a child, because of the filter. A batch of histories per case.
static struct sh { char msg[300]; struct result res[8]; } *shm;
static void p_step (void)
{
	static unsigned char *alt;
	if (!alt) {
		alt = raw_map(1 << 17);
		shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	}
	gen_calls(gen_len(3000) + 1, false);
	note("single-stepped");
	memset(shm, 0, sizeof *shm);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(98); }
	if (pid == 0) {
		stack_t ss = { .ss_sp = alt, .ss_size = 1 << 17 };
		sigaltstack(&ss, NULL);
		static const int sigs[] = { SIGSEGV, SIGILL, SIGBUS, SIGFPE, SIGABRT };
		for (int i = 0; i < 5; i++) signal(sigs[i], SIG_DFL);
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_sigaction = on_trap;
		sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
		sigaction(SIGTRAP, &sa, NULL);
		install_filter();
		stepping = 1;
		for (int i = 0; i < ncalls; i++) {
			shm->res[i].used = on_stack(&calls[i]);
			if (offence) { snprintf(shm->msg, sizeof shm->msg, "call %d, %s with codec %s and %zu bytes: %s%s", i, opname[calls[i].op], codecs[calls[i].codec].name, calls[i].n, "calls ", offence); _exit(1); }
		}
		_exit(0);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	if (WIFSIGNALED(st)) pbt_fail("crashed with signal %d", WTERMSIG(st));
	if (WEXITSTATUS(st)) pbt_fail("%s", shm->msg);
	memcpy(res, shm->res, sizeof res);
	pbt_class(*filtered ? "system calls filtered" : "no system call filter");
	conclude("stepped");
}
#else
static void p_step (void) {}
#endif

const struct pbt_prop pbt_props[] = { { "alloc_paint", p_paint }, { "alloc_step", p_step }, { NULL, NULL } };

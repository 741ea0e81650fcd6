// C10: which codec runs on which CPU. The program single-steps itself (trap
// flag), answers the CPUID and XGETBV instructions from a generated CPU, and
// stops as soon as code of a codec is entered: the objects of each codec have
// a text section of their own. Nothing needs to be executable on this CPU.
#define _GNU_SOURCE
#include "common.h"
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

enum { PLAIN, SSSE3, SSE41, SSE42, AVX, AVX2, AVX512, NEON32, NEON64, NC };
static const char *cname[NC] = { "plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512", "neon32", "neon64" };
static const int cflag[NC] = { BASE64_FORCE_PLAIN, BASE64_FORCE_SSSE3, BASE64_FORCE_SSE41, BASE64_FORCE_SSE42, BASE64_FORCE_AVX, BASE64_FORCE_AVX2, BASE64_FORCE_AVX512, BASE64_FORCE_NEON32, BASE64_FORCE_NEON64 };
#define SEC(x) extern char __start_text_##x[] __attribute__((weak)), __stop_text_##x[] __attribute__((weak));
SEC(plain) SEC(ssse3) SEC(sse41) SEC(sse42) SEC(avx) SEC(avx2) SEC(avx512) SEC(neon32) SEC(neon64)
#define RNG(x) { __start_text_##x, __stop_text_##x }
static struct { char *a, *b; } sec[NC];
static bool built[NC];

struct cpu {
	uint32_t maxleaf, junk;
	uint32_t l1[4], l7[4];	// eax ebx ecx edx
	uint64_t xcr0;
	uint32_t vendor;
};
static struct cpu cpu;
static struct shm { char msg[600]; int got[4]; int ncpuid, nxgetbv; int state; } *sh;

void pbt_setup (void)
{
	common_setup();
#define SET(i, x) sec[i].a = __start_text_##x; sec[i].b = __stop_text_##x;
	SET(PLAIN, plain) SET(SSSE3, ssse3) SET(SSE41, sse41) SET(SSE42, sse42) SET(AVX, avx) SET(AVX2, avx2) SET(AVX512, avx512) SET(NEON32, neon32) SET(NEON64, neon64)
	const char *h = pbt_param("have", "");
	built[PLAIN] = true;
	for (int i = 1; i < NC; i++) {
		char b[16];
		snprintf(b, sizeof b, ",%s,", cname[i]);
		built[i] = strstr(h, b) != NULL;
	}
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) abort();
}

static sigjmp_buf jb;
static volatile int found;
static volatile unsigned nsteps;

static void die (const char *m) { strcpy(sh->msg, m); _exit(1); }

static void emulate_cpuid (uint32_t r[4])	// eax ebx ecx edx
{
	uint32_t leaf = r[0], sub = r[2];
	uint64_t z = pbt_mix((uint64_t)leaf << 32 | sub) ^ cpu.junk;
	sh->ncpuid++;
	if (leaf == 0) {
		r[0] = cpu.maxleaf;
		if (cpu.vendor) { r[1] = 0x68747541; r[3] = 0x69746e65; r[2] = 0x444d4163; }
		else { r[1] = 0x756e6547; r[3] = 0x49656e69; r[2] = 0x6c65746e; }
		return;
	}
	if (leaf == 0x80000000u) { r[0] = 0x80000008u; r[1] = r[2] = r[3] = 0; return; }
	if (leaf <= cpu.maxleaf && leaf == 1) { memcpy(r, cpu.l1, 16); return; }
	if (leaf <= cpu.maxleaf && leaf == 7 && sub == 0) { memcpy(r, cpu.l7, 16); return; }
	// beyond what this CPU has: whatever
	for (int i = 0; i < 4; i++) { z = pbt_mix(z); r[i] = cpu.junk & 1 ? 0xFFFFFFFFu : (uint32_t)z; }
}

#if defined(__x86_64__)
#  define R(x) REG_R##x
#  define IP REG_RIP
#else
#  define R(x) REG_E##x
#  define IP REG_EIP
#endif

static void on_trap (int sig, siginfo_t *si, void *ucv)
{
	(void)sig; (void)si;
	ucontext_t *uc = ucv;
	greg_t *g = uc->uc_mcontext.gregs;
	for (;;) {
		char *ip = (char *)(uintptr_t)g[IP];
		for (int i = 0; i < NC; i++) if (sec[i].a && ip >= sec[i].a && ip < sec[i].b) { found = i; siglongjmp(jb, 1); }
		const unsigned char *o = (const unsigned char *)ip;
		if (o[0] == 0x0F && o[1] == 0xA2) {
			uint32_t r[4] = { (uint32_t)g[R(AX)], (uint32_t)g[R(BX)], (uint32_t)g[R(CX)], (uint32_t)g[R(DX)] };
			emulate_cpuid(r);
			g[R(AX)] = (greg_t)r[0]; g[R(BX)] = (greg_t)r[1]; g[R(CX)] = (greg_t)r[2]; g[R(DX)] = (greg_t)r[3];
			g[IP] += 2;
			continue;
		}
		if (o[0] == 0x0F && o[1] == 0x01 && o[2] == 0xD0) {
			sh->nxgetbv++;
			if (cpu.maxleaf < 1 || !(cpu.l1[2] >> 27 & 1)) die("XGETBV is executed although the CPU does not report OSXSAVE: it would end in SIGILL");
			if ((uint32_t)g[R(CX)] != 0) die("XGETBV asks for a register other than XCR0");
			g[R(AX)] = (greg_t)(uint32_t)cpu.xcr0; g[R(DX)] = (greg_t)(uint32_t)(cpu.xcr0 >> 32);
			g[IP] += 3;
			continue;
		}
		break;
	}
	if (++nsteps > 300000) die("no codec is entered within 300000 instructions");
}

static unsigned char in[200]; static char out[1000];

static void api (int op, int flags)
{
	struct base64_state st;
	size_t ol;
	switch (op) {
	case 0: base64_encode((char *)in, 90, out, &ol, flags); break;
	case 1: base64_decode((char *)in, 96, out, &ol, flags); break;
	case 2: base64_stream_encode_init(&st, flags); base64_stream_encode(&st, (char *)in, 90, out, &ol); break;
	default: base64_stream_decode_init(&st, flags); base64_stream_decode(&st, (char *)in, 96, out, &ol); break;
	}
}

static int traced (int op, int flags)
{
	found = -1;
	nsteps = 0;
	if (sigsetjmp(jb, 1) == 0) {
#if defined(__x86_64__)
		__asm__ volatile ("sub $128, %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc");
		api(op, flags);
		__asm__ volatile ("sub $128, %%rsp\n\tpushfq\n\tandq $-257, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc");
#else
		__asm__ volatile ("pushfl\n\torl $0x100, (%%esp)\n\tpopfl" ::: "memory", "cc");
		api(op, flags);
		__asm__ volatile ("pushfl\n\tandl $-257, (%%esp)\n\tpopfl" ::: "memory", "cc");
#endif
	}
	return found;
}

static int ops[4], flags[4]; static int ncalls;

static void child (void)
{
	static unsigned char alt[1 << 17];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	sigaction(SIGTRAP, &sa, NULL);
	memset(in, 'A', sizeof in);
	for (int i = 0; i < ncalls; i++) sh->got[i] = traced(ops[i], flags[i]);
}

static void run (void)
{
	memset(sh, 0, sizeof *sh);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(98); }
	if (pid == 0) {
		static const int sigs[] = { SIGSEGV, SIGILL, SIGBUS, SIGFPE, SIGABRT };
		struct rlimit rl = { 60, 60 };
		setrlimit(RLIMIT_CPU, &rl);
		for (int i = 0; i < 5; i++) signal(sigs[i], SIG_DFL);
		child();
		_exit(0);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	pbt_eval(1);
	if (WIFSIGNALED(st)) pbt_fail("crashed with signal %d", WTERMSIG(st));
	if (WEXITSTATUS(st)) pbt_fail("%s", sh->msg);
}

static bool bit (uint32_t w, int b) { return w >> b & 1; }

// What the CPU and the OS support, from the manuals.
static bool supports (int c)
{
	bool os_avx = bit(cpu.l1[2], 27) && (cpu.xcr0 & 6) == 6, os_512 = os_avx && (cpu.xcr0 & 0xE0) == 0xE0;
	if (c == PLAIN) return true;
	if (cpu.maxleaf < 1) return false;
	switch (c) {
	case SSSE3: return bit(cpu.l1[2], 9);
	case SSE41: return bit(cpu.l1[2], 19);
	case SSE42: return bit(cpu.l1[2], 20);
	case AVX: return bit(cpu.l1[2], 28) && os_avx;
	case AVX2: return cpu.maxleaf >= 7 && bit(cpu.l7[1], 5) && os_avx;
	case AVX512: return cpu.maxleaf >= 7 && bit(cpu.l7[1], 31) && bit(cpu.l7[2], 1) && os_512;
	}
	return false;
}
// A combination that real processors can show: each level includes those below.
static bool coherent (void)
{
	bool s3 = bit(cpu.l1[2], 9), s41 = bit(cpu.l1[2], 19), s42 = bit(cpu.l1[2], 20), av = bit(cpu.l1[2], 28), a2 = bit(cpu.l7[1], 5), f = bit(cpu.l7[1], 16), vl = bit(cpu.l7[1], 31), vb = bit(cpu.l7[2], 1);
	if ((s41 && !s3) || (s42 && !s41) || (av && !s42)) return false;
	if (cpu.maxleaf >= 7 && ((a2 && !av) || (f && !a2) || ((vl || vb) && !f))) return false;
	if (bit(cpu.l1[2], 27)) {
		unsigned z = cpu.xcr0 >> 5 & 7;
		if ((z && z != 7) || (z && !(cpu.xcr0 & 4)) || ((cpu.xcr0 & 4) && !(cpu.xcr0 & 2))) return false;
	}
	return true;
}

static void gen_cpu (void)
{
	static const unsigned char bits1[] = { 9, 19, 20, 28 };
	cpu.junk = (uint32_t)pbt_draw(1ULL << 32);
	cpu.vendor = (uint32_t)pbt_draw(2);
	uint64_t z = pbt_draw(UINT64_MAX);
	for (int i = 0; i < 4; i++) {
		cpu.l1[i] = (uint32_t)z; z = pbt_mix(z);
		cpu.l7[i] = (uint32_t)z; z = pbt_mix(z);
	}
	switch (pbt_draw(5)) { case 0: cpu.maxleaf = (uint32_t)pbt_draw(8); break; case 1: cpu.maxleaf = 7; break; default: cpu.maxleaf = 7 + (uint32_t)pbt_draw(30); }
	unsigned m = (unsigned)pbt_draw(3);
	if (m < 2) {	// a generation of processors
		unsigned lv = (unsigned)pbt_draw(10);
		for (unsigned i = 0; i < 4; i++) { cpu.l1[2] &= ~(1u << bits1[i]); if (lv > i) cpu.l1[2] |= 1u << bits1[i]; }
		cpu.l7[1] &= ~(1u << 5 | 1u << 16 | 1u << 31); cpu.l7[2] &= ~2u;
		if (lv > 4) cpu.l7[1] |= 1u << 5;
		if (lv > 5) cpu.l7[1] |= 1u << 16;
		if (lv == 7 || lv == 9) cpu.l7[1] |= 1u << 31;
		if (lv == 8 || lv == 9) cpu.l7[2] |= 2;
		if (m == 1 && cpu.maxleaf < 7) cpu.maxleaf = 7;
	}
	static const uint64_t xs[] = { 0xE7, 7, 3, 1, 0x67, 0xA7, 0xC7, 0xE3, 0xE1, 0x27, 0x47, 0x87, 5, 0xE5, 0xE7, 7 };
	unsigned x = (unsigned)pbt_draw(m < 2 ? 32 : 24);
	cpu.xcr0 = x < 16 ? xs[x] : x < 20 ? 0xE7 : x < 22 ? 7 : (pbt_mix(z) & 0xFF) | 1;
	if (pbt_chance(1, 2)) cpu.xcr0 |= pbt_mix(z + 1) & ~0xFFull & 0x000602FFFFull;	// further state components
	cpu.l1[2] |= 1u << 27 | 1u << 26;
	if (pbt_chance(1, 6)) cpu.l1[2] &= ~(1u << 27);
}

static const char *cpu_str (void)
{
	static char b[300];
	snprintf(b, sizeof b, "CPU: max leaf %u,%s%s%s%s%s%s%s%s%s, XCR0 %#llx", cpu.maxleaf, bit(cpu.l1[2], 9) ? " SSSE3" : "", bit(cpu.l1[2], 19) ? " SSE4.1" : "", bit(cpu.l1[2], 20) ? " SSE4.2" : "", bit(cpu.l1[2], 28) ? " AVX" : "",
		bit(cpu.l1[2], 27) ? " OSXSAVE" : "", bit(cpu.l7[1], 5) ? " [7]AVX2" : "", bit(cpu.l7[1], 16) ? " [7]AVX512F" : "", bit(cpu.l7[1], 31) ? " [7]AVX512VL" : "", bit(cpu.l7[2], 1) ? " [7]AVX512VBMI" : "", (unsigned long long)cpu.xcr0);
	return b;
}

static void judge (int got, const char *what)
{
	if (got < 0) pbt_fail("%s: no codec is entered", what);
	if (!built[got]) pbt_fail("%s: the default codec is %s, which is not in this build", what, cname[got]);
	if (!supports(got)) pbt_fail("%s: the default codec is %s, which this CPU or OS does not support", what, cname[got]);
	if (!coherent()) return;
	for (int c = AVX512; c > got; c--)
		if (built[c] && supports(c)) pbt_fail("%s: the default codec is %s, but %s is available", what, cname[got], cname[c]);
}

static const char *on[] = { "base64_encode", "base64_decode", "stream encode", "stream decode" };

static void p_detect (void)
{
	gen_cpu();
	ncalls = 0;
	bool forced = pbt_chance(1, 4);
	if (forced) { ops[ncalls] = (int)pbt_draw(4); flags[ncalls++] = cflag[pbt_draw(NC)]; }
	int first = ncalls;
	ops[ncalls] = (int)pbt_draw(4); flags[ncalls++] = 0;
	ops[ncalls] = (int)pbt_draw(4); flags[ncalls++] = 0;
	pbt_note("%s; built: %s; %s%s, then %s", cpu_str(), pbt_param("have", "?"), forced ? "a forced call, " : "", on[ops[first]], on[ops[first + 1]]);
	run();
	judge(sh->got[first], on[ops[first]]);
	judge(sh->got[first + 1], on[ops[first + 1]]);
	if (sh->got[first] != sh->got[first + 1]) pbt_fail("%s uses %s, then %s uses %s", on[ops[first]], cname[sh->got[first]], on[ops[first + 1]], cname[sh->got[first + 1]]);
	pbt_class(cname[sh->got[first]]);
	pbt_class(coherent() ? "coherent CPU" : "incoherent CPU");
	if (cpu.maxleaf >= 1 && (supports(SSSE3) || supports(AVX) || supports(AVX2))) {
		pbt_hit(pbt_hash(pbt_hash(ops[first] * 4 + forced, pbt_param("have", ""), strlen(pbt_param("have", ""))), &cpu, sizeof cpu));
		pbt_sample("%s -> %s", cpu_str(), cname[sh->got[first]]);
	}
}

// The features and the OS bits that matter, in every combination, on a CPU without noise.
static void p_detexh (void)
{
	uint64_t e = pbt_enum(256 * 32 * 2 * 4);
	static const uint32_t ml[] = { 13, 7, 1, 6 };
	memset(&cpu, 0, sizeof cpu);
	if (e & 1) cpu.l1[2] |= 1u << 9;
	if (e & 2) cpu.l1[2] |= 1u << 19;
	if (e & 4) cpu.l1[2] |= 1u << 20;
	if (e & 8) cpu.l1[2] |= 1u << 28;
	if (e & 16) cpu.l7[1] |= 1u << 5;
	if (e & 32) cpu.l7[1] |= 1u << 16;
	if (e & 64) cpu.l7[1] |= 1u << 31;
	if (e & 128) cpu.l7[2] |= 2;
	e >>= 8;
	cpu.xcr0 = 1 | (e & 3) << 1 | (e & 28) << 3;
	e >>= 5;
	if (e & 1) cpu.l1[2] |= 3u << 26;
	cpu.maxleaf = ml[e >> 1];
	cpu.junk = e & 1 ? 1 : 4711;
	ncalls = 1;
	ops[0] = (int)pbt_turn(pbt_index(), 4); flags[0] = 0;
	pbt_note("%s; built: %s; %s", cpu_str(), pbt_param("have", "?"), on[ops[0]]);
	run();
	judge(sh->got[0], on[ops[0]]);
	pbt_class(cname[sh->got[0]]);
	pbt_hit(pbt_hash(pbt_hash(7, pbt_param("have", ""), strlen(pbt_param("have", ""))), &cpu, sizeof cpu));
}

// C11: forcing a codec that is built in makes that codec run, whatever the CPU.
static void p_forced (void)
{
	gen_cpu();
	int c[4];
	ncalls = 1 + (int)pbt_draw(4);
	for (int i = 0; i < ncalls; i++) { c[i] = (int)pbt_draw(NC); ops[i] = (int)pbt_draw(4); flags[i] = pbt_chance(1, 6) ? 0 : cflag[c[i]]; }
	pbt_note("%s; built: %s; %d calls, first %s forcing %s", cpu_str(), pbt_param("have", "?"), ncalls, on[ops[0]], cname[c[0]]);
	run();
	bool any = false;
	for (int i = 0; i < ncalls; i++) {
		if (flags[i] == 0) { judge(sh->got[i], on[ops[i]]); continue; }
		if (!built[c[i]]) continue;
		any = true;
		if (sh->got[i] != c[i]) pbt_fail("call %d: %s with flag %s runs %s", i, on[ops[i]], cname[c[i]], sh->got[i] < 0 ? "no codec" : cname[sh->got[i]]);
		pbt_class(cname[c[i]]);
	}
	if (any) pbt_hit(pbt_hash(pbt_hash(pbt_hash(ncalls, ops, sizeof ops), flags, sizeof flags), pbt_param("have", ""), strlen(pbt_param("have", ""))));
}

const struct pbt_prop pbt_props[] = { { "detect", p_detect }, { "detect_exh", p_detexh }, { "forced", p_forced }, { NULL, NULL } };

// C25: a call does nothing but compute. The caller's registers are loaded with
// generated values, the call is made, and what the calling convention says
// must survive is compared; on x86 the calls run where no system call is allowed.
#define _GNU_SOURCE
#include "common.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#if defined(__x86_64__) || defined(__i386__)
#  include <linux/audit.h>
#  include <linux/filter.h>
#  include <linux/seccomp.h>
#endif

typedef uintptr_t W;
#define WS sizeof(W)
struct abi {
	W fn, arg[5], ret;		// words 0, 1..5, 6
	W in[16], out[16];		// words 7.., 23..
	W sp0, sp1, fl;			// words 39, 40, 41
	W fpc0, fpc1, cw0, cw1, pad;	// words 42..46
	uint64_t vin[8], vout[8];	// words 47 (64-bit: offset 376), on 32 bits: offset 188
	uint32_t env[8];		// after them
};
void abi_call (struct abi *);
struct abi *abi_cur;

#if defined(__x86_64__)
#define NREG 6
#define NVEC 0
static const char *regname[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
_Static_assert(offsetof(struct abi, in) == 56 && offsetof(struct abi, out) == 184 && offsetof(struct abi, sp0) == 312 && offsetof(struct abi, env) == 504, "layout");
__asm__ (
".text\n.globl abi_call\n.type abi_call,@function\nabi_call:\n"
"	push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15; sub $8, %rsp\n"
"	mov %rdi, abi_cur(%rip)\n	mov %rdi, %r11\n"
"	mov 8(%r11), %rdi; mov 16(%r11), %rsi; mov 24(%r11), %rdx; mov 32(%r11), %rcx; mov 40(%r11), %r8\n"
"	mov 56(%r11), %rbx; mov 64(%r11), %rbp; mov 72(%r11), %r12; mov 80(%r11), %r13; mov 88(%r11), %r14; mov 96(%r11), %r15\n"
"	mov %rsp, 312(%r11)\n	ldmxcsr 336(%r11); fldcw 352(%r11)\n	xor %eax, %eax\n	call *(%r11)\n"
"	mov abi_cur(%rip), %r11\n	mov %rax, 48(%r11)\n"
"	mov %rbx, 184(%r11); mov %rbp, 192(%r11); mov %r12, 200(%r11); mov %r13, 208(%r11); mov %r14, 216(%r11); mov %r15, 224(%r11)\n"
"	mov %rsp, 320(%r11); mov 312(%r11), %rsp\n	pushfq; popq 328(%r11); cld\n"
"	stmxcsr 344(%r11); fnstcw 360(%r11); fnstenv 504(%r11)\n	fninit\n"
"	movl $0x1f80, 336(%r11); ldmxcsr 336(%r11)\n"
"	add $8, %rsp; pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp; ret\n"
);
#elif defined(__i386__)
#define NREG 4
#define NVEC 0
static const char *regname[] = { "ebx", "esi", "edi", "ebp" };
_Static_assert(offsetof(struct abi, in) == 28 && offsetof(struct abi, out) == 92 && offsetof(struct abi, sp0) == 156 && offsetof(struct abi, env) == 316, "layout");
__asm__ (
".text\n.globl abi_call\n.type abi_call,@function\nabi_call:\n"
"	mov 4(%esp), %eax\n	push %ebp; push %ebx; push %esi; push %edi\n"
"	mov %eax, abi_cur\n"
"	sub $28, %esp\n"
"	mov 4(%eax), %ecx; mov %ecx, (%esp); mov 8(%eax), %ecx; mov %ecx, 4(%esp); mov 12(%eax), %ecx; mov %ecx, 8(%esp)\n"
"	mov 16(%eax), %ecx; mov %ecx, 12(%esp); mov 20(%eax), %ecx; mov %ecx, 16(%esp)\n"
"	mov 28(%eax), %ebx; mov 32(%eax), %esi; mov 36(%eax), %edi; mov 40(%eax), %ebp\n"
"	mov %esp, 156(%eax)\n	ldmxcsr 168(%eax); fldcw 176(%eax)\n	call *(%eax)\n"
"	mov abi_cur, %ecx\n	mov %eax, 24(%ecx)\n"
"	mov %ebx, 92(%ecx); mov %esi, 96(%ecx); mov %edi, 100(%ecx); mov %ebp, 104(%ecx)\n"
"	mov %esp, 160(%ecx); mov 156(%ecx), %esp\n	pushfl; popl 164(%ecx); cld\n"
"	stmxcsr 172(%ecx); fnstcw 180(%ecx); fnstenv 316(%ecx)\n	fninit\n"
"	movl $0x1f80, 168(%ecx); ldmxcsr 168(%ecx)\n"
"	add $28, %esp; pop %edi; pop %esi; pop %ebx; pop %ebp; ret\n"
);
#elif defined(__aarch64__)
#define NREG 10
#define NVEC 8
static const char *regname[] = { "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28" };
static const char *vecname[] = { "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15" };
_Static_assert(offsetof(struct abi, in) == 56 && offsetof(struct abi, out) == 184 && offsetof(struct abi, sp0) == 312 && offsetof(struct abi, vin) == 376 && offsetof(struct abi, vout) == 440, "layout");
__asm__ (
".text\n.globl abi_call\n.type abi_call,%function\nabi_call:\n"
"	stp x29, x30, [sp, #-176]!\n	mov x29, sp\n"
"	stp x19, x20, [sp, #16]; stp x21, x22, [sp, #32]; stp x23, x24, [sp, #48]; stp x25, x26, [sp, #64]; stp x27, x28, [sp, #80]\n"
"	stp d8, d9, [sp, #96]; stp d10, d11, [sp, #112]; stp d12, d13, [sp, #128]; stp d14, d15, [sp, #144]\n"
"	adrp x9, abi_cur; add x9, x9, :lo12:abi_cur; str x0, [x9]\n	mov x16, x0\n"
"	ldp x19, x20, [x16, #56]; ldp x21, x22, [x16, #72]; ldp x23, x24, [x16, #88]; ldp x25, x26, [x16, #104]; ldp x27, x28, [x16, #120]\n"
"	ldp d8, d9, [x16, #376]; ldp d10, d11, [x16, #392]; ldp d12, d13, [x16, #408]; ldp d14, d15, [x16, #424]\n"
"	mov x9, sp; str x9, [x16, #312]\n	ldr x9, [x16, #336]; msr fpcr, x9\n"
"	ldp x0, x1, [x16, #8]; ldp x2, x3, [x16, #24]; ldr x4, [x16, #40]\n	ldr x9, [x16]\n	blr x9\n"
"	adrp x9, abi_cur; add x9, x9, :lo12:abi_cur; ldr x16, [x9]\n	str x0, [x16, #48]\n"
"	stp x19, x20, [x16, #184]; stp x21, x22, [x16, #200]; stp x23, x24, [x16, #216]; stp x25, x26, [x16, #232]; stp x27, x28, [x16, #248]\n"
"	stp d8, d9, [x16, #440]; stp d10, d11, [x16, #456]; stp d12, d13, [x16, #472]; stp d14, d15, [x16, #488]\n"
"	mov x9, sp; str x9, [x16, #320]; ldr x9, [x16, #312]; mov sp, x9\n	mrs x9, fpcr; str x9, [x16, #344]; msr fpcr, xzr\n"
"	ldp x19, x20, [sp, #16]; ldp x21, x22, [sp, #32]; ldp x23, x24, [sp, #48]; ldp x25, x26, [sp, #64]; ldp x27, x28, [sp, #80]\n"
"	ldp d8, d9, [sp, #96]; ldp d10, d11, [sp, #112]; ldp d12, d13, [sp, #128]; ldp d14, d15, [sp, #144]\n"
"	ldp x29, x30, [sp], #176\n	ret\n"
);
#elif defined(__arm__)
#define NREG 8
#define NVEC 8
static const char *regname[] = { "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11" };
static const char *vecname[] = { "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15" };
// uint64_t is aligned to 8 here
_Static_assert(offsetof(struct abi, in) == 28 && offsetof(struct abi, out) == 92 && offsetof(struct abi, sp0) == 156 && offsetof(struct abi, vin) == 192 && offsetof(struct abi, vout) == 256, "layout");
__asm__ (
".text\n.arm\n.syntax unified\n.fpu neon\n.globl abi_call\n.type abi_call,%function\n.align 2\nabi_call:\n"
"	push {r4-r11, lr}\n	sub sp, sp, #4\n	vpush {d8-d15}\n	sub sp, sp, #8\n"
"	ldr ip, =abi_cur; str r0, [ip]\n	mov ip, r0\n"
"	ldr r0, [ip, #20]; str r0, [sp]\n"
"	ldr r0, [ip, #168]; vmsr fpscr, r0\n"
"	str sp, [ip, #156]\n"
"	add r0, ip, #192; vldmia r0, {d8-d15}\n"
"	add r0, ip, #28; ldmia r0, {r4-r11}\n"
"	ldr r0, [ip, #4]; ldr r1, [ip, #8]; ldr r2, [ip, #12]; ldr r3, [ip, #16]\n	ldr ip, [ip]\n	blx ip\n"
"	ldr ip, =abi_cur; ldr ip, [ip]\n	str r0, [ip, #24]\n"
"	add r0, ip, #92; stmia r0, {r4-r11}\n	add r0, ip, #256; vstmia r0, {d8-d15}\n"
"	str sp, [ip, #160]; ldr sp, [ip, #156]\n	vmrs r0, fpscr; str r0, [ip, #172]; mov r0, #0; vmsr fpscr, r0\n"
"	add sp, sp, #8\n	vpop {d8-d15}\n	add sp, sp, #4\n	pop {r4-r11, pc}\n"
"	.ltorg\n"
);
#elif defined(__s390x__)
#define NREG 8
#define NVEC 8
static const char *regname[] = { "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r13" };
static const char *vecname[] = { "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15" };
_Static_assert(offsetof(struct abi, in) == 56 && offsetof(struct abi, out) == 184 && offsetof(struct abi, sp0) == 312 && offsetof(struct abi, vin) == 376 && offsetof(struct abi, vout) == 440, "layout");
// r6 carries the fifth argument, and is the callee's to preserve
__asm__ (
".text\n.globl abi_call\n.type abi_call,@function\n.align 8\nabi_call:\n"
"	stmg %r6, %r15, 48(%r15)\n	lgr %r1, %r15\n	aghi %r15, -232\n	stg %r1, 0(%r15)\n"
"	std %f8, 160(%r15)\n	std %f9, 168(%r15)\n	std %f10, 176(%r15)\n	std %f11, 184(%r15)\n	std %f12, 192(%r15)\n	std %f13, 200(%r15)\n	std %f14, 208(%r15)\n	std %f15, 216(%r15)\n"
"	larl %r1, abi_cur\n	stg %r2, 0(%r1)\n	lgr %r1, %r2\n"
"	ld %f8, 376(%r1)\n	ld %f9, 384(%r1)\n	ld %f10, 392(%r1)\n	ld %f11, 400(%r1)\n	ld %f12, 408(%r1)\n	ld %f13, 416(%r1)\n	ld %f14, 424(%r1)\n	ld %f15, 432(%r1)\n"
"	lfpc 340(%r1)\n	stg %r15, 312(%r1)\n	lmg %r6, %r13, 56(%r1)\n	lmg %r2, %r6, 8(%r1)\n	lg %r1, 0(%r1)\n	basr %r14, %r1\n"
"	larl %r1, abi_cur\n	lg %r1, 0(%r1)\n	stg %r2, 48(%r1)\n	stmg %r6, %r13, 184(%r1)\n"
"	std %f8, 440(%r1)\n	std %f9, 448(%r1)\n	std %f10, 456(%r1)\n	std %f11, 464(%r1)\n	std %f12, 472(%r1)\n	std %f13, 480(%r1)\n	std %f14, 488(%r1)\n	std %f15, 496(%r1)\n"
"	stg %r15, 320(%r1)\n	lg %r15, 312(%r1)\n	stfpc 348(%r1)\n"
"	ld %f8, 160(%r15)\n	ld %f9, 168(%r15)\n	ld %f10, 176(%r15)\n	ld %f11, 184(%r15)\n	ld %f12, 192(%r15)\n	ld %f13, 200(%r15)\n	ld %f14, 208(%r15)\n	ld %f15, 216(%r15)\n"
"	lmg %r6, %r15, 280(%r15)\n	br %r14\n"
);
#else
#error no trampoline for this machine
#endif
#if NVEC == 0
static const char *vecname[1];
#endif

#define NCALL 24
#define POOL (2u << 20)
enum kind { ENC, DEC, SENC_INIT, SENC, SENC_FINAL, SDEC_INIT, SDEC, NKIND };
static const char *kinds[] = { "base64_encode", "base64_decode", "base64_stream_encode_init", "base64_stream_encode", "base64_stream_encode_final", "base64_stream_decode_init", "base64_stream_decode" };
static struct call { enum kind kind; int flag; bool absent; size_t n; unsigned char *in, *want; size_t wn; int wret; struct abi a; } calls[NCALL];
static unsigned ncalls;
static unsigned char *pool, *out; static size_t poolpos;
static struct base64_state est, dst;
static struct shm { volatile unsigned at; volatile int sys; volatile unsigned bad; char msg[800]; } *sh;
static bool can_filter;

static unsigned char *take (size_t n) { unsigned char *p = pool + poolpos; poolpos += (n + 64) & ~(size_t)15; if (poolpos > POOL) abort(); return p; }

static const char *describe (const struct call *c)
{
	static char b[200];
	snprintf(b, sizeof b, "%s, flags %#x, %zu bytes", kinds[c->kind], (unsigned)c->flag, c->n);
	return b;
}
static void bad (const char *fmt, ...)
{
	if (sh->bad) return;
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
	va_end(ap);
	sh->bad = 1;
}

#if defined(__x86_64__) || defined(__i386__)
static void on_sys (int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)uc;
	sh->sys = si->si_syscall;
	_exit(3);
}
static bool filter (void)
{
	struct sock_filter f[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 2, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 1, 0),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
	};
	struct sock_fprog p = { sizeof f / sizeof *f, f };
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_sys;
	sa.sa_flags = SA_SIGINFO;
	sigaction(SIGSYS, &sa, NULL);
	return prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}
#else
static bool filter (void) { return false; }
#endif

void pbt_setup (void)
{
	common_setup();
	pool = malloc(POOL); out = malloc(POOL);
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (!pool || !out || sh == MAP_FAILED) abort();
}

static void check (const struct call *c)
{
	const struct abi *a = &c->a;
	for (int i = 0; i < NREG; i++) if (a->in[i] != a->out[i]) return bad("%s: register %s held %#jx and holds %#jx after the call", describe(c), regname[i], (uintmax_t)a->in[i], (uintmax_t)a->out[i]);
	for (int i = 0; i < NVEC; i++) if (a->vin[i] != a->vout[i]) return bad("%s: register %s held %#jx and holds %#jx after the call", describe(c), vecname[i], (uintmax_t)a->vin[i], (uintmax_t)a->vout[i]);
	if (a->sp0 != a->sp1) return bad("%s: the stack pointer was %#jx and is %#jx after the call", describe(c), (uintmax_t)a->sp0, (uintmax_t)a->sp1);
#if defined(__x86_64__) || defined(__i386__)
	if (a->fl & 0x400) return bad("%s: the direction flag is set after the call", describe(c));
	// the trampoline has overwritten fpc0: the value is kept in pad
	if ((a->fpc1 & 0xFFC0) != (a->pad & 0xFFC0)) return bad("%s: the control bits of MXCSR were %#jx and are %#jx after the call", describe(c), (uintmax_t)a->pad, (uintmax_t)(a->fpc1 & 0xFFFF));
	if ((a->cw1 & 0xFFFF) != (a->cw0 & 0xFFFF)) return bad("%s: the x87 control word was %#jx and is %#jx after the call", describe(c), (uintmax_t)(a->cw0 & 0xFFFF), (uintmax_t)(a->cw1 & 0xFFFF));
	if ((a->env[2] & 0xFFFF) != 0xFFFF) return bad("%s: the x87 register stack is not empty after the call (tags %#x)", describe(c), a->env[2] & 0xFFFF);
#elif defined(__s390x__)
	if (((a->fpc0 ^ a->fpc1) & 0x3) != 0) return bad("%s: the rounding mode was changed", describe(c));
#else
	if ((a->fpc0 ^ a->fpc1) & 0x01C00000) return bad("%s: the floating-point control bits were %#jx and are %#jx after the call", describe(c), (uintmax_t)a->fpc0, (uintmax_t)a->fpc1);
#endif
}

static void judge (struct call *c, size_t ol)
{
	if (c->absent) return;		// see C11
	bool dec = c->kind == DEC || c->kind == SDEC;
	if (dec && (int)c->a.ret != c->wret) return bad("%s: returns %d, must be %d, in this floating-point environment", describe(c), (int)c->a.ret, c->wret);
	if (c->kind == SENC_INIT || c->kind == SDEC_INIT || (dec && c->wret != 1)) return;
	if (ol != c->wn || memcmp(out, c->want, ol)) bad("%s: wrong result (%zu bytes, must be %zu) in this floating-point environment", describe(c), ol, c->wn);
}

static int perform (void)
{
	for (unsigned i = 0; i < ncalls; i++) {
		struct call *c = &calls[i];
		struct abi *a = &c->a;
		size_t ol = 0;
		sh->at = i;
		switch (c->kind) {
		case ENC: a->fn = (W)base64_encode; break;
		case DEC: a->fn = (W)base64_decode; break;
		case SENC_INIT: a->fn = (W)base64_stream_encode_init; break;
		case SENC: a->fn = (W)base64_stream_encode; break;
		case SENC_FINAL: a->fn = (W)base64_stream_encode_final; break;
		case SDEC_INIT: a->fn = (W)base64_stream_decode_init; break;
		default: a->fn = (W)base64_stream_decode; break;
		}
		W *g = a->arg;
		switch (c->kind) {
		case ENC: case DEC: g[0] = (W)c->in; g[1] = c->n; g[2] = (W)out; g[3] = (W)&ol; g[4] = (W)(intptr_t)c->flag; break;
		case SENC: case SDEC: g[0] = (W)(c->kind == SENC ? &est : &dst); g[1] = (W)c->in; g[2] = c->n; g[3] = (W)out; g[4] = (W)&ol; break;
		case SENC_FINAL: g[0] = (W)&est; g[1] = (W)out; g[2] = (W)&ol; break;
		default: g[0] = (W)(c->kind == SENC_INIT ? &est : &dst); g[1] = (W)(intptr_t)c->flag; break;
		}
#if defined(__s390x__)
		a->in[0] = g[4];	// r6
#endif
		int e = (int)(i * 37 + 11) % 120;
		errno = e;
		abi_call(a);
		int e2 = errno;
		if (e2 != e) bad("%s: errno was %d and is %d after the call", describe(c), e, e2);
		check(c);
		judge(c, ol);
		if (sh->bad) return 1;
	}
	return 0;
}

static void gen (void)
{
	poolpos = 0;
	ncalls = 4 + (unsigned)pbt_draw(NCALL - 4);
	bool elive = false, dlive = false;
	struct ref_dec rd;
	int ef = 0, df = 0;
	unsigned carry[3]; unsigned ncarry = 0;		// bytes the encoder has not given out completely
	for (unsigned i = 0; i < ncalls; i++) {
		struct call *c = &calls[i];
		memset(c, 0, sizeof *c);
		uint64_t s = pbt_draw(UINT64_MAX);
		for (int k = 0; k < 16; k++) { s = pbt_mix(s); c->a.in[k] = (W)s; }
		for (int k = 0; k < 8; k++) { s = pbt_mix(s); c->a.vin[k] = s; }
		unsigned fp = (unsigned)pbt_draw(16);
#if defined(__x86_64__) || defined(__i386__)
		c->a.fpc0 = c->a.pad = 0x1F80u | (fp & 3) << 13 | (fp >> 2 & 1) << 15 | (fp >> 3 & 1) << 6;
		c->a.cw0 = 0x37Fu & ~0xC00u;
		c->a.cw0 |= (fp & 3) << 10;
#elif defined(__s390x__)
		c->a.fpc0 = fp & 3;
#else
		c->a.fpc0 = (fp & 3) << 22 | (fp >> 2 & 1) << 24;
#endif
		c->kind = (enum kind)pbt_draw(NKIND);
		if ((c->kind == SENC || c->kind == SENC_FINAL) && !elive) c->kind = SENC_INIT;
		if (c->kind == SDEC && !dlive) c->kind = SDEC_INIT;
		size_t n = pbt_chance(1, 6) ? gen_len(40000) : pbt_draw(pbt_chance(1, 2) ? 100 : 2000);
		c->flag = pbt_chance(1, 8) ? codecs[pbt_draw(10)].flag : codecs[gen_codec()].flag;
		for (int k = 0; k < 10; k++) if (codecs[k].cannot && codecs[k].flag == c->flag) c->flag = 0;
		switch (c->kind) {
		case ENC:
			c->n = n; c->in = take(n); gen_bytes(c->in, n);
			c->want = take(ref_enclen(n) + 4); c->wn = ref_encode(c->in, n, (char *)c->want);
			break;
		case DEC: case SDEC: {
			unsigned char *d = take(n);
			gen_bytes(d, n);
			c->in = take(ref_enclen(n) + 8);
			c->n = ref_encode(d, n, (char *)c->in);
			if (pbt_chance(1, 3)) c->n = gen_mutate(c->in, c->n, c->n + 8);
			c->want = take(c->n + 4);
			if (c->kind == DEC) c->wret = ref_decode(c->in, c->n, c->want, &c->wn);
			else {
				c->flag = df;
				bool was = rd.failed || rd.ended;
				size_t k = ref_dec_feed(&rd, c->in, c->n, c->want, &c->wn);
				c->wret = k == c->n;
				if (was && c->n == 0) { c->kind = SDEC_INIT; dlive = false; }	// what an empty chunk gives then is open
				if (!c->wret || rd.ended) dlive = false;
			}
			break;
		}
		case SENC:
			c->flag = ef;
			c->n = n; c->in = take(n); gen_bytes(c->in, n);
			{
				// the new bytes after those of the unfinished group; a full prefix is cut off again
				unsigned char *x = take(n + 3);
				memcpy(x, (unsigned char[]){ (unsigned char)carry[0], (unsigned char)carry[1], 0 }, ncarry);
				memcpy(x + ncarry, c->in, n);
				unsigned char *t = take(ref_enclen(n + 3) + 4);
				ref_encode(x, ncarry + n, (char *)t);
				c->want = t + ref_enc_emitted(ncarry);
				c->wn = ref_enc_emitted(ncarry + n) - ref_enc_emitted(ncarry);
				unsigned r = (ncarry + n) % 3;
				for (unsigned k = 0; k < r; k++) carry[k] = x[ncarry + n - r + k];
				ncarry = r;
			}
			break;
		case SENC_FINAL:
			c->flag = ef;
			{
				unsigned char x[2] = { ncarry > 0 ? (unsigned char)carry[0] : 0, ncarry > 1 ? (unsigned char)carry[1] : 0 };
				unsigned char *t = take(16);
				size_t l = ref_encode(x, ncarry, (char *)t), e = ref_enc_emitted(ncarry);
				c->want = t + e; c->wn = l - e;
			}
			elive = false;
			break;
		default: break;
		}
		for (int k = 0; k < 10; k++) if (codecs[k].flag == c->flag && !codecs[k].built) c->absent = true;
		if (c->kind == SENC_INIT) { elive = true; ef = c->flag; ncarry = 0; }
		if (c->kind == SDEC_INIT) { dlive = true; df = c->flag; ref_dec_init(&rd); }
	}
}

static void p_abi (void)
{
	gen();
	memset(sh, 0, sizeof *sh);
	pbt_note("%u calls, the first: %s", ncalls, describe(&calls[0]));
#if defined(__x86_64__) || defined(__i386__)
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(98); }
	if (pid == 0) {
		static const int sigs[] = { SIGSEGV, SIGILL, SIGBUS, SIGFPE, SIGABRT };
		struct rlimit rl = { 30, 30 };
		setrlimit(RLIMIT_CPU, &rl);
		for (int i = 0; i < 5; i++) signal(sigs[i], SIG_DFL);
		if (filter()) sh->at = 0; else sh->at = 1000;
		if (sh->at == 1000) sh->sys = -1;
		int r = perform();
		_exit(r);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	can_filter = sh->sys != -1;
	if (WIFSIGNALED(st)) pbt_fail("call %u (%s) crashed with signal %d", sh->at, describe(&calls[sh->at % NCALL]), WTERMSIG(st));
	if (WEXITSTATUS(st) == 3) pbt_fail("call %u (%s) makes system call %d", sh->at, describe(&calls[sh->at % NCALL]), sh->sys);
	if (sh->bad) pbt_fail("call %u: %s", sh->at, sh->msg);
	pbt_class(can_filter ? "without system calls" : "system calls not looked at");
#else
	sigset_t m0, m1;	// the kernel fills only a part
	memset(&m0, 0, sizeof m0); memset(&m1, 0, sizeof m1);
	sigprocmask(SIG_SETMASK, NULL, &m0);
	perform();
	sigprocmask(SIG_SETMASK, NULL, &m1);
	if (sh->bad) pbt_fail("call %u: %s", sh->at, sh->msg);
	if (memcmp(&m0, &m1, sizeof m0)) pbt_fail("the signal mask was changed");
	pbt_class("registers only");
#endif
	pbt_eval(ncalls);
	uint64_t h = ncalls; size_t most = 0;
	for (unsigned i = 0; i < ncalls; i++) { h = pbt_mix(h ^ calls[i].n ^ (uint64_t)calls[i].kind << 32 ^ (uint64_t)calls[i].flag << 40); if (calls[i].n > most) most = calls[i].n; pbt_class(kinds[calls[i].kind]); }
	if (most >= 64) pbt_hit(h);
	pbt_sample("%u calls, up to %zu bytes, the last: %s, first register %#jx", ncalls, most, describe(&calls[ncalls - 1]), (uintmax_t)calls[ncalls - 1].a.in[NREG - 1]);
}

const struct pbt_prop pbt_props[] = { { "abi", p_abi }, { NULL, NULL } };

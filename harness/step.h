// Counting the instructions of a call with the trap flag (x86 only).
#ifndef STEP_H
#define STEP_H
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>

#if defined(__x86_64__)
#define TRAP_ON __asm__ volatile ("sub $128, %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc")
#define TRAP_OFF __asm__ volatile ("sub $128, %%rsp\n\tpushfq\n\tandq $-257, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc")
#else
#define TRAP_ON __asm__ volatile ("pushfl\n\torl $0x100, (%%esp)\n\tpopfl" ::: "memory", "cc")
#define TRAP_OFF __asm__ volatile ("pushfl\n\tandl $-257, (%%esp)\n\tpopfl" ::: "memory", "cc")
#endif

static volatile uint64_t steps, budget;
static void on_trap (int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)si;
	if (++steps >= budget) ((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
}

static inline void step_setup (void)
{
	static unsigned char alt[1 << 16];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGTRAP, &sa, NULL);
}

enum { ENC, DEC, SENC, SDEC };
static const char *const opname[] = { "base64_encode", "base64_decode", "base64_stream_encode", "base64_stream_decode" };

// Instructions of one call on n bytes; for streams, of one chunk after the history in *st.
static inline uint64_t cost (int op, int flag, const unsigned char *in, size_t n, unsigned char *out, struct base64_state *st)
{
	size_t ol;
	steps = 0;
	switch (op) {
	case ENC: TRAP_ON; base64_encode((const char *)in, n, (char *)out, &ol, flag); TRAP_OFF; break;
	case DEC: TRAP_ON; base64_decode((const char *)in, n, (char *)out, &ol, flag); TRAP_OFF; break;
	case SENC: TRAP_ON; base64_stream_encode(st, (const char *)in, n, (char *)out, &ol); TRAP_OFF; break;
	default: TRAP_ON; base64_stream_decode(st, (const char *)in, n, (char *)out, &ol); TRAP_OFF; break;
	}
	return steps;
}
#endif

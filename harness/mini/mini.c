// Freestanding executor of transcripts, for platforms without a C library here.
#include <stddef.h>
#include <stdint.h>
#include "../../include/libbase64.h"

#if defined(__powerpc__)
static long sys3 (long n, long a, long b, long c)
{
	register long r0 __asm__("r0") = n, r3 __asm__("r3") = a, r4 __asm__("r4") = b, r5 __asm__("r5") = c;
	__asm__ volatile ("sc\n\tbns+ 1f\n\tneg %1, %1\n1:" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) : : "memory", "cr0", "ctr", "r6", "r7", "r8", "r9", "r10", "r11", "r12");
	return r3;
}
enum { SYS_exit = 1, SYS_read = 3, SYS_write = 4 };
#elif defined(__arm__)
static long sys3 (long n, long a, long b, long c)
{
	register long r7 __asm__("r7") = n, r0 __asm__("r0") = a, r1 __asm__("r1") = b, r2 __asm__("r2") = c;
	__asm__ volatile ("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2) : "memory");
	return r0;
}
enum { SYS_exit = 1, SYS_read = 3, SYS_write = 4 };
#elif defined(__riscv)
static long sys3 (long n, long a, long b, long c)
{
	register long a7 __asm__("a7") = n, a0 __asm__("a0") = a, a1 __asm__("a1") = b, a2 __asm__("a2") = c;
	__asm__ volatile ("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory");
	return a0;
}
enum { SYS_exit = 93, SYS_read = 63, SYS_write = 64 };
#endif

void *memcpy (void *d, const void *s, size_t n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memset (void *d, int c, size_t n) { char *a = d; while (n--) *a++ = (char)c; return d; }
void *memmove (void *d, const void *s, size_t n) { char *a = d; const char *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }

static unsigned char ibuf[65536]; static size_t ipos, ilen;
static int get (void)
{
	if (ipos == ilen) {
		long k = sys3(SYS_read, 0, (long)ibuf, sizeof ibuf);
		if (k <= 0) return -1;
		ilen = (size_t)k; ipos = 0;
	}
	return ibuf[ipos++];
}
static unsigned char obuf[65536]; static size_t olen;
static void flush (void)
{
	size_t o = 0;
	while (o < olen) {
		long k = sys3(SYS_write, 1, (long)(obuf + o), (long)(olen - o));
		if (k <= 0) sys3(SYS_exit, 3, 0, 0);
		o += (size_t)k;
	}
	olen = 0;
}
static void put (unsigned char c) { if (olen == sizeof obuf) flush(); obuf[olen++] = c; }
static uint32_t get32 (void) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)(get() & 255) << (8 * i); return v; }
static void put32 (uint32_t v) { for (int i = 0; i < 4; i++) put((unsigned char)(v >> (8 * i))); }

static struct base64_state st[8];
static char in[1 << 18], out[1 << 19];

void main_ (void)
{
	int op;
	while ((op = get()) >= 0) {
		int slot = get() & 7, flags = (int)get32();
		uint32_t n = get32();
		size_t ol = 0;
		int r = 1;
		if (n > sizeof in) sys3(SYS_exit, 4, 0, 0);
		for (uint32_t i = 0; i < n; i++) in[i] = (char)get();
		switch (op) {
		case 'e': base64_stream_encode_init(&st[slot], flags); break;
		case 'd': base64_stream_decode_init(&st[slot], flags); break;
		case 'E': base64_stream_encode(&st[slot], in, n, out, &ol); break;
		case 'D': r = base64_stream_decode(&st[slot], in, n, out, &ol); break;
		case 'F': base64_stream_encode_final(&st[slot], out, &ol); break;
		case 'c': st[flags & 7] = st[slot]; break;
		case '1': base64_encode(in, n, out, &ol, flags); break;
		case '2': r = base64_decode(in, n, out, &ol, flags); if (r != 1) ol = 0; break;
		default: sys3(SYS_exit, 5, 0, 0);
		}
		put32((uint32_t)r); put32((uint32_t)ol);
		for (size_t i = 0; i < ol && i < sizeof out; i++) put((unsigned char)out[i]);
	}
	flush();
	sys3(SYS_exit, 0, 0, 0);
}

#if defined(__powerpc__)
__asm__(".globl _start\n_start:\n\tli 0,0\n\tstwu 1,-32(1)\n\tbl main_\n");
#elif defined(__arm__)
__asm__(".globl _start\n_start:\n\tbl main_\n");
#elif defined(__riscv)
__asm__(".globl _start\n_start:\n\t.option push\n\t.option norelax\n\tla gp,__global_pointer$\n\t.option pop\n\tcall main_\n");
#endif

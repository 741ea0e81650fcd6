// C29 under an emulator that logs every instruction: one call, between two calls of marker().
#include "common.h"
#include <string.h>
void __attribute__((noinline)) marker (void) { __asm__ volatile (""); }
void pbt_setup (void) {}
int main (int argc, char **argv)
{
	if (argc < 9) return 2;
	int op = atoi(argv[1]), flag = atoi(argv[2]);
	size_t n = strtoul(argv[3], NULL, 0), valid = strtoul(argv[4], NULL, 0), pre = strtoul(argv[5], NULL, 0), ol;
	unsigned ia = (unsigned)atoi(argv[6]), oa = (unsigned)atoi(argv[7]);
	uint64_t r = strtoull(argv[8], NULL, 0) | 1;
	static unsigned char *data, *out;
	if (posix_memalign((void **)&data, 64, n + pre + 200) || posix_memalign((void **)&out, 64, 2 * (n + pre) + 200)) return 2;
	unsigned char *in = data + ia;
	unsigned kind = argc > 9 ? (unsigned)atoi(argv[9]) : 0;
	for (size_t i = 0; i < n + pre; i++) {
		r ^= r << 13; r ^= r >> 7; r ^= r << 17;
		unsigned char b = kind == 1 ? 0 : kind == 2 ? 255 : kind == 3 ? (unsigned char)(r & 1 ? 255 : 251) : (unsigned char)(r >> 20);
		in[i] = op & 1 ? (unsigned char)"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[b & 63] : b;
	}
	if (op & 1 && valid < n) { in[pre + valid] = '!'; }
	struct base64_state st;
	base64_encode("abc", 3, (char *)out, &ol, flag);	// the first use is not counted
	if (op == 2) { base64_stream_encode_init(&st, flag); base64_stream_encode(&st, (char *)in, pre, (char *)out, &ol); }
	if (op == 3) { base64_stream_decode_init(&st, flag); base64_stream_decode(&st, (char *)in, pre, (char *)out, &ol); }
	marker();
	switch (op) {
	case 0: base64_encode((char *)in + pre, n, (char *)out + oa, &ol, flag); break;
	case 1: base64_decode((char *)in + pre, n, (char *)out + oa, &ol, flag); break;
	case 2: base64_stream_encode(&st, (char *)in + pre, n, (char *)out + oa, &ol); break;
	default: base64_stream_decode(&st, (char *)in + pre, n, (char *)out + oa, &ol); break;
	}
	marker();
	return 0;
}

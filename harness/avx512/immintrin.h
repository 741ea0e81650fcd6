// The AVX512 instructions the encoder uses, in C: lets a CPU without them run the codec.
// Used only where the CPU lacks AVX512-VBMI (see py/build.py).
#ifndef VERIF_AVX512_EMULATION
#define VERIF_AVX512_EMULATION
#include_next <immintrin.h>
#include <stdint.h>
#include <string.h>

#pragma GCC diagnostic ignored "-Wpragmas"
#pragma GCC diagnostic ignored "-Wunknown-warning-option"
#pragma GCC diagnostic ignored "-Wpsabi"

typedef struct { uint8_t b[64]; } emu512;
#define __m512i emu512

#define _mm512_loadu_si512(p) emu512_load(p)
#define _mm512_storeu_si512(p, v) emu512_store(p, v)
#define _mm512_load_si512(p) emu512_load(p)
#define _mm512_setr_epi32(...) emu512_setr((const uint32_t[16]){ __VA_ARGS__ })
#define _mm512_set1_epi64(x) emu512_set1_64((uint64_t)(x))
#define _mm512_set1_epi32(x) emu512_set1_32((uint32_t)(x))
#define _mm512_set1_epi8(x) emu512_set1_8((uint8_t)(x))
#define _mm512_permutexvar_epi8(i, v) emu512_permute(i, v)
#define _mm512_multishift_epi64_epi8(c, v) emu512_multishift(c, v)

static inline emu512 emu512_load (const void *p) { emu512 r; memcpy(&r, p, 64); return r; }
static inline void emu512_store (void *p, emu512 v) { memcpy(p, &v, 64); }
static inline emu512 emu512_setr (const uint32_t *x) { emu512 r; memcpy(&r, x, 64); return r; }
static inline emu512 emu512_set1_64 (uint64_t x) { emu512 r; for (int i = 0; i < 64; i += 8) memcpy(r.b + i, &x, 8); return r; }
static inline emu512 emu512_set1_32 (uint32_t x) { emu512 r; for (int i = 0; i < 64; i += 4) memcpy(r.b + i, &x, 4); return r; }
static inline emu512 emu512_set1_8 (uint8_t x) { emu512 r; memset(&r, x, 64); return r; }
static inline emu512 emu512_permute (emu512 i, emu512 v) { emu512 r; for (int k = 0; k < 64; k++) r.b[k] = v.b[i.b[k] & 63]; return r; }

static inline emu512 emu512_multishift (emu512 c, emu512 v)
{
	emu512 r;
	for (int q = 0; q < 64; q += 8) {
		uint64_t x;
		memcpy(&x, v.b + q, 8);
		for (int k = 0; k < 8; k++) {
			unsigned n = c.b[q + k] & 63;
			r.b[q + k] = (uint8_t)(n ? x >> n | x << (64 - n) : x);
		}
	}
	return r;
}
#endif

// Small portable property-based testing engine.
//
// Every case is driven by a tape of draws.  The random driver makes the tape
// from (seed, property, index); the replay driver reads it back; the libFuzzer
// driver derives it from the fuzzer's bytes.  A failing case is reported as its
// tape, which the runner shrinks by re-running this program.
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

struct pbt_prop {
	const char *name;
	void (*fn)(void);
};
extern const struct pbt_prop pbt_props[];	// ends with a NULL name
void pbt_setup (void);				// provided by the harness, runs once
const char *pbt_param (const char *key, const char *def);	// --param key=value
uint64_t pbt_param_u (const char *key, uint64_t def);

uint64_t pbt_draw (uint64_t n);			// uniform in [0, n), n >= 1
uint64_t pbt_enum (uint64_t n);			// case index mod n: for enumerations
uint64_t pbt_index (void);
uint64_t pbt_turn (uint64_t v, uint64_t n);	// v mod n (made from the index), but a draw in replay
static inline uint64_t pbt_range (uint64_t lo, uint64_t hi) { return lo + pbt_draw(hi - lo + 1); }
static inline bool pbt_chance (unsigned num, unsigned den) { return pbt_draw(den) >= den - num; }

void pbt_eval (uint64_t n);			// n evaluations were made
void pbt_hit (uint64_t hash);			// this case was non-trivial; hash identifies it
void pbt_class (const char *name);		// classify the case (static strings)
bool pbt_want_sample (void);
void pbt_sample (const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void pbt_note (const char *fmt, ...) __attribute__((format(printf, 1, 2)));	// context for a crash
void pbt_digest (const void *p, size_t n);	// adds to the transcript digest
void pbt_digest_u (uint64_t v);
_Noreturn void pbt_fail (const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void pbt_cleanup_hook (void (*fn)(void));	// called before exiting on a failure

static inline uint64_t pbt_mix (uint64_t z)
{
	z += 0x9E3779B97F4A7C15ULL;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
uint64_t pbt_hash (uint64_t h, const void *p, size_t n);
const char *pbt_hex (const void *p, size_t n);	// abbreviated dump (rotating static buffers)
#endif

// Independent reference model of base64 (RFC 4648 section 4), written from the
// RFC and from the properties, not from the library.
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>

static const char ref_alpha[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static inline int ref_value (unsigned char c)	// -1: not in the alphabet
{
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	if (c == '+') return 62;
	if (c == '/') return 63;
	return -1;
}

static inline size_t ref_enclen (size_t n) { return (n / 3 + (n % 3 != 0)) * 4; }

// Encodes by walking over the bit string six bits at a time.
static inline size_t ref_encode (const unsigned char *s, size_t n, char *o)
{
	size_t k = 0;
	unsigned acc = 0, nb = 0;
	for (size_t i = 0; i < n; i++) {
		acc = (acc << 8 | s[i]) & 0xFFFF;
		nb += 8;
		while (nb >= 6) { nb -= 6; o[k++] = ref_alpha[acc >> nb & 63]; }
	}
	if (nb) o[k++] = ref_alpha[acc << (6 - nb) & 63];
	while (k % 4) o[k++] = '=';
	return k;
}

// Encoder stream: what has been emitted after n bytes (without finalising).
static inline size_t ref_enc_emitted (size_t n) { return n / 3 * 4 + n % 3; }

// Decoder stream, one character at a time.
struct ref_dec {
	unsigned phase;		// characters of the current group seen
	unsigned acc, nb;	// bits not yet delivered
	bool want_pad;		// the second of two '=' is missing
	bool ended;		// complete padding seen
	bool failed;
};
static inline void ref_dec_init (struct ref_dec *d) { memset(d, 0, sizeof *d); }

// Returns false if this character is the first offence (or follows one).
// Stores 0 or 1 byte.
static inline bool ref_dec_char (struct ref_dec *d, unsigned char c, unsigned char *o, size_t *n)
{
	if (d->failed) return false;
	if (d->ended) { d->failed = true; return false; }
	if (d->want_pad) {
		if (c != '=') { d->failed = true; return false; }
		d->want_pad = false; d->ended = true;
		return true;
	}
	if (c == '=') {
		if (d->phase == 2) { d->want_pad = true; return true; }
		if (d->phase == 3) { d->ended = true; return true; }
		d->failed = true;
		return false;
	}
	int v = ref_value(c);
	if (v < 0) { d->failed = true; return false; }
	d->acc = (d->acc << 6 | (unsigned)v) & 0xFFFFF;
	d->nb += 6;
	d->phase = (d->phase + 1) & 3;
	if (d->nb >= 8) { d->nb -= 8; o[(*n)++] = (unsigned char)(d->acc >> d->nb); }
	if (d->phase == 0) d->nb = 0;
	return true;
}
// A stream that could stop here has been decoded completely.
static inline bool ref_dec_complete (const struct ref_dec *d)
{
	return !d->failed && !d->want_pad && (d->ended || d->phase == 0);
}
// Feeds n characters; returns how many were consumed before the first offence.
static inline size_t ref_dec_feed (struct ref_dec *d, const unsigned char *s, size_t n, unsigned char *o, size_t *olen)
{
	size_t i;
	*olen = 0;
	for (i = 0; i < n; i++)
		if (!ref_dec_char(d, s[i], o, olen)) break;
	return i;
}
// One-shot judgement.
static inline bool ref_decode (const unsigned char *s, size_t n, unsigned char *o, size_t *olen)
{
	struct ref_dec d;
	ref_dec_init(&d);
	if (ref_dec_feed(&d, s, n, o, olen) != n) return false;
	return ref_dec_complete(&d);
}
#endif

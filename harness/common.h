// Generators, guarded buffers and codec bookkeeping shared by the harnesses.
#ifndef COMMON_H
#define COMMON_H
#include "pbt.h"
#include "ref.h"
#include "../include/libbase64.h"
#include <stdio.h>
#include <stdlib.h>

#define MAXLEN (3u << 20)	// biggest input of a generated case

// cannot: built, but this CPU cannot run it
struct codec_info { const char *name; int flag; bool built, cannot; };
extern struct codec_info codecs[10];	// 0 is the default codec (flags 0)
extern int avail[10], navail;		// indices of built codecs, 0 included
void common_setup (void);		// reads --param codecs=plain,ssse3,...
const char *codec_name_of_flags (int flags);

int gen_codec (void);			// an index into codecs[], built
size_t near (size_t base);		// base, or up to 8 off
size_t gen_len (size_t max);		// biased towards block boundaries
void gen_bytes (unsigned char *p, size_t n);
size_t gen_text (unsigned char *p, size_t max);	// well-formed base64, perhaps padded
size_t gen_mutate (unsigned char *p, size_t n, size_t cap);	// damages it (may stay well-formed)
unsigned char gen_badbyte (void);

// A buffer of n bytes with an inaccessible page on one side or both, or in the middle of readable memory.
enum place { P_END, P_START, P_MID };
struct gbuf {
	unsigned char *base;	// mapping
	size_t cap;		// usable bytes between the guard pages
	unsigned char *p;	// current buffer
	size_t n;
	enum place place;
	unsigned char salt;
	bool ro;
};
void gbuf_init (struct gbuf *g, size_t cap);
unsigned char *gbuf_place (struct gbuf *g, size_t n, enum place place, unsigned off, unsigned char salt);
void gbuf_protect (struct gbuf *g, bool ro);
ptrdiff_t gbuf_check (const struct gbuf *g);	// 0: surroundings intact; else offset relative to p (+1 if >= 0)
#endif

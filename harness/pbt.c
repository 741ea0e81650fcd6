#define _GNU_SOURCE
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>

static uint64_t *tape;
static size_t tape_len, tape_cap, tape_pos;
static enum { M_RANDOM, M_REPLAY, M_BYTES } mode;
static uint64_t rng;
static uint64_t cur_index, enum_total;
static const struct pbt_prop *cur_prop;
static const unsigned char *fz; static size_t fzn;

static uint64_t n_evals, n_hits, n_cases;
#define HASHCAP (1u << 20)
static uint64_t *hashes; static size_t nhashes; static bool hash_full;
static struct { const char *name; uint64_t n; } classes[128]; static int nclasses;
#define NSAMPLES 6
static char *samples[NSAMPLES]; static int nsamples; static uint64_t next_sample = 1;
static char note[4096], failmsg[8192];
static uint64_t digest = 0xcbf29ce484222325ULL, digest_cases[1];
static const char *out_path, *hash_path, *digest_path, *tape_path;
static FILE *digest_fp;
static double cpu_limit = 60;
static volatile sig_atomic_t ticks; static volatile uint64_t tick_case = ~0ULL;
static void (*cleanup)(void);
static const char *params[64]; static int nparams;
static volatile sig_atomic_t failing;

void pbt_cleanup_hook (void (*fn)(void)) { cleanup = fn; }

const char *pbt_param (const char *key, const char *def)
{
	size_t k = strlen(key);
	for (int i = 0; i < nparams; i++)
		if (!strncmp(params[i], key, k) && params[i][k] == '=')
			return params[i] + k + 1;
	return def;
}
uint64_t pbt_param_u (const char *key, uint64_t def)
{
	const char *s = pbt_param(key, NULL);
	return s ? strtoull(s, NULL, 0) : def;
}

uint64_t pbt_hash (uint64_t h, const void *p, size_t n)
{
	const unsigned char *c = p;
	h ^= n * 0x9E3779B97F4A7C15ULL;
	while (n >= 8) {
		uint64_t w = 0;
		for (int i = 0; i < 8; i++) w |= (uint64_t)c[i] << (8 * i);
		h = (h ^ w) * 0xff51afd7ed558ccdULL; h ^= h >> 32;
		c += 8; n -= 8;
	}
	while (n--) h = (h ^ *c++) * 0x100000001b3ULL;
	return pbt_mix(h);
}

void pbt_digest (const void *p, size_t n) { digest = pbt_hash(digest, p, n); }
void pbt_digest_u (uint64_t v) { digest = pbt_mix(digest ^ v); }

const char *pbt_hex (const void *p, size_t n)
{
	static char bufs[8][1200]; static int k;
	char *b = bufs[k++ & 7], *o = b;
	const unsigned char *c = p;
	size_t show = n;
	bool printable = true;
	if (show > 240) show = 240;
	for (size_t i = 0; i < show; i++) if (c[i] < 32 || c[i] > 126 || c[i] == '"' || c[i] == '\\') printable = false;
	if (printable) { *o++ = '\''; memcpy(o, c, show); o += show; *o++ = '\''; }
	else { o += sprintf(o, "hex:"); for (size_t i = 0; i < show; i++) o += sprintf(o, "%02x", c[i]); }
	if (show < n) o += sprintf(o, "...(%zu bytes)", n);
	*o = 0;
	return b;
}

static void tape_push (uint64_t v)
{
	if (tape_len == tape_cap) {
		tape_cap = tape_cap ? tape_cap * 2 : 1024;
		tape = realloc(tape, tape_cap * sizeof *tape);
		if (!tape) abort();
	}
	tape[tape_len++] = v;
}

static uint64_t rnd (void)
{
	rng += 0x9E3779B97F4A7C15ULL;
	uint64_t z = rng;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}

static uint64_t bytes_draw (uint64_t n)
{
	int k = n <= 1 ? 0 : n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ULL ? 4 : 8;
	uint64_t v = 0;
	while (k-- > 0) v = v << 8 | (fzn ? (fzn--, *fz++) : 0);
	return n <= 1 ? 0 : v % n;
}

uint64_t pbt_draw (uint64_t n)
{
	uint64_t v;
	if (n == 0) n = 1;
	if (mode == M_REPLAY) {
		v = tape_pos < tape_len ? tape[tape_pos] : 0;
		tape_pos++;
		return v % n;
	}
	v = mode == M_BYTES ? bytes_draw(n) : rnd() % n;
	tape_push(v);
	return v;
}

uint64_t pbt_enum (uint64_t n)
{
	enum_total = n;
	if (mode != M_RANDOM) return pbt_draw(n);
	// a stride, so that a part of the enumeration is spread over all of it
	uint64_t step = n % 1000003 ? 1000003 : 1;
	uint64_t v = (cur_index % n) * step % n;
	tape_push(v);
	return v;
}
uint64_t pbt_turn (uint64_t v, uint64_t n)
{
	if (mode != M_RANDOM) return pbt_draw(n);
	tape_push(v % n);
	return v % n;
}
uint64_t pbt_index (void) { return cur_index; }

void pbt_eval (uint64_t n) { n_evals += n; }
void pbt_hit (uint64_t h)
{
	n_hits++;
	if (nhashes < HASHCAP) { if (hashes) hashes[nhashes++] = h; }
	else hash_full = true;
}
void pbt_class (const char *name)
{
	for (int i = 0; i < nclasses; i++)
		if (classes[i].name == name || !strcmp(classes[i].name, name)) { classes[i].n++; return; }
	if (nclasses < 128) { classes[nclasses].name = name; classes[nclasses++].n = 1; }
}
bool pbt_want_sample (void) { return nsamples < NSAMPLES && n_cases + 1 >= next_sample; }
void pbt_sample (const char *fmt, ...)
{
	if (!pbt_want_sample()) return;
	char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	samples[nsamples++] = strdup(b);
	next_sample = next_sample * 3 + 7;
}
void pbt_note (const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); vsnprintf(note, sizeof note, fmt, ap); va_end(ap);
}

static void js (FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static void report (bool failed)
{
	FILE *f = out_path ? fopen(out_path, "w") : stdout;
	if (!f) _exit(97);
	fprintf(f, "{\"prop\":"); js(f, cur_prop ? cur_prop->name : "");
	fprintf(f, ",\"cases\":%llu,\"evals\":%llu,\"hits\":%llu,\"hash_full\":%s,\"digest\":\"%016llx\",\"enum_total\":%llu,\"classes\":{",
		(unsigned long long)n_cases, (unsigned long long)n_evals, (unsigned long long)n_hits,
		hash_full ? "true" : "false", (unsigned long long)digest,
		(unsigned long long)enum_total);
	for (int i = 0; i < nclasses; i++) {
		if (i) fputc(',', f);
		js(f, classes[i].name); fprintf(f, ":%llu", (unsigned long long)classes[i].n);
	}
	fprintf(f, "},\"samples\":[");
	for (int i = 0; i < nsamples; i++) { if (i) fputc(',', f); js(f, samples[i]); }
	fprintf(f, "],\"failure\":");
	if (failed) {
		fprintf(f, "{\"index\":%llu,\"msg\":", (unsigned long long)cur_index); js(f, failmsg);
		fprintf(f, ",\"note\":"); js(f, note);
		fprintf(f, ",\"tape\":[");
		size_t n = mode == M_REPLAY && tape_pos < tape_len ? tape_pos : tape_len;
		for (size_t i = 0; i < n; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)tape[i]);
		fprintf(f, "]}");
	} else fprintf(f, "null");
	fprintf(f, "}\n");
	fflush(f);
	if (out_path) fclose(f);
	if (hash_path && hashes) {
		FILE *h = fopen(hash_path, "wb");
		if (h) { fwrite(hashes, 8, nhashes, h); fclose(h); }
	}
	if (digest_fp) fflush(digest_fp);
}

static _Noreturn void die_failed (void)
{
	if (failing++) _exit(96);
	report(true);
	if (cleanup) cleanup();
#ifdef PBT_FUZZ
	fprintf(stderr, "PBT failure: %s\n  %s\n", failmsg, note);
	abort();
#endif
	_exit(1);
}

_Noreturn void pbt_fail (const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); vsnprintf(failmsg, sizeof failmsg, fmt, ap); va_end(ap);
	die_failed();
}

static void on_signal (int sig)
{
	snprintf(failmsg, sizeof failmsg, "crashed with signal %d (%s)", sig,
		sig == SIGSEGV ? "SIGSEGV: invalid memory access" : sig == SIGILL ? "SIGILL" :
		sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGTRAP ? "SIGTRAP: trap instruction" : "abort");
	die_failed();
}
static void on_tick (int sig)
{
	(void)sig;
	if (tick_case != n_cases) { tick_case = n_cases; ticks = 0; return; }
	if (++ticks > cpu_limit) {
		snprintf(failmsg, sizeof failmsg, "does not terminate (more than %.0f s of CPU time in one case)", cpu_limit);
		die_failed();
	}
}

#if defined(__SANITIZE_ADDRESS__) || defined(PBT_SANITIZER)
void __sanitizer_set_death_callback (void (*)(void));
static void on_san (void)
{
	snprintf(failmsg, sizeof failmsg, "sanitizer report (see stderr)");
	if (failing++) return;
	report(true);
}
#endif

static void install (bool timer)
{
#if !defined(PBT_FUZZ)
	static char alt[65536];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_SANITIZER)
	sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	int sigs[] = { SIGSEGV, SIGILL, SIGBUS, SIGFPE, SIGABRT, SIGTRAP };
	for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
#else
	__sanitizer_set_death_callback(on_san);
	(void)on_signal;
#endif
	if (timer) {
		sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART;
		sigaction(SIGPROF, &sa, NULL);
		struct itimerval it = { { 1, 0 }, { 1, 0 } };
		setitimer(ITIMER_PROF, &it, NULL);
	}
#else
	(void)timer; (void)on_signal; (void)on_tick;
#endif
}

static double now (void)
{
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static const struct pbt_prop *find_prop (const char *name)
{
	for (const struct pbt_prop *p = pbt_props; p->name; p++)
		if (!strcmp(p->name, name)) return p;
	fprintf(stderr, "no property %s\n", name);
	exit(98);
}

#ifdef PBT_FUZZ
// The fuzzed property comes from the environment: PBT_PROP; parameters: PBT_PARAMS (k=v,k=v with ';').
int LLVMFuzzerTestOneInput (const uint8_t *data, size_t size)
{
	static bool init;
	if (!init) {
		init = true;
		char *p = getenv("PBT_PARAMS");
		if (p) for (p = strtok(strdup(p), ";"); p; p = strtok(NULL, ";")) params[nparams++] = p;
		out_path = getenv("PBT_OUT");
		cur_prop = find_prop(getenv("PBT_PROP"));
		install(false);
		pbt_setup();
	}
	mode = M_BYTES; fz = data; fzn = size; tape_len = 0; note[0] = 0;
	cur_prop->fn();
	n_cases++;
	return 0;
}
#else
static volatile uint64_t *progress;

int main (int argc, char **argv)
{
	const char *prop = NULL, *replay = NULL, *rbytes = NULL;
	uint64_t seed = 1, cases = 1000, shard = 0, shards = 1, from = 0;
	double tlimit = 1e9;
	for (int i = 1; i < argc; i++) {
		char *a = argv[i], *v = i + 1 < argc ? argv[i + 1] : "";
		if (!strcmp(a, "--prop")) prop = v;
		else if (!strcmp(a, "--seed")) seed = strtoull(v, NULL, 0);
		else if (!strcmp(a, "--cases")) cases = strtoull(v, NULL, 0);
		else if (!strcmp(a, "--from")) from = strtoull(v, NULL, 0);
		else if (!strcmp(a, "--shard")) shard = strtoull(v, NULL, 0);
		else if (!strcmp(a, "--shards")) shards = strtoull(v, NULL, 0);
		else if (!strcmp(a, "--time")) tlimit = strtod(v, NULL);
		else if (!strcmp(a, "--cpu-limit")) cpu_limit = strtod(v, NULL);
		else if (!strcmp(a, "--out")) out_path = v;
		else if (!strcmp(a, "--hashes")) hash_path = v;
		else if (!strcmp(a, "--digests")) digest_path = v;
		else if (!strcmp(a, "--tape-out")) tape_path = v;	// draws of the last case
		else if (!strcmp(a, "--replay")) replay = v;
		else if (!strcmp(a, "--replay-bytes")) rbytes = v;
		else if (!strcmp(a, "--param")) params[nparams++] = v;
		else { fprintf(stderr, "unknown option %s\n", a); return 98; }
		i++;
	}
	if (!prop) { fprintf(stderr, "no property given\n"); return 98; }
	cur_prop = find_prop(prop);
	if (hash_path) hashes = malloc(HASHCAP * sizeof *hashes);
	if (digest_path) digest_fp = fopen(digest_path, "w");
	install(true);
	pbt_setup();
	if (replay) {
		FILE *f = fopen(replay, "r");
		if (!f) { perror(replay); return 98; }
		unsigned long long v;
		while (fscanf(f, " %llu", &v) == 1) { tape_push(v); int c = fgetc(f); if (c != ',' && c != ' ' && c != '\n') break; }
		fclose(f);
		mode = M_REPLAY; tape_pos = 0;
		cur_prop->fn();
		n_cases = 1;
		report(false);
		return 0;
	}
	if (rbytes) {
		FILE *f = fopen(rbytes, "rb");
		if (!f) { perror(rbytes); return 98; }
		static unsigned char b[1 << 20];
		fzn = fread(b, 1, sizeof b, f); fz = b;
		fclose(f);
		mode = M_BYTES; tape_len = 0;
		cur_prop->fn();
		n_cases = 1;
		report(false);
		return 0;
	}
	uint64_t ph = pbt_hash(seed, cur_prop->name, strlen(cur_prop->name));
	double t0 = now();
	bool cut = false;
	bool all = cases == 0;		// the whole enumeration
	static char idx_path[4096];
	int idx_fd = -1;
	if (out_path) {
		snprintf(idx_path, sizeof idx_path, "%s.idx", out_path);
		idx_fd = open(idx_path, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
		if (idx_fd >= 0 && ftruncate(idx_fd, 8) == 0) {
			void *m = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, idx_fd, 0);
			if (m != MAP_FAILED) progress = m;
		}
		if (idx_fd >= 0) close(idx_fd);
	}
	for (uint64_t i = from; all ? !enum_total || i < enum_total : i < cases; i++) {
		if (i % shards != shard) continue;
		if ((n_cases & 15) == 0 && now() - t0 > tlimit) { cut = true; break; }
		cur_index = i;
		if (progress) *progress = i;	// for the engine, should the process die without a word
		rng = pbt_mix(ph ^ pbt_mix(i));
		tape_len = 0; note[0] = 0;
		cur_prop->fn();
		n_cases++;
		if (digest_fp) { fprintf(digest_fp, "%llu %016llx\n", (unsigned long long)i, (unsigned long long)digest); digest = 0xcbf29ce484222325ULL; }
	}
	if (cut) pbt_class("stopped by the time limit");
	report(false);
	if (digest_fp) fclose(digest_fp);
	if (tape_path) {
		FILE *f = fopen(tape_path, "w");
		if (!f) { perror(tape_path); return 98; }
		for (size_t i = 0; i < tape_len; i++) fprintf(f, "%llu\n", (unsigned long long)tape[i]);
		fclose(f);
	}
	return 0;
}
#endif

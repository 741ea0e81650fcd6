// C16 - C21: the command-line program, run as a process of its own.
#define _GNU_SOURCE
#include "cli.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static char exe[4096], wdir[4096];
static const char *runner;
static char errtext[4001];
static int status;
static bool timed_out;

static void rmwork (void)
{
	char cmd[4200];
	if (!wdir[0]) return;
	snprintf(cmd, sizeof cmd, "%s/f", wdir); unlink(cmd);
	snprintf(cmd, sizeof cmd, "%s/-d", wdir); unlink(cmd);
	snprintf(cmd, sizeof cmd, "%s/dir", wdir); rmdir(cmd);
	rmdir(wdir);
}
static pid_t owner;
static void at_exit (void) { if (getpid() == owner) rmwork(); }

void pbt_setup (void)
{
	common_setup();
	cli_buffers();
	ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 32);
	if (k < 0) abort();
	exe[k] = 0;
	*strrchr(exe, '/') = 0;
	snprintf(wdir, sizeof wdir, "%.4000s/w.%d", exe, getpid());
	strcat(exe, "/base64cli");
	if (mkdir(wdir, 0700)) { perror(wdir); exit(98); }
	char d[4200];
	snprintf(d, sizeof d, "%s/dir", wdir);
	if (mkdir(d, 0700)) { perror(d); exit(98); }
	owner = getpid();
	atexit(at_exit);
	pbt_cleanup_hook(rmwork);
	runner = pbt_param("runner", "");
	signal(SIGPIPE, SIG_IGN);
	if (chdir(wdir)) abort();
}

enum delivery { D_STDIN, D_PIPE, D_FILE, D_OFFSET, D_NDELIV };
enum kernel { K_NONE, K_FULL, K_FSIZE, K_CLOSED_OUT, K_CLOSED_IN, K_WRONLY_IN, K_DIR_IN, K_PIPE_SLOW };

static void wr_all (int fd, const void *p, size_t n)
{
	const char *c = p;
	while (n) {
		ssize_t k = write(fd, c, n);
		if (k <= 0) { perror("write"); exit(98); }
		c += k; n -= (size_t)k;
	}
}

static int memf (const void *p, size_t n)
{
	int fd = memfd_create("x", MFD_CLOEXEC);
	if (fd < 0) { perror("memfd_create"); exit(98); }
	if (n) wr_all(fd, p, n);
	lseek(fd, 0, SEEK_SET);
	return fd;
}

// Runs the tool with these arguments on inp; leaves got, gotn, errtext, status.
static void run_tool (char **args, enum delivery dl, enum kernel kn, size_t limit, bool outpipe)
{
	char *av[64];
	int k = 0;
	if (*runner) av[k++] = (char *)runner;
	av[k++] = exe;
	while (*args) av[k++] = *args++;
	av[k] = NULL;
	uint64_t s = dl == D_PIPE || outpipe ? pbt_draw(UINT64_MAX) : 0;
	int in = -1, feed = -1, out, drain = -1, err = memf(NULL, 0), p[2];
	if (kn == K_WRONLY_IN) in = open("f", O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
	else if (kn == K_DIR_IN) in = open("dir", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
	else if (dl == D_PIPE) {
		if (pipe2(p, O_CLOEXEC)) { perror("pipe"); exit(98); }
		in = p[0]; feed = p[1];
		fcntl(feed, F_SETFL, O_NONBLOCK);
		if (s & 1) fcntl(feed, F_SETPIPE_SZ, 4096);
	} else if (dl == D_FILE) {
		int fd = open("f", O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
		if (fd < 0) { perror("f"); exit(98); }
		wr_all(fd, inp, inpn);
		close(fd);
		in = open("/dev/null", O_RDONLY | O_CLOEXEC);
	} else if (dl == D_OFFSET) {
		in = memf("AB=\n", 4);
		lseek(in, 0, SEEK_END);
		wr_all(in, inp, inpn);
		lseek(in, 4, SEEK_SET);
	} else in = memf(inp, inpn);
	if (kn == K_FULL) out = open("/dev/full", O_WRONLY | O_CLOEXEC);
	else if (outpipe) {
		if (pipe2(p, O_CLOEXEC)) { perror("pipe"); exit(98); }
		out = p[1]; drain = p[0];
		fcntl(drain, F_SETFL, O_NONBLOCK);
		if (s & 2) fcntl(out, F_SETPIPE_SZ, 4096);
	} else out = memf(NULL, 0);
	if (in < 0 || out < 0) { perror("open"); exit(98); }
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(98); }
	if (pid == 0) {
		if (kn == K_CLOSED_IN) close(0); else if (dup2(in, 0) < 0) _exit(125);
		if (kn == K_CLOSED_OUT) close(1); else if (dup2(out, 1) < 0) _exit(125);
		dup2(err, 2);
		struct rlimit rl = { 60, 60 };
		setrlimit(RLIMIT_CPU, &rl);
		signal(SIGPIPE, SIG_DFL);
		if (kn == K_FSIZE) {
			signal(SIGXFSZ, SIG_IGN);
			rl.rlim_cur = rl.rlim_max = limit;
			setrlimit(RLIMIT_FSIZE, &rl);
		}
		execvp(av[0], av);
		_exit(126);
	}
	close(in);
	if (outpipe) close(out);
	gotn = 0;
	timed_out = false;
	size_t fed = 0;
	int idle = 0;
	while (feed >= 0 || drain >= 0) {
		struct pollfd pf[2];
		int np = 0;
		if (feed >= 0) pf[np++] = (struct pollfd){ feed, POLLOUT, 0 };
		if (drain >= 0) pf[np++] = (struct pollfd){ drain, POLLIN, 0 };
		if (poll(pf, (nfds_t)np, 1000) == 0 && ++idle > 100) { timed_out = true; break; }
		if (feed >= 0) {
			size_t n = s & 4 ? 1 + sm_(&s) % 9000 : s & 8 ? 1 + sm_(&s) % 100 : 65536;
			if (n > inpn - fed) n = inpn - fed;
			ssize_t w = n ? write(feed, inp + fed, n) : 0;
			if (w > 0) { fed += (size_t)w; idle = 0; }
			if (fed == inpn || (w < 0 && errno != EAGAIN)) { close(feed); feed = -1; }
		}
		if (drain >= 0) {
			size_t n = s & 16 ? 1 + sm_(&s) % 3000 : 1 << 20;
			if (n > BUFCAP - gotn) n = BUFCAP - gotn;
			ssize_t r = read(drain, got + gotn, n);
			if (r > 0) { gotn += (size_t)r; idle = 0; }
			if (r == 0) { close(drain); drain = -1; }
		}
	}
	if (feed >= 0) close(feed);
	if (drain >= 0) close(drain);
	if (timed_out) kill(pid, SIGKILL);
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
	if (kn != K_FULL && !outpipe) {
		ssize_t r;
		while (gotn < BUFCAP && (r = pread(out, got + gotn, BUFCAP - gotn, (off_t)gotn)) > 0) gotn += (size_t)r;
	}
	if (!outpipe) close(out);
	ssize_t r = pread(err, errtext, sizeof errtext - 1, 0);
	errtext[r > 0 ? r : 0] = 0;
	close(err);
	if (WIFEXITED(status) && (WEXITSTATUS(status) == 126 || WEXITSTATUS(status) == 125)) { fprintf(stderr, "cannot run %s\n", av[0]); exit(98); }
}

static const char *st_str (void)
{
	static char b[60];
	if (timed_out) return "did not end";
	if (WIFEXITED(status)) snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(status));
	else snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(status));
	return b;
}
static const char *first_line (void)
{
	static char b[300];
	snprintf(b, sizeof b, "%.250s", errtext);
	char *n = strchr(b, '\n');
	if (n && !strstr(b, "Sanitizer")) *n = 0;
	return b;
}

static void judge (bool ok, const char *what)
{
	pbt_eval(1);
	if (timed_out || !WIFEXITED(status) || strstr(errtext, "Sanitizer"))
		pbt_fail("%s: the tool crashed (%s): %s", what, st_str(), first_line());
	if (ok) {
		if (WEXITSTATUS(status) != 0) pbt_fail("%s: %s, must be 0; stderr: %s", what, st_str(), first_line());
		size_t m = gotn < wantn ? gotn : wantn, d = diff_at(got, want, m);
		if (d < m || gotn != wantn)
			pbt_fail("%s: wrong output: %zu bytes, must be %zu; they differ at offset %zu (%s, must be %s)", what, gotn, wantn, d, pbt_hex(got + d, gotn - d < 24 ? gotn - d : 24), pbt_hex(want + d, wantn - d < 24 ? wantn - d : 24));
	} else {
		if (WEXITSTATUS(status) == 0) pbt_fail("%s: exits with 0, must report failure", what);
		if (!errtext[0]) pbt_fail("%s: no message on standard error (%s)", what, st_str());
		if (gotn > wantn || memcmp(got, want, gotn)) pbt_fail("%s: what it wrote before failing (%zu bytes) is not a prefix of the correct output (%zu bytes), differs at %zu", what, gotn, wantn, diff_at(got, want, gotn < wantn ? gotn : wantn));
	}
}

static size_t maxraw (void) { return pbt_param_u("maxraw", 5 * MIB / 2); }

// Puts the mode into arguments in one of the usual spellings; returns the count.
static char abuf[40][80];
static int plain_args (const struct spec *s, enum delivery dl, char **av)
{
	int k = 0, b = 0;
	if (s->decode) av[k++] = "-d";
	if (s->ignore) av[k++] = "-i";
	if (s->nostrip) av[k++] = "-n";
	if (s->wrap != NOWRAP) { snprintf(abuf[b], 80, "-w%zu", s->wrap); av[k++] = abuf[b++]; }
	if (dl == D_FILE) av[k++] = "f";
	else if (pbt_chance(1, 4)) av[k++] = "-";
	av[k] = NULL;
	return k;
}

static void one (struct spec *s, const char *what, bool nontrivial)
{
	char *av[16];
	enum delivery dl = (enum delivery)pbt_draw(D_NDELIV);
	bool outpipe = pbt_chance(1, 4);
	static const char *dn[] = { "stdin file", "stdin pipe", "file argument", "stdin with an offset" };
	plain_args(s, dl, av);
	model(s);
	pbt_note("base64 %s(%s%s), %zu bytes in %s", spec_str(s), dn[dl], outpipe ? ", output to a pipe" : "", inpn, pbt_hex(inp, inpn));
	run_tool(av, dl, K_NONE, 0, outpipe);
	judge(want_ok, what);
	pbt_class(dn[dl]);
	pbt_class(inpn < 100 ? "under 100 bytes" : inpn < MIB - 8 ? "under a read buffer" : "more than a read buffer");
	if (nontrivial) {
		pbt_hit(pbt_hash(pbt_hash(dl * 2 + outpipe, s, sizeof *s), inp, inpn));
		pbt_sample("base64 %s(%s) on %s", spec_str(s), dn[dl], pbt_hex(inp, inpn < 60 ? inpn : 60));
	}
}

static void p_enc (void)
{
	struct spec s;
	gen_encode(&s, maxraw());
	size_t w = s.wrap == NOWRAP ? 76 : s.wrap;
	pbt_class(w == 0 ? "no wrapping" : w < ref_enclen(inpn) ? "several lines" : "one line");
	one(&s, "encoding", inpn > 0);
}

// Every small length with every small width.
static void p_encexh (void)
{
	struct spec s = { .wrap = 0 };
	uint64_t e = pbt_enum(41 * 27);
	inpn = (size_t)(e / 27);
	s.wrap = e % 27 == 26 ? NOWRAP : (size_t)(e % 27);
	gen_bytes(inp, inpn);
	one(&s, "encoding", inpn > 0);
}

static void p_dec (void)
{
	struct spec s;
	gen_decode(&s, maxraw());
	bool nl = memchr(inp, '\n', inpn) != NULL;
	pbt_class(s.nostrip ? nl ? "-n with newlines" : "-n without newlines" : nl ? "newlines" : "no newlines");
	one(&s, "decoding", inpn > 0);
}

static void p_bad (void)
{
	struct spec s;
	gen_malformed(&s, maxraw());
	model(&s);
	pbt_class(want_ok ? "well-formed after all" : "malformed");
	one(&s, want_ok ? "decoding" : "decoding malformed text", !want_ok);
}

// All strings of up to 5 characters of a small alphabet, alone or after a group.
static void p_badexh (void)
{
	static const unsigned char al[] = { 'A', '=', '/', '!', '\n' };
	size_t k = pbt_param_u("exhlen", 5), tot = 1;
	for (size_t i = 0; i < k; i++) tot *= 6;
	uint64_t e = pbt_enum(tot * 2);
	struct spec s = { .decode = true, .wrap = NOWRAP };
	inpn = 0;
	if (e & 1) { memcpy(inp, "QUJD", 4); inpn = 4; }
	e /= 2;
	for (size_t i = 0; i < k; i++, e /= 6) if (e % 6 < 5) inp[inpn++] = al[e % 6];
	model(&s);
	pbt_class(want_ok ? "well-formed after all" : "malformed");
	one(&s, want_ok ? "decoding" : "decoding malformed text", !want_ok);
}

static void p_garb (void)
{
	struct spec s;
	gen_garbage(&s, maxraw());
	size_t n = 0;
	for (size_t i = 0; i < inpn && !n; i++) n += !is_b64(inp[i]);
	model(&s);
	pbt_class(want_ok ? "well-formed without the garbage" : "malformed without the garbage");
	one(&s, "decoding with --ignore-garbage", n > 0);
}

// Every byte value at every position of some short texts.
static void p_garbexh (void)
{
	static const char *texts[] = { "QUJD", "QQ==", "QUI=", "QUJDRA==" , "/+9a" };
	static const unsigned lens[] = { 5, 5, 5, 9, 5 };
	uint64_t e = pbt_enum(256 * 29);
	unsigned char b = (unsigned char)(e % 256);
	unsigned pos = (unsigned)(e / 256), t = 0;
	while (pos >= lens[t]) pos -= lens[t++];
	size_t n = strlen(texts[t]);
	inpn = 0;
	for (size_t i = 0; i <= n; i++) {
		if (i == pos) inp[inpn++] = b;
		if (i < n) inp[inpn++] = (unsigned char)texts[t][i];
	}
	struct spec s = { .decode = true, .ignore = true, .wrap = NOWRAP };
	one(&s, "decoding with --ignore-garbage", !is_b64(b));
}

// ---------------------------------------------------------------- options

static void p_opts (void)
{
	bool long32 = pbt_param_u("long32", 0);
	struct spec s = { .wrap = NOWRAP };
	char *av[24];
	int k = 0, b = 0;
	bool help = false, bad = false, file = false, badfile = false, lastarg = false;
	int nopt = (int)pbt_draw(6), fpos = pbt_chance(1, 2) ? (int)pbt_draw((uint64_t)nopt + 1) : -1;
	unsigned fkind = (unsigned)pbt_draw(12);
	char desc[1500] = "";
	for (int i = 0; i <= nopt; i++) {
		if (i == fpos) {
			if (fkind == 0) { av[k++] = "nosuchfile"; badfile = true; }
			else if (fkind == 1) { av[k++] = "dir"; badfile = true; }
			else if (fkind == 2) { av[k++] = "nosuchdir/f"; badfile = true; }
			else if (fkind < 6) av[k++] = "-";
			else { av[k++] = "f"; file = true; }
			if (fkind == 11) { av[k++] = pbt_chance(1, 2) ? "f" : "-"; bad = true; }
		}
		if (i == nopt) break;
		unsigned o = (unsigned)pbt_draw(20);
		switch (o) {
		case 0: case 1: av[k++] = "-d"; s.decode = true; break;
		case 2: av[k++] = "--decode"; s.decode = true; break;
		case 3: av[k++] = "-i"; s.ignore = true; break;
		case 4: av[k++] = "--ignore-garbage"; s.ignore = true; break;
		case 5: av[k++] = "-n"; s.nostrip = true; break;
		case 6: av[k++] = "--no-strip-newlines"; s.nostrip = true; break;
		case 7: case 8: case 9: case 10: case 11: {
			size_t w = gen_wrap(120, long32);
			if (w == NOWRAP) w = 76;
			unsigned form = (unsigned)pbt_draw(5);
			const char *zero = pbt_chance(1, 8) ? "00" : "";	// decimal, not octal
			if (form == 0) { snprintf(abuf[b], 80, "-w%s%zu", zero, w); av[k++] = abuf[b++]; }
			else if (form == 1) { snprintf(abuf[b], 80, "--wrap=%s%zu", zero, w); av[k++] = abuf[b++]; }
			else if (form == 4) {	// a group of short options
				snprintf(abuf[b], 80, "-diw%s%zu", zero, w); av[k++] = abuf[b++];
				s.decode = s.ignore = true;
			} else { av[k++] = form == 2 ? "-w" : "--wrap"; snprintf(abuf[b], 80, "%s%zu", zero, w); av[k++] = abuf[b++]; }
			s.wrap = w;
			break;
		}
		case 12: av[k++] = "-dn"; s.decode = s.nostrip = true; break;
		case 13: av[k++] = "-di"; s.decode = s.ignore = true; break;
		case 14: av[k++] = "-ind"; s.decode = s.ignore = s.nostrip = true; break;
		case 15: if (pbt_chance(1, 3)) { av[k++] = pbt_chance(1, 2) ? "-h" : "--help"; help = true; } break;
		case 16: if (pbt_chance(1, 2)) {
			static char *const unk[] = { "-x", "-D", "-W", "--foo", "-dx", "--decoder", "--wrapping=3", "-0", "-8", "--ignore_garbage", "--decode=1", "--help=1" };
			av[k++] = unk[pbt_draw(12)]; bad = true;
		} break;
		case 17: case 18: if (pbt_chance(1, 2)) {
			static char *const inv[] = { "", "-1", "abc", "5x", "0x10", "1e3", "5 ", "1.5", "-0x4", "--1", "7,6", "-99999", "a7", "7\n", "76k" };
			char *v = inv[pbt_draw(15)];
			unsigned form = (unsigned)pbt_draw(3);
			bad = true;
			if (form == 0 && *v) { snprintf(abuf[b], 80, "-w%s", v); av[k++] = abuf[b++]; }
			else if (form == 1) { snprintf(abuf[b], 80, "--wrap=%s", v); av[k++] = abuf[b++]; }
			else { av[k++] = "-w"; av[k++] = v; }
		} break;
		case 19: if (i == nopt - 1 && fpos != nopt && pbt_chance(1, 2)) { av[k++] = pbt_chance(1, 2) ? "-w" : "--wrap"; bad = true; lastarg = true; } break;
		}
	}
	av[k] = NULL;
	(void)lastarg;
	for (int i = 0; i < k; i++) snprintf(desc + strlen(desc), sizeof desc - strlen(desc) - 1, " '%.80s'", av[i]);
	// an input that tells the modes apart
	static const char *texts[] = { "QUJD", "QUJDRA==", "QUJD\nRA==\n", "QU!JD", "QU\nJ D\r\n", "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVpBQkNERUZHSElKS0xNTk9QUVJTVFVWV1hZWkFCQ0RFRkdISUpL\nTE1OTw==\n", "!", "", "Q", "====" };
	const char *t = texts[pbt_draw(10)];
	inpn = strlen(t);
	memcpy(inp, t, inpn);
	model(&s);
	pbt_note("base64%s < %s", desc, pbt_hex(inp, inpn));
	bool nofile = bad || badfile;
	run_tool(av, file ? D_FILE : D_STDIN, K_NONE, 0, false);
	pbt_class(help ? nofile ? "help and something wrong" : "help" : bad ? "wrong usage" : badfile ? "unreadable file" : "accepted");
	if (help && !timed_out && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
		// help wins; whatever else is wrong on the line may go unnoticed
		pbt_eval(1);
		got[gotn] = 0;
		if (!strstr((char *)got, "--decode") || !strstr((char *)got, "--wrap") || !strstr((char *)got, "--ignore-garbage") || !strstr((char *)got, "--no-strip-newlines"))
			pbt_fail("--help: no usage text on standard output: %s", pbt_hex(got, gotn));
	} else if (help && !nofile) {
		pbt_fail("--help: %s, must be 0; stderr: %s", st_str(), first_line());
	} else if (nofile) {
		wantn = 0;
		judge(false, bad ? "wrong usage" : "unreadable file");
	} else judge(want_ok, "options");
	pbt_hit(pbt_hash(pbt_hash(k, desc, strlen(desc)), inp, inpn));
	pbt_sample("base64%s -> %s", desc, st_str());
}

// Anything at all on the command line and in the input (C28): whatever the meaning, the tool ends by itself, with 0 or
// with 1 and a message.
static void p_wild (void)
{
	static const char *const tok[] = { "-d", "-i", "-n", "-w", "-w0", "-w1", "-w76", "-h", "--", "-", "f", "dir", "nothing", "--decode", "--dec", "--wrap", "--wrap=", "--wrap=9", "--wra=4", "--ignore-garbage", "--no-strip", "--n",
		"-w-1", "-w+7", "-w 7", "-w\t7", "-w9223372036854775807", "-w9223372036854775808", "-w18446744073709551616", "-w99999999999999999999999999999999", "-w-99999999999999999999999", "-w0x10", "-w010", "-w7a",
		"-w4294967296", "-w2147483648", "-din", "-dw", "-idw3", "--decode=x", "--x", "-x", "", "-w1e3", "=", "-\xff", "--\x80=", "%s%n%d", "--%s" };
	char *av[40], desc[1200];
	int k = 0;
	size_t dn = 0;
	static char made[8][300];
	static char big[70000];
	unsigned nm = 0, nargs = (unsigned)pbt_draw(5);
	desc[0] = 0;
	for (unsigned i = 0; i < nargs; i++) {
		const char *t = tok[pbt_draw(sizeof tok / sizeof *tok)];
		if (pbt_chance(1, 6) && nm < 8) {	// damaged
			char *m = made[nm++];
			size_t n = strlen(t);
			memcpy(m, t, n + 1);
			if (n) m[pbt_draw(n)] = (char)(1 + pbt_draw(255));
			if (pbt_chance(1, 4)) { size_t e = pbt_draw(250); memset(m + n, (int)(48 + pbt_draw(10)), e); m[n + e] = 0; }
			t = m;
		} else if (pbt_chance(1, 60)) {
			memset(big, 0, sizeof big);
			memset(big, (int)(1 + pbt_draw(255)), 1 + pbt_draw(65000));
			if (pbt_chance(1, 2)) memcpy(big, "-w", 2);
			t = big;
		}
		if (!strcmp(t, "..") || strchr(t, '/')) t = "f";	// nothing outside the work directory
		av[k++] = (char *)t;
		if (dn < sizeof desc - 300) dn += (size_t)snprintf(desc + dn, sizeof desc - dn, " %.200s", pbt_hex(t, strlen(t)));
	}
	av[k] = NULL;
	struct spec s;
	switch (pbt_draw(4)) {
	case 0: gen_encode(&s, 3000); break;
	case 1: gen_malformed(&s, 3000); break;
	default: gen_garbage(&s, 3000); break;
	}
	enum delivery dl = pbt_chance(1, 2) ? D_FILE : D_STDIN;
	pbt_note("base64%s < %s", desc, pbt_hex(inp, inpn));
	run_tool(av, dl, K_NONE, 0, false);
	pbt_eval(1);
	if (timed_out || !WIFEXITED(status)) pbt_fail("base64%s: the tool %s; stderr: %s", desc, st_str(), first_line());
	if (WEXITSTATUS(status) > 1 || strstr(errtext, "Sanitizer") || strstr(errtext, "runtime error")) pbt_fail("base64%s: %s; stderr: %s", desc, st_str(), first_line());
	if (WEXITSTATUS(status) && !errtext[0]) pbt_fail("base64%s: fails without a message", desc);
	pbt_class(WEXITSTATUS(status) ? "wild arguments, refused" : "wild arguments, accepted");
	if (k) pbt_hit(pbt_hash(pbt_hash((uint64_t)k, desc, dn), inp, inpn));
	pbt_sample("base64%s -> %s", desc, st_str());
}

// ---------------------------------------------------------------- faults of the real kernel

static void p_kernel (void)
{
	struct spec s;
	char *av[16];
	size_t limit = 0;
	static const enum kernel ks[] = { K_FULL, K_FSIZE, K_CLOSED_OUT, K_CLOSED_IN, K_WRONLY_IN, K_DIR_IN, K_PIPE_SLOW };
	static const char *kn[] = { "", "stdout is /dev/full", "file size limit", "stdout closed", "stdin closed", "stdin write-only", "stdin is a directory", "slow pipes" };
	enum kernel k = ks[pbt_draw(7)];
	if (pbt_chance(1, 2)) gen_encode(&s, maxraw()); else gen_decode(&s, maxraw());
	bool inbad = k == K_CLOSED_IN || k == K_WRONLY_IN || k == K_DIR_IN;
	if (!inbad && pbt_chance(1, 12)) {
		// the usage text can also get lost
		static const char *hs[] = { "--help", "-h", "-dh" };
		const char *h = hs[pbt_draw(3)];
		char *ha[] = { (char *)h, NULL };
		inpn = 0;
		pbt_note("base64 %s, %s", h, kn[k]);
		run_tool(ha, D_STDIN, K_NONE, 0, false);
		memcpy(want, got, gotn);
		wantn = gotn;
		if (k == K_FSIZE) limit = 400 + pbt_draw(wantn);
		run_tool(ha, k == K_PIPE_SLOW ? D_PIPE : D_STDIN, k, limit, k == K_PIPE_SLOW);
		judge(k == K_PIPE_SLOW || (k == K_FSIZE && limit >= wantn), kn[k]);
		pbt_class("the usage text");
		pbt_hit(pbt_hash(k + limit * 16, h, 3));
		return;
	}
	enum delivery dl = !inbad && k != K_PIPE_SLOW && pbt_chance(1, 3) ? D_FILE : D_STDIN;
	plain_args(&s, dl, av);
	model(&s);
	if (k == K_FSIZE) {
		limit = pbt_chance(1, 3) ? wantn / 76 * 77 : wantn ? pbt_draw(wantn + 2) : 0;
		if (pbt_chance(1, 4)) limit = wantn;
	}
	// the message goes to a file, too, so the limit must leave room for it
	if (k == K_FSIZE && limit < 400) limit = 400;
	pbt_note("base64 %s, %s (limit %zu), %zu bytes in %s", spec_str(&s), kn[k], limit, inpn, pbt_hex(inp, inpn));
	run_tool(av, k == K_PIPE_SLOW ? D_PIPE : dl, k, limit, k == K_PIPE_SLOW);
	bool ok = want_ok;
	if (inbad) ok = false;
	if ((k == K_FULL || k == K_CLOSED_OUT) && wantn) ok = false;
	if (k == K_FSIZE && wantn > limit) ok = false;
	if (!ok && !inbad && !want_ok && (k == K_FULL || k == K_CLOSED_OUT)) wantn = 0;
	if (ok && (k == K_FULL || k == K_CLOSED_OUT)) wantn = 0;
	judge(ok, kn[k]);
	pbt_class(kn[k]);
	if (!ok || k == K_PIPE_SLOW) {
		pbt_hit(pbt_hash(pbt_hash(k + limit * 16, &s, sizeof s), inp, inpn));
		pbt_sample("base64 %s, %s, %zu bytes -> %s", spec_str(&s), kn[k], inpn, st_str());
	}
}

// ---------------------------------------------------------------- beyond 4 GiB, through pipes

// n bytes that repeat base[0..period), the last of them replaced by tail, one
// replaced by bad, cut into lines of w (0: not cut) by sep.
struct flow {
	const unsigned char *base; size_t period;
	uint64_t n, at, badat;
	unsigned char bad;
	unsigned char tail[4]; size_t ntail;
	uint64_t w, col;
	const char *sep; size_t sepn, sepat;	// sepat < sepn: inside a separator
	bool last;		// a separator after an incomplete last line, too
};
static size_t flow_get (struct flow *f, unsigned char *out, size_t cap)
{
	size_t o = 0;
	while (o < cap) {
		if (f->sepat < f->sepn) { out[o++] = (unsigned char)f->sep[f->sepat++]; continue; }
		if (f->w && (f->col == f->w || (f->at == f->n && f->col && f->last))) { f->sepat = 0; f->col = 0; continue; }
		if (f->at == f->n) break;
		uint64_t k = f->w ? f->w - f->col : f->n;
		size_t off = (size_t)(f->at % f->period);
		if (k > f->n - f->at) k = f->n - f->at;
		if (k > f->period - off) k = f->period - off;
		if (k > cap - o) k = cap - o;
		memcpy(out + o, f->base + off, (size_t)k);
		for (size_t i = 0; i < f->ntail; i++) {
			uint64_t p = f->n - f->ntail + i;
			if (p >= f->at && p < f->at + k) out[o + (size_t)(p - f->at)] = f->tail[i];
		}
		if (f->badat >= f->at && f->badat < f->at + k) out[o + (size_t)(f->badat - f->at)] = f->bad;
		f->at += k; f->col += k; o += (size_t)k;
	}
	return o;
}

static void p_huge (void)
{
	// 0 encode, 1 decode, 2 decode malformed text, 3 decode with garbage
	unsigned op = (unsigned)pbt_param_u("op", 0);
	bool long32 = pbt_param_u("long32", 0);
	size_t groups = 60000 + (size_t)pbt_draw(200000);
	gen_bytes(raw, 4096);
	uint64_t z = pbt_draw(UINT64_MAX);
	for (size_t i = 0; i < groups * 3; i++) raw[i] = i < 4096 ? raw[i] : (unsigned char)(sm_(&z) >> 11);
	ref_encode(raw, groups * 3, (char *)tmpb);
	static const uint64_t marks[] = { 1ULL << 32, 1ULL << 31, 3ULL << 30, 1ULL << 32 };
	uint64_t tn = marks[pbt_draw(4)] + pbt_draw(300000000);	// characters of text, or bytes to encode
	struct flow data = { .base = raw, .period = groups * 3, .badat = UINT64_MAX };
	struct flow text = { .base = tmpb, .period = groups * 4, .badat = UINT64_MAX };
	data.n = op == 0 ? tn : tn / 4 * 3 + pbt_draw(3);
	text.n = (data.n + 2) / 3 * 4;
	if (data.n % 3) { text.ntail = 4; ref_encode(raw + (data.n - data.n % 3) % data.period, data.n % 3, (char *)text.tail); }
	char wbuf[40], *av[6], what[300];
	int k = 0;
	uint64_t cut = 0;
	bool ok = true;
	text.sep = "\n"; text.last = op == 0;
	if (op == 0) {
		// in turn: very long lines, usual ones
		static const uint64_t ws[] = { 0x7FFFFFFF, 0x7FFFFFFE, 0x7FFF0001, 0x80000000ULL, 0xFFFFFFFFULL, 0x100000001ULL, 3000000019ULL, 0x80000003ULL };
		if (pbt_turn(pbt_index(), 2) == 0) text.w = ws[pbt_draw(long32 ? 3 : 8)];
		else text.w = pbt_chance(1, 3) ? 30 + pbt_draw(5000000) : pbt_chance(1, 3) ? 0 : 76;
		snprintf(wbuf, sizeof wbuf, "-w%llu", (unsigned long long)text.w);
		if (text.w != 76 || pbt_chance(1, 2)) av[k++] = wbuf;
	} else {
		av[k++] = op == 3 ? "-di" : "-d";
		static const uint64_t ws[] = { 76, 0, 64, 77, 1048573 };
		text.w = ws[pbt_draw(5)];
		if (pbt_chance(1, 4)) text.w = 30 + pbt_draw(5000000);
		if (pbt_chance(1, 2)) text.last = true;
		if (op == 3) text.sep = (const char *[]){ "\r\n", "\n", " ", "-_\x80" }[pbt_draw(4)];
		else if (!text.w && pbt_chance(1, 2)) av[k++] = "-n";
		if (op == 2) {
			ok = false;
			if (pbt_chance(1, 2)) { text.badat = text.n - 5 - pbt_draw(100000000); text.bad = pbt_chance(1, 2) ? '=' : '!'; }
			else cut = 1 + pbt_draw(3);	// truncated
			if (cut) { text.n -= cut; if (text.ntail) text.ntail -= cut; }
		}
	}
	text.sepn = text.sepat = strlen(text.sep);
	if (pbt_chance(1, 3)) av[k++] = "-";
	av[k] = NULL;
	int z2 = snprintf(what, sizeof what, "base64");
	for (int i = 0; i < k; i++) z2 += snprintf(what + z2, sizeof what - (size_t)z2, " %s", av[i]);
	z2 += snprintf(what + z2, sizeof what - (size_t)z2, ", %llu %s in a pipe", (unsigned long long)(op ? text.n : data.n), op ? "characters of text" : "bytes");
	if (op && text.w) z2 += snprintf(what + z2, sizeof what - (size_t)z2, " in lines of %llu", (unsigned long long)text.w);
	if (text.badat != UINT64_MAX) z2 += snprintf(what + z2, sizeof what - (size_t)z2, ", '%c' at %llu", text.bad, (unsigned long long)text.badat);
	if (cut) z2 += snprintf(what + z2, sizeof what - (size_t)z2, ", truncated by %u", (unsigned)cut);
	pbt_note("%s", what);
	struct flow *from = op ? &text : &data, *to = op ? &data : &text;

	int pi[2], po[2], err = memf(NULL, 0);
	if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC)) { perror("pipe"); exit(98); }
	fcntl(pi[1], F_SETPIPE_SZ, 1 << 20); fcntl(po[1], F_SETPIPE_SZ, 1 << 20);
	pid_t feeder = fork();
	if (feeder < 0) { perror("fork"); exit(98); }
	if (feeder == 0) {
		close(pi[0]); close(po[0]); close(po[1]);
		for (size_t n; (n = flow_get(from, got, MIB)); )
			for (size_t o = 0; o < n; ) { ssize_t w = write(pi[1], got + o, n - o); if (w <= 0) _exit(0); o += (size_t)w; }
		_exit(0);
	}
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(98); }
	if (pid == 0) {
		char *cv[10]; int c = 0;
		if (*runner) cv[c++] = (char *)runner;
		cv[c++] = exe;
		for (int i = 0; i <= k; i++) cv[c + i] = av[i];
		dup2(pi[0], 0); dup2(po[1], 1); dup2(err, 2);
		struct rlimit rl = { 400, 400 };
		setrlimit(RLIMIT_CPU, &rl);
		signal(SIGPIPE, SIG_DFL);
		execvp(cv[0], cv);
		_exit(126);
	}
	close(pi[0]); close(pi[1]); close(po[1]);
	uint64_t seen = 0;
	bool wrong = false;
	uint64_t wrongat = 0;
	timed_out = false;
	for (;;) {
		struct pollfd pf = { po[0], POLLIN, 0 };
		if (poll(&pf, 1, 200000) == 0) { timed_out = true; break; }
		ssize_t r = read(po[0], got, MIB);
		if (r <= 0) break;
		size_t e = flow_get(to, want, (size_t)r);
		if (!wrong && (e != (size_t)r || memcmp(got, want, e))) { wrong = true; wrongat = seen + diff_at(got, want, e); break; }
		seen += (uint64_t)r;
	}
	if (wrong || timed_out) { kill(pid, SIGKILL); kill(feeder, SIGKILL); }
	close(po[0]);
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
	kill(feeder, SIGKILL);
	int fst; while (waitpid(feeder, &fst, 0) < 0 && errno == EINTR) ;
	ssize_t r = pread(err, errtext, sizeof errtext - 1, 0);
	errtext[r > 0 ? r : 0] = 0;
	close(err);
	pbt_eval(1);
	if (wrong) pbt_fail("%s: the output is wrong at offset %llu", what, (unsigned long long)wrongat);
	if (timed_out || !WIFEXITED(status)) pbt_fail("%s: the tool %s", what, st_str());
	if (ok) {
		if (WEXITSTATUS(status)) pbt_fail("%s: %s, must be 0; stderr: %s", what, st_str(), first_line());
		if (flow_get(to, want, 1)) pbt_fail("%s: the output ends after %llu bytes, too early", what, (unsigned long long)seen);
	} else {
		uint64_t most = text.badat != UINT64_MAX ? text.badat / 4 * 3 + 2 : text.n / 4 * 3 + 2;
		if (WEXITSTATUS(status) == 0) pbt_fail("%s: exits with 0, must report failure", what);
		if (!errtext[0]) pbt_fail("%s: no message on standard error", what);
		if (seen > most) pbt_fail("%s: %llu bytes of output, there are only %llu before the damage", what, (unsigned long long)seen, (unsigned long long)most);
	}
	pbt_class("beyond 2 GiB");
	pbt_hit(pbt_hash(pbt_mix(text.n) ^ op, &text.w, 8) ^ pbt_mix(text.badat));
	pbt_sample("%s", what);
}

const struct pbt_prop pbt_props[] = {
	{ "cli_huge", p_huge },
	{ "cli_enc", p_enc }, { "cli_encexh", p_encexh }, { "cli_dec", p_dec }, { "cli_bad", p_bad }, { "cli_badexh", p_badexh }, { "cli_garb", p_garb }, { "cli_garbexh", p_garbexh },
	{ "cli_opts", p_opts }, { "cli_wild", p_wild }, { "cli_kernel", p_kernel }, { NULL, NULL },
};

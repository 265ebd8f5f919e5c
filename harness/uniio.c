#include "h.h"
#include "uniio.h"
#include "uniscanner.h"
#include "uniprinter.h"
#include "utf8.h"
#include <float.h>

/* Input: the same operations on a file and on a memory buffer, both against a byte-string model.
 * Output: the same operations on a file, a growing buffer and a user function. */
static const char *TEXT[] = { "", "x", "a1 \xd0\xb9_z9;", "12 -3.5e2x.5", "\n\xe2\x82\xac\"\t\xf0\x9f\x98\x80 1e5 0x1F", "if(a)b=1;\r\n\xd1\x84" };
#define NTEXT 6
static char dir[256], path[NTEXT][300], outpath[300];
/* conversions with their sub-specifiers; every value fits the union */
static const char *SPEC[] = { "%i", "%d", "%u", "%o", "%x", "%X", "%ld", "%hd", "%hhi", "%lld", "%jd", "%zu", "%td", "%f", "%F", "%e", "%E", "%g", "%G", "%a", "%A", "%lf", "%Lg", "%2d", "%1s", "%s", "%3c", "%[a-z]", "%[^;]", "%p" };
#define NSPEC 30
typedef union { char c[64]; long double d; long long l; } cell;
enum { K_TEXT, K_CHAR, K_UNCHAR, K_IDENT, K_UNIDENT, K_NUM, K_C, K_SPEC, K_SAVE, K_GOTO, K_POS0, K_POSEND, K_POSBAD, K_POSMAX, K_SWAP, K_REOPEN, K_CLOSE
	, K_OUT, K_PCHAR, K_PSTR, K_PINT, K_PDBL, K_PEMPTY, K_PLONG, K_OSWAP };
static struct { int k, a; } OPS[128];
static int nops;
static void add(int k, int a) { OPS[nops].k = k; OPS[nops].a = a; nops++; }
static const char32_t CH[] = { 'q', 0x439, 0x20ac, 0x1f600, '%', '\n' };
static bool en(const int *ops, int n, int op)
{
	const int k = OPS[op].k;
	if (n == 0) return k == K_TEXT || k == K_OUT;
	if (k == K_TEXT || k == K_OUT) return false;
	if (k == K_SPEC) for (int i = 1; i < n; i++) if (OPS[ops[i]].k == K_SPEC) return false;
	return (OPS[ops[0]].k == K_OUT) == (k > K_OUT);
}
static void harness_init(void)
{
	enabled = en;
	const char *t = getenv("H_DIR");
	snprintf(dir, sizeof dir, "%s/%d", t ? t : "/tmp", (int)getpid());
	char cmd[400];
	snprintf(cmd, sizeof cmd, "mkdir -p %s", dir);
	if (system(cmd)) exit(4);
	for (int i = 0; i < NTEXT; i++)
	{
		snprintf(path[i], sizeof path[i], "%s/t%d", dir, i);
		FILE *f = fopen(path[i], "wb");
		if (!f) exit(4);
		fputs(TEXT[i], f);
		fclose(f);
		add(K_TEXT, i);
	}
	snprintf(outpath, sizeof outpath, "%s/out", dir);
	for (int k = K_CHAR; k <= K_CLOSE; k++) if (k != K_SPEC) add(k, 0);
	for (int i = 0; i < NSPEC; i++) add(K_SPEC, i);
	add(K_OUT, 0); add(K_OUT, 1); add(K_OUT, 5);
	for (int i = 0; i < 6; i++) add(K_PCHAR, i);
	add(K_PSTR, 0); add(K_PINT, 0); add(K_PDBL, 0); add(K_PEMPTY, 0); add(K_PLONG, 0); add(K_OSWAP, 0);
}
int op_count(void) { return nops; }
void op_name(int op, char *o)
{
	static const char *N[] = { "input text", "scan_char", "unscan_char", "scan_identifier", "unscan identifier", "scan_number", "scanf(%c)", "scanf, conversion", "save position", "restore position"
		, "set_position(0)", "set_position(end)", "set_position(end+1)", "set_position(SIZE_MAX)", "swap inputs", "open again", "clear"
		, "output buffer of size", "print_char", "printf(%s)", "printf(%d)", "printf(%.3f)", "printf(empty)", "printf(300 characters)", "swap outputs" };
	sprintf(o, "%s %d", N[OPS[op].k], OPS[op].a);
}
static char capt[8192];
static size_t capn;
static int capture(const char *const fmt, va_list ap) { int r = vsnprintf(&capt[capn], sizeof capt - capn, fmt, ap); if (r > 0) capn += (size_t)r; return r; }

static void run_out(const int *ops, int n)
{
	static char ref[8192], big[301], got[8192];
	size_t rn = 0;
	universal_io f = io_create(), b = io_create(), u = io_create(), other = io_create();
	CHECK(uni_printf(&f, "x") == -1, "printing to a closed channel was not refused");
	capn = 0;
	CHECK(!out_set_file(&f, outpath) && !out_set_buffer(&b, (size_t)OPS[ops[0]].a) && !out_set_func(&u, capture), "opening failed");
	CHECK(out_is_file(&f) && !out_is_buffer(&f) && out_is_buffer(&b) && !out_is_file(&b) && out_is_func(&u) && out_is_correct(&u), "kind of channel differs");
	universal_io *fp = &f, *bp = &b, *up = &u;
	memset(big, 'L', 300); big[299] = '.'; big[300] = 0;
	for (int i = 1; i < n; i++)
	{
		const int a = OPS[ops[i]].a;
		int r[3], e = 0;
		universal_io *io[3] = { fp, bp, up };
		char exp[400] = "";
		if (OPS[ops[i]].k == K_OSWAP)
		{
			CHECK(out_swap(bp, &other) == 0 && !out_is_correct(bp) && out_is_buffer(&other), "swap of outputs differs");
			CHECK(out_swap(bp, &other) == 0, "swap failed");
			continue;
		}
		for (int j = 0; j < 3; j++)
		{
			switch (OPS[ops[i]].k)
			{
				case K_PCHAR: r[j] = uni_print_char(io[j], CH[a]); e = (int)utf8_to_string(exp, CH[a]); break;
				case K_PSTR: r[j] = uni_printf(io[j], "<%s|%s>", "ab", ""); e = sprintf(exp, "<%s|%s>", "ab", ""); break;
				case K_PINT: r[j] = uni_printf(io[j], "%d %zu", -17, (size_t)9); e = sprintf(exp, "%d %zu", -17, (size_t)9); break;
				case K_PDBL: r[j] = uni_printf(io[j], "%.3f", 2.5); e = sprintf(exp, "%.3f", 2.5); break;
				case K_PEMPTY: r[j] = uni_printf(io[j], "%s", ""); break;
				default: r[j] = uni_printf(io[j], "%s", big); e = sprintf(exp, "%s", big); break;
			}
		}
		CHECK(r[0] == e && r[1] == e && r[2] == e, "printing returned %d (file), %d (buffer), %d (function), expected %d", r[0], r[1], r[2], e);
		memcpy(&ref[rn], exp, (size_t)e);
		rn += (size_t)e;
	}
	ref[rn] = 0;
	CHECK(capn == rn && !memcmp(capt, ref, rn), "text sent to the user function differs");
	char p[512];
	CHECK(out_get_path(fp, p) == strlen(outpath) && !strcmp(p, outpath), "path of the output is %s", p);
	CHECK(out_clear(fp) == 0 && !out_is_correct(fp) && uni_printf(fp, "x") == -1, "a closed output is usable");
	FILE *fh = fopen(outpath, "rb");
	const size_t gn = fread(got, 1, sizeof got - 1, fh);
	fclose(fh);
	CHECK(gn == rn && !memcmp(got, ref, rn), "contents of the file differ");
	char *x = out_extract_buffer(bp);
	CHECK(x != NULL && !strcmp(x, ref), "contents of the buffer differ");
	CHECK(!out_is_correct(bp) && out_extract_buffer(bp) == NULL, "an extracted buffer is still there");
	free(x);
	/* used again: nothing of the earlier text is left */
	universal_io *again[3] = { bp, fp, up };
	for (int j = 0; j < 3; j++)
	{
		CHECK(out_set_buffer(again[j], j ? 5 : 1) == 0 && out_is_buffer(again[j]) && !out_is_func(again[j]) && !out_is_file(again[j]), "reopening failed");
		CHECK(uni_printf(again[j], "%s%i", "again", 7) == 6, "printing after reopening failed");
		x = out_extract_buffer(again[j]);
		CHECK(x != NULL && !strcmp(x, "again7"), "a reopened buffer holds other text");
		free(x);
	}
	io_erase(up);
}

/* model of the input: position in the text */
static size_t mdecode(const char *s, char32_t *c)
{
	if (!*s) { *c = (char32_t)EOF; return 0; }
	*c = utf8_convert(s);
	return utf8_symbol_size(*s);
}
void run(const int *ops, int n)
{
	if (n == 0) return;
	if (OPS[ops[0]].k == K_OUT) { run_out(ops, n); return; }
	int t = OPS[ops[0]].a;
	const char *s = TEXT[t];
	universal_io v[2] = { io_create(), io_create() }, w[2] = { io_create(), io_create() };
	static char heap[2][256];
	CHECK(!in_set_file(&v[0], path[t]) && !in_set_buffer(&v[1], s), "opening failed");
	CHECK(in_is_file(&v[0]) && !in_is_buffer(&v[0]) && in_is_buffer(&v[1]) && in_get_buffer(&v[1]) == s && in_get_buffer(&v[0]) == NULL, "kind of channel differs");
	size_t pos = 0, saved = 0;
	char32_t last = (char32_t)EOF;
	char ident[64] = "";
	size_t unpos = SIZE_MAX;
	bool open = true;
	for (int i = 1; i < n; i++)
	{
		const int k = OPS[ops[i]].k;
		size_t np = pos;
		char32_t mc = 0;
		for (int j = 0; j < 2; j++)
		{
			universal_io *io = &v[j];
			np = pos;
			switch (k)
			{
				case K_CHAR:
				{
					const char32_t c = uni_scan_char(io);
					if (open) np = pos + mdecode(s + pos, &mc); else mc = (char32_t)EOF;
					CHECK(c == mc, "%s: read U+%x, expected U+%x", j ? "buffer" : "file", (unsigned)c, (unsigned)mc);
					break;
				}
				case K_UNCHAR:
					if (unpos == SIZE_MAX || !open) goto next;
					CHECK(uni_unscan_char(io, last) == 0, "%s: cannot put a character back", j ? "buffer" : "file");
					np = unpos;
					break;
				case K_IDENT:
				{
					if (!open) goto next;
					char *b = malloc(256);
					char m[64] = "";
					size_t ml = 0;
					char32_t c;
					size_t q = pos, l = mdecode(s + q, &c);
					if (utf8_is_letter(c)) while (utf8_is_letter(c) || utf8_is_digit(c)) { memcpy(m + ml, s + q, l); ml += l; q += l; l = mdecode(s + q, &c); }
					m[ml] = 0;
					const size_t r = uni_scan_identifier(io, b);
					CHECK(r == ml && (ml == 0 || !strcmp(b, m)), "%s: identifier read differs from \"%s\"", j ? "buffer" : "file", m);
					free(b);
					np = q;
					strcpy(heap[j], m);
					break;
				}
				case K_UNIDENT:
					if (!open || pos < strlen(ident) || memcmp(s + pos - strlen(ident), ident, strlen(ident))) goto next;
					CHECK(uni_unscan(io, ident) == 0, "cannot put text back");
					np = pos - strlen(ident);
					break;
				case K_NUM:
				{
					if (!open) goto next;
					char *b = malloc(256);
					b[0] = 0;
					size_t l = 0;
					double d = 0;
					if (sscanf(s + pos, "%lf%zn", &d, &l) != 1) l = 0;
					const size_t r = uni_scan_number(io, b);
					CHECK(r == l && (l == 0 || (!strncmp(b, s + pos, l) && b[l] == 0)), "%s: number read has %zu bytes, expected %zu", j ? "buffer" : "file", r, l);
					free(b);
					np = pos + l;
					break;
				}
				case K_C:
				{
					/* one byte; only where it is a whole character */
					if (!open || (s[pos] & 0x80)) goto next;
					char c = 0;
					const int r = uni_scanf(io, "%c", &c);
					CHECK(r == (s[pos] != 0) && c == s[pos], "%s: scanf returned %d", j ? "buffer" : "file", r);
					np = pos + (s[pos] != 0);
					break;
				}
				case K_SPEC:
				{
					/* one conversion that succeeds and ends between two characters */
					if (!open) goto next;
					cell m, x;
					char f[32];
					size_t l = 0;
					memset(&m, 0, sizeof m); memset(&x, 0, sizeof x);
					sprintf(f, "%s%%zn", SPEC[OPS[ops[i]].a]);
					if (sscanf(s + pos, f, &m, &l) != 1 || l == 0 || (s[pos + l] & 0xC0) == 0x80) goto next;
					const int r = uni_scanf(io, SPEC[OPS[ops[i]].a], &x);
					CHECK(r == 1 && !memcmp(&m, &x, sizeof m), "%s: scanf of %s returned %d or reads another value", j ? "buffer" : "file", SPEC[OPS[ops[i]].a], r);
					np = pos + l;
					break;
				}
				case K_SAVE: break;
				case K_GOTO: case K_POS0: case K_POSEND: case K_POSBAD: case K_POSMAX:
				{
					const size_t to = k == K_GOTO ? saved : k == K_POS0 ? 0 : k == K_POSEND ? strlen(s) : k == K_POSBAD ? strlen(s) + 1 : SIZE_MAX;
					const int e = in_set_position(io, to);
					CHECK((e == 0) == (open && to <= strlen(s)), "%s: set_position(%zu) returned %d", j ? "buffer" : "file", to, e);
					if (e == 0) np = to;
					break;
				}
				case K_SWAP:
					CHECK(in_swap(io, &w[j]) == 0 && in_is_correct(&w[j]) == open && !in_is_correct(io) && in_get_position(io) == 0, "swap of inputs differs");
					CHECK(in_get_position(&w[j]) == pos, "swap loses the position");
					CHECK(in_swap(io, &w[j]) == 0, "swap failed");
					/* exchange with another open input, there and back; each keeps its text, position and end */
					for (int o = 0; o < 4; o++)
					{
						const int ot = o % 2 ? 3 : 1;
						CHECK((o / 2 ? in_set_buffer(&w[j], TEXT[ot]) : in_set_file(&w[j], path[ot])) == 0, "opening failed");
						CHECK(uni_scan_char(&w[j]) == (char32_t)TEXT[ot][0], "first character differs");
						CHECK(in_swap(io, &w[j]) == 0 && in_get_position(io) == 1 && in_get_position(&w[j]) == pos, "swap differs");
						CHECK(in_set_position(io, strlen(TEXT[ot]) + 1) != 0 && in_set_position(io, strlen(TEXT[ot])) == 0, "swap changes the end of the input");
						CHECK(uni_scan_char(io) == (char32_t)EOF, "swap changes the end of the input");
						if (open) CHECK(in_set_position(&w[j], strlen(s) + 1) != 0 && in_set_position(&w[j], strlen(s)) == 0 && in_set_position(&w[j], pos) == 0, "swap changes the end of the input");
						CHECK(in_swap(io, &w[j]) == 0, "swap failed");
						if (open) CHECK(in_set_position(io, strlen(s) + 1) != 0 && in_set_position(io, strlen(s)) == 0 && in_set_position(io, pos) == 0, "swap changes the end of the input");
						CHECK(in_set_position(&w[j], strlen(TEXT[ot]) + 1) != 0 && in_set_position(&w[j], 0) == 0, "swap changes the end of the input");
						CHECK(uni_scan_char(&w[j]) == (char32_t)TEXT[ot][0] && in_clear(&w[j]) == 0, "swap differs");
					}
					break;
				case K_REOPEN:
					CHECK((j ? in_set_buffer(io, s) : in_set_file(io, path[t])) == 0, "opening failed");
					np = 0;
					break;
				case K_CLOSE: CHECK(in_clear(io) == 0, "clear failed"); np = 0; break;
			}
			if (k == K_CLOSE && j == 1) open = false;
			if (k == K_REOPEN && j == 1) open = true;
			CHECK(in_get_position(io) == np, "%s: position is %zu, expected %zu", j ? "buffer" : "file", in_get_position(io), np);
			CHECK(in_is_correct(io) == (k == K_CLOSE ? false : k == K_REOPEN ? true : open), "correctness differs");
			if (k == K_CLOSE && j == 0) continue;
		}
		if (k == K_IDENT) strcpy(ident, heap[0]);
		if (k == K_CHAR && open) { last = mc; unpos = pos; }
		else if (k != K_SAVE && k != K_SWAP) unpos = SIZE_MAX;
		if (k == K_SAVE) saved = pos;
		pos = np;
		next:;
	}
	if (open)
	{
		/* the rest is read exactly once, to the end, the same on both */
		for (int j = 0; j < 2; j++)
		{
			size_t q = pos;
			while (true)
			{
				char32_t c;
				const size_t l = mdecode(s + q, &c);
				const char32_t r = uni_scan_char(&v[j]);
				CHECK(r == c, "%s: the rest differs at %zu", j ? "buffer" : "file", q);
				if (l == 0) break;
				q += l;
			}
			CHECK(uni_scan_char(&v[j]) == (char32_t)EOF, "reading past the end");
		}
		char p[512];
		CHECK(in_get_path(&v[0], p) == strlen(path[t]) && !strcmp(p, path[t]), "path of the input differs");
	}
	io_erase(&v[0]); io_erase(&v[1]);
}

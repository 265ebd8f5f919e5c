#include "h.h"
#include <sys/stat.h>
#include "workspace.h"

/* spelling, what it denotes (NULL: does not exist) */
static char LONGEST[MAX_ARG_SIZE + 1], TOOLONG[MAX_ARG_SIZE + 1], longest[MAX_ARG_SIZE + 1], toolong[MAX_ARG_SIZE + 1];
static const struct { const char *s, *n; } FILES[] = { { "a.c", "a.c" }, { "./a.c", "a.c" }, { "d/../a.c", "a.c" }, { "b.c", "b.c" }, { "d/a.c", "d/a.c" }
	, { "d\\a.c", "d/a.c" }, { "./d/e/.././a.c", "d/a.c" }, { "d/e/x.c", "d/e/x.c" }, { "d/e/../../d/e/x.c", "d/e/x.c" }, { "../w/b.c", "../w/b.c" }, { ".hid/..x.c", ".hid/..x.c" }
	, { "..hid/../b.c", "b.c" }, { "x./a.c", "x./a.c" }, { "d/.e/./x.c", "d/.e/x.c" }, { ".//a.c", "a.c" }, { "d//a.c", "d/a.c" }, { "d/..//a.c", "a.c" }, { "d/e//..///a.c", "d/a.c" }, { ".//.\\\\d//a.c", "d/a.c" }, { "../../q.c", "../../q.c" }, { "./..\\..\\q.c", "../../q.c" }, { "d/e/../../../../../q3.c", "../../../q3.c" }, { "../../v/w/../../q.c", "../../q.c" }, { LONGEST, "a.c" }, { TOOLONG, NULL }, { "missing.c", NULL }, { "d/missing.c", NULL }, { "", NULL } };
#define NFILE 28
static const struct { const char *s, *n; } DIRS[] = { { "d", "d" }, { "d/", "d" }, { "./d", "d" }, { "d/e/", "d/e" }, { "d/e/../", "d" }, { ".", "." }, { "./", "." }, { "d/../", "." }, { "d//", "d" }, { ".//d/", "d" }, { "d/..//", "." }, { "../..", "../.." }, { "d/../../../", "../.." }, { "nodir", NULL }, { "", NULL } };
#define NDIR 15
static const char *FLAG[] = { "-VM", "-Wno", "-Wn", "-I", "-Id", "-I./d/", "-Inodir", "-", "-oo", "-O" };
#define NFLAG 10
static const char *OUT[] = { "o.txt", "long", "", longest, toolong };
enum { K_API, K_ARGV, K_FILE, K_DIR, K_FLAG, K_OUT, K_ARG, K_FILES2, K_NULL };
static struct { int k, a; } OPS[128];
static int nops;
static const char *ARG[] = { "a.c", "./a.c", "b.c", "d/a.c", "missing.c", "-VM", "-LLVM", "-Wno", "-Id", "-I./d/e", "-I", "-Inodir", "-o", "o.txt", "p.txt", "-E", "-" };
#define NARG 17
static char longname[3000], dirname_[300];
static void add(int k, int a) { OPS[nops].k = k; OPS[nops].a = a; nops++; }
static bool en(const int *ops, int n, int op)
{
	if (n == 0) return OPS[op].k <= K_ARGV;
	if (OPS[op].k <= K_ARGV) return false;
	return (OPS[ops[0]].k == K_ARGV) == (OPS[op].k == K_ARG);
}
static void touch(const char *p) { FILE *f = fopen(p, "w"); if (!f) exit(4); fclose(f); }
static void harness_init(void)
{
	enabled = en;
	snprintf(dirname_, sizeof dirname_, "%s/%d", getenv("H_DIR") ? getenv("H_DIR") : "/tmp", (int)getpid());
	mkdir(dirname_, 0755);
	if (chdir(dirname_)) exit(4);
	touch("../q3.c"); touch("q.c");
	mkdir("v", 0755); mkdir("v/w", 0755);
	if (chdir("v/w")) exit(4);
	memset(longest, 'o', MAX_ARG_SIZE - 1); memset(toolong, 'o', MAX_ARG_SIZE);
	memset(LONGEST, '/', MAX_ARG_SIZE - 1); memset(TOOLONG, '/', MAX_ARG_SIZE);
	LONGEST[0] = TOOLONG[0] = '.';
	memcpy(LONGEST + MAX_ARG_SIZE - 4, "a.c", 3); memcpy(TOOLONG + MAX_ARG_SIZE - 3, "a.c", 3);
	mkdir("d", 0755); mkdir("d/e", 0755); mkdir(".hid", 0755); mkdir("..hid", 0755); mkdir("x.", 0755); mkdir("d/.e", 0755);
	touch("a.c"); touch("b.c"); touch("d/a.c"); touch("d/e/x.c"); touch(".hid/..x.c"); touch("x./a.c"); touch("d/.e/x.c"); touch("o.txt"); touch("p.txt");
	memset(longname, 'n', 2000);
	add(K_API, 0); add(K_ARGV, 0);
	for (int i = 0; i < NFILE; i++) add(K_FILE, i);
	for (int i = 0; i < NDIR; i++) add(K_DIR, i);
	for (int i = 0; i < NFLAG; i++) add(K_FLAG, i);
	for (int i = 0; i < 5; i++) add(K_OUT, i);
	add(K_FILES2, 0); add(K_FILES2, 1); add(K_NULL, 0);
	for (int i = 0; i < NARG; i++) add(K_ARG, i);
}
int op_count(void) { return nops; }
void op_name(int op, char *o)
{
	const int a = OPS[op].a;
	switch (OPS[op].k)
	{
		case K_API: sprintf(o, "create"); break;
		case K_ARGV: sprintf(o, "arguments:"); break;
		case K_FILE: sprintf(o, "add_file(%.40s%s)", FILES[a].s, FILES[a].s == LONGEST ? "..., longest" : FILES[a].s == TOOLONG ? "..., too long" : ""); break;
		case K_DIR: sprintf(o, "add_dir(%s)", DIRS[a].s); break;
		case K_FLAG: sprintf(o, "add_flag(%s)", FLAG[a]); break;
		case K_OUT: sprintf(o, "set_output(%.10s%s)", OUT[a], a == 3 ? "..., longest" : a == 4 ? "..., too long" : ""); break;
		case K_ARG: sprintf(o, "%s", ARG[a]); break;
		case K_FILES2: sprintf(o, "%s", a ? "add_dirs({d, .})" : "add_files({b.c, ./a.c})"); break;
		case K_NULL: sprintf(o, "add_flag(NULL)"); break;
	}
}
static const char *mf[MAXOPS * 2], *md[MAXOPS * 2], *mg[MAXOPS], *mo;
static int nf, nd, ng;
static bool bad;
static int mput(const char **l, int *n, const char *x) { for (int i = 0; i < *n; i++) if (!strcmp(l[i], x)) return i; l[*n] = x; return (*n)++; }
static size_t m_file(const char *s) { if (bad) return SIZE_MAX; for (int i = 0; i < NFILE; i++) if (!strcmp(FILES[i].s, s) && FILES[i].n) return (size_t)mput(mf, &nf, FILES[i].n);
	if (!strcmp(s, "o.txt") || !strcmp(s, "p.txt")) return (size_t)mput(mf, &nf, s);
	bad = true; return SIZE_MAX; }
static size_t m_dir(const char *s) { if (bad) return SIZE_MAX; for (int i = 0; i < NDIR; i++) if (!strcmp(DIRS[i].s, s) && DIRS[i].n) return (size_t)mput(md, &nd, DIRS[i].n);
	if (!strcmp(s, "./d/")) return (size_t)mput(md, &nd, "d");
	if (!strcmp(s, "./d/e")) return (size_t)mput(md, &nd, "d/e");
	bad = true; return SIZE_MAX; }
static size_t m_flag(const char *s) { if (bad) return SIZE_MAX; return s[0] == '-' && s[1] == 'I' ? m_dir(s + 2) : (size_t)mput(mg, &ng, s); }
void run(const int *ops, int n)
{
	if (n == 0) return;
	nf = nd = ng = 0; mo = NULL; bad = false;
	workspace ws;
	if (OPS[ops[0]].k == K_ARGV)
	{
		const char *argv[MAXOPS] = { "ruc" };
		for (int i = 1; i < n; i++) argv[i] = ARG[OPS[ops[i]].a];
		ws = ws_parse_args(n, argv);
		for (int i = 1; i < n && !bad; i++)
		{
			if (argv[i][0] != '-') m_file(argv[i]);
			else if (!strcmp(argv[i], "-o")) { if (i + 1 < n) mo = argv[++i]; else bad = true; }
			else m_flag(argv[i]);
		}
	}
	else
	{
		ws = ws_create();
		for (int i = 1; i < n; i++)
		{
			const int a = OPS[ops[i]].a;
			size_t r, e;
			switch (OPS[ops[i]].k)
			{
				case K_FILE: r = ws_add_file(&ws, FILES[a].s); e = m_file(FILES[a].s); CHECK(r == e, "add_file returned %zd, expected %zd", (ssize_t)r, (ssize_t)e); break;
				case K_DIR: r = ws_add_dir(&ws, DIRS[a].s); e = m_dir(DIRS[a].s); CHECK(r == e, "add_dir returned %zd, expected %zd", (ssize_t)r, (ssize_t)e); break;
				case K_FLAG: r = ws_add_flag(&ws, FLAG[a]); e = m_flag(FLAG[a]); CHECK(r == e, "add_flag returned %zd, expected %zd", (ssize_t)r, (ssize_t)e); break;
				case K_OUT:
				{
					const int x = ws_set_output(&ws, a == 1 ? longname : OUT[a]);
					CHECK((x == 0) == (!bad && a != 1 && a != 4), "set_output returned %d", x);
					if (a == 1 || a == 4) bad = true;
					if (!bad) mo = OUT[a];
					break;
				}
				case K_FILES2:
				{
					const char *l[2][2] = { { "b.c", "./a.c" }, { "d", "." } };
					const int x = a ? ws_add_dirs(&ws, l[1], 2) : ws_add_files(&ws, l[0], 2);
					CHECK((x == 0) == !bad, "adding two returned %d", x);
					for (int j = 0; j < 2; j++) { if (a) m_dir(l[1][j]); else m_file(l[0][j]); }
					break;
				}
				case K_NULL: CHECK(ws_add_flag(&ws, NULL) == SIZE_MAX, "null flag accepted"); bad = true; break;
			}
		}
	}
	CHECK(ws_is_correct(&ws) == !bad, "the workspace is %scorrect", bad ? "" : "in");
	if (bad) nf = nd = ng = 0, mo = NULL;
	CHECK(ws_get_files_num(&ws) == (size_t)nf, "%zu files, expected %d", ws_get_files_num(&ws), nf);
	CHECK(ws_get_dirs_num(&ws) == (size_t)nd, "%zu directories, expected %d", ws_get_dirs_num(&ws), nd);
	CHECK(ws_get_flags_num(&ws) == (size_t)ng, "%zu flags, expected %d", ws_get_flags_num(&ws), ng);
	for (int i = 0; i < nf; i++) CHECK(!strcmp(ws_get_file(&ws, (size_t)i), mf[i]), "file %d is %s, expected %s", i, ws_get_file(&ws, (size_t)i), mf[i]);
	for (int i = 0; i < nd; i++) CHECK(!strcmp(ws_get_dir(&ws, (size_t)i), md[i]), "directory %d is %s, expected %s", i, ws_get_dir(&ws, (size_t)i), md[i]);
	for (int i = 0; i < ng; i++) CHECK(!strcmp(ws_get_flag(&ws, (size_t)i), mg[i]) && ws_has_flag(&ws, mg[i]), "flag %d differs", i);
	for (int i = 0; i < NFLAG; i++)
	{
		bool has = false;
		for (int j = 0; j < ng; j++) has |= !strcmp(mg[j], FLAG[i]);
		CHECK(ws_has_flag(&ws, FLAG[i]) == has, "presence of flag %s differs", FLAG[i]);
	}
	CHECK(ws_get_file(&ws, (size_t)nf) == NULL && ws_get_dir(&ws, (size_t)nd) == NULL && ws_get_flag(&ws, SIZE_MAX) == NULL, "reading outside was not refused");
	const char *o = ws_get_output(&ws);
	CHECK((o == NULL) == (mo == NULL || !*mo) && (!o || !strcmp(o, mo)), "output is %s, expected %s", o ? o : "(none)", mo ? mo : "(none)");
	CHECK(ws_clear(&ws) == 0 && !ws_is_correct(&ws), "a cleared workspace is correct");
}

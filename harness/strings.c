#include "h.h"
#include "strings.h"
#include "utf8.h"

static char S[8][1200];
static char32_t S32[8][1200];
static int slen[8];
#define NS 8
enum { K_CREATE, K_ADD, K_ADD32, K_ADDV, K_REM, K_CLEAR };
static struct { int k, a; } OPS[64];
static int nops;
static void add(int k, int a) { OPS[nops].k = k; OPS[nops].a = a; nops++; }
static bool en(const int *ops, int n, int op) { return n == 0 ? OPS[op].k == K_CREATE : OPS[op].k != K_CREATE; }
static void fill(int i, char32_t ch, int n)
{
	int at = 0;
	for (int j = 0; j < n; j++) { S32[i][j] = ch + (j == n - 1); at += (int)utf8_to_string(&S[i][at], S32[i][j]); }
	S[i][at] = 0;
	slen[i] = at;
}
static void harness_init(void)
{
	enabled = en;
	fill(1, 'k', 1); fill(2, 'x', 254); fill(3, 'y', 255); fill(4, 'z', 256); fill(5, 0x44f - 1, 128); fill(6, 0x20ac, 300); fill(7, 0x1f600, 3);
	add(K_CREATE, 0); add(K_CREATE, 2);
	for (int i = 0; i < NS; i++) { add(K_ADD, i); add(K_ADD32, i); add(K_ADDV, i); }
	add(K_REM, 0); add(K_CLEAR, 0);
}
int op_count(void) { return nops; }
void op_name(int op, char *o)
{
	static const char *N[] = { "create", "add", "add_by_utf8", "add_by_vector", "remove", "clear" };
	sprintf(o, "%s(%d bytes, string %d)", N[OPS[op].k], OPS[op].k == K_CREATE ? OPS[op].a : slen[OPS[op].a], OPS[op].a);
}
static int m[MAXOPS], mn;
static bool live;
static strings t;
void run(const int *ops, int n)
{
	live = false; mn = 0;
	for (int i = 0; i < n; i++)
	{
		const int a = OPS[ops[i]].a;
		size_t r = 0;
		switch (OPS[ops[i]].k)
		{
			case K_CREATE: t = strings_create((size_t)a); live = true; break;
			case K_ADD: case K_ADD32: case K_ADDV:
				if (OPS[ops[i]].k == K_ADD) r = strings_add(&t, S[a]);
				else if (OPS[ops[i]].k == K_ADD32) r = strings_add_by_utf8(&t, S32[a]);
				else
				{
					vector v = vector_create(4);
					for (int j = 0; S32[a][j]; j++) vector_add(&v, S32[a][j]);
					if (a == 0 || i & 1) vector_add(&v, 0);
					r = strings_add_by_vector(&t, &v);
					vector_clear(&v);
				}
				if (!live || !S[a][0]) { CHECK(r == SIZE_MAX, "adding an empty string returned %zu", r); break; }
				CHECK(r == (size_t)mn, "index %zu, expected %d", r, mn);
				m[mn++] = a; break;
			case K_REM:
			{
				const char *s = strings_remove(&t);
				if (!live || mn == 0) { CHECK(s == NULL, "removing from an empty table was not refused"); break; }
				mn--;
				CHECK(s != NULL && !strcmp(s, S[m[mn]]), "the removed string differs"); break;
			}
			case K_CLEAR: CHECK((strings_clear(&t) == 0) == live, "clear differs"); live = false; mn = 0; break;
		}
	}
	if (n == 0) return;
	CHECK(strings_is_correct(&t) == live, "is_correct differs");
	CHECK(strings_size(&t) == (live ? (size_t)mn : SIZE_MAX), "size is %zu, expected %d", strings_size(&t), mn);
	for (int i = 0; i < mn; i++)
	{
		const char *s = strings_get(&t, (size_t)i);
		CHECK(s != NULL && !strcmp(s, S[m[i]]), "string %d differs", i);
		CHECK(strings_get_length(&t, (size_t)i) == (size_t)slen[m[i]], "length of string %d is %zu, expected %d", i, strings_get_length(&t, (size_t)i), slen[m[i]]);
	}
	CHECK(strings_get(&t, (size_t)mn) == NULL && strings_get_length(&t, (size_t)mn) == 0 && strings_get(&t, SIZE_MAX) == NULL, "reading outside was not refused");
	if (live) strings_clear(&t);
}

#include "h.h"
#include "map.h"
#include "utf8.h"
#include "uniio.h"
#include "uniscanner.h"

/* Keys: prefixes of one another, permutations (same hash), differing by a multiple of the
 * bucket count, every encoded length, long ones (growth of the key storage), empty. */
static const char *KEY[] = { "a", "ab", "ba", "aUUV" /* same bucket as its prefix a */, "\xc5\xa1" /* U+0161: 'a'+256 */, "\xd1\x84\xd0\xb0" /* фа */
	, "\xe0\xa4\x81" /* U+0901 */, "\xf0\x90\x80\x81" /* U+10001 */, NULL /* long */, NULL /* long, differs at the end */, "" };
static const char32_t KEY32[][8] = { { 'a', 0 }, { 'a', 'b', 0 }, { 'b', 'a', 0 }, { 'a', 'U', 'U', 'V', 0 }, { 0x161, 0 }, { 0x444, 0x430, 0 }
	, { 0x901, 0 }, { 0x10001, 0 } };
static char longs[2][1700];
static char32_t long32[2][1700];
#define NKEYS 11
static int is_word[NKEYS] = { 1, 1, 1, 1, 0, 1, 0, 0, 0, 0, 0 };
enum { K_CREATE, K_ADD, K_RES, K_SET, K_GET, K_SETIX, K_FILL, K_CLEAR, K_NOKEY };
enum { F_STR, F_UTF8, F_IO };
static struct { int k, a, b; } OPS[256];
static int nops;
static void add(int k, int a, int b) { OPS[nops].k = k; OPS[nops].a = a; OPS[nops].b = b; nops++; }
static bool en(const int *ops, int n, int op) { return n == 0 ? OPS[op].k == K_CREATE : OPS[op].k != K_CREATE; }
static void harness_init(void)
{
	enabled = en;
	for (int i = 0; i < 2; i++)
	{
		memset(longs[i], 'q', 1500);
		longs[i][1499] = i ? 'z' : 'y';
		longs[i][1500] = 0;
		for (int j = 0; j < 1500; j++) long32[i][j] = (char32_t)longs[i][j];
		KEY[8 + i] = longs[i];
	}
	add(K_CREATE, 0, 0); add(K_CREATE, 3, 0);
	for (int k = 0; k < NKEYS; k++)
	{
		add(K_ADD, k, k % 2 ? F_UTF8 : F_STR);
		if (is_word[k]) add(K_ADD, k, F_IO);
		if (k < 5) { add(K_SET, k, k % 2 ? F_STR : F_UTF8); add(K_RES, k, k % 3 == 2 && is_word[k] ? F_IO : k % 2); }
	}
	add(K_SET, 5, F_IO); add(K_SET, 6, F_STR); add(K_SET, 9, F_STR); add(K_GET, 9, F_STR); add(K_RES, 8, F_STR); add(K_SETIX, 1, 0); add(K_SETIX, 4, 0); add(K_FILL, 0, 0); add(K_CLEAR, 0, 0); add(K_NOKEY, 0, 0);
}
int op_count(void) { return nops; }
static const char *FORM[] = { "string", "utf8", "input" };
static const char *kname(int k) { return k == 8 ? "q*1499 y" : k == 9 ? "q*1499 z" : KEY[k]; }
void op_name(int op, char *o)
{
	const int a = OPS[op].a, b = OPS[op].b;
	switch (OPS[op].k)
	{
		case K_CREATE: sprintf(o, "create(%d)", a); break;
		case K_ADD: sprintf(o, "add(\"%s\" as %s)", kname(a), FORM[b]); break;
		case K_RES: sprintf(o, "reserve(\"%s\" as %s)", kname(a), FORM[b]); break;
		case K_SET: sprintf(o, "set(\"%s\" as %s)", kname(a), FORM[b]); break;
		case K_GET: sprintf(o, "get(\"%s\" as %s)", kname(a), FORM[b]); break;
		case K_SETIX: sprintf(o, "set_by_index(index of \"%s\")", kname(a)); break;
		case K_FILL: sprintf(o, "add 40 keys f0..f39"); break;
		case K_CLEAR: sprintf(o, "clear()"); break;
		case K_NOKEY: sprintf(o, "add inputs that start with no key"); break;
	}
}
static struct { bool has; size_t index; item_t v; } m[NKEYS];
static size_t fill_ix[40];
static bool filled, live;
static map t;
static const char32_t *k32(int k) { return k >= 8 && k < 10 ? long32[k - 8] : k == 10 ? &KEY32[0][1] : KEY32[k]; }
static universal_io io;
static char iobuf[1720];
static void io_open(int k) { snprintf(iobuf, sizeof iobuf, "%s;x", KEY[k]); io = io_create(); in_set_buffer(&io, iobuf); }
static void io_done(int k, char32_t last)
{
	CHECK(last == ';', "after reading key \"%s\" the next character is U+%x", kname(k), (unsigned)last);
	CHECK(uni_scan_char(&io) == 'x', "reading a key consumed more than the key and one character");
	in_clear(&io);
}
static size_t do_add(int k, int f, item_t v, bool reserve)
{
	size_t r; char32_t last = 0;
	switch (f)
	{
		case F_STR: return reserve ? map_reserve(&t, KEY[k]) : map_add(&t, KEY[k], v);
		case F_UTF8: return reserve ? map_reserve_by_utf8(&t, k32(k)) : map_add_by_utf8(&t, k32(k), v);
		default:
			io_open(k);
			r = reserve ? map_reserve_by_io(&t, &io, &last) : map_add_by_io(&t, &io, v, &last);
			if (live) io_done(k, last); else in_clear(&io);
			return r;
	}
}
/* inputs that do not start with a letter or '#' */
static const char *NOKEY[] = { "1a;x", "7;x", ";a", "" };
static void no_key(int i) { strcpy(iobuf, NOKEY[i]); io = io_create(); in_set_buffer(&io, iobuf); }
static void check_all(void)
{
	CHECK(map_is_correct(&t) == live, "map_is_correct differs");
	if (!live)
	{
		CHECK(map_get(&t, "a") == ITEM_MAX && map_get_index(&t, "a") == SIZE_MAX && map_to_string(&t, 0) == NULL, "a cleared map answers");
		return;
	}
	for (int k = 0; k < NKEYS; k++)
	{
		const bool has = m[k].has;
		const item_t v = has ? m[k].v : ITEM_MAX;
		const size_t ix = has ? m[k].index : SIZE_MAX;
		CHECK(map_get(&t, KEY[k]) == v, "value of \"%s\" is %lld, expected %lld", kname(k), (long long)map_get(&t, KEY[k]), (long long)v);
		if (KEY[k][0])
		{
			const char *lr = map_last_read(&t);
			CHECK(lr != NULL && strcmp(lr, KEY[k]) == 0, "the last key read is \"%s\", expected \"%s\"", lr ? lr : "(null)", kname(k));
		}
		CHECK(map_get_by_utf8(&t, k32(k)) == v, "value of \"%s\" by characters differs", kname(k));
		CHECK(map_get_index(&t, KEY[k]) == ix, "index of \"%s\" differs", kname(k));
		CHECK(map_get_index_by_utf8(&t, k32(k)) == ix, "index of \"%s\" by characters differs", kname(k));
		if (is_word[k])
		{
			char32_t last = 0;
			io_open(k);
			const item_t g = map_get_by_io(&t, &io, &last);
			io_done(k, last);
			CHECK(g == v, "value of \"%s\" by input differs", kname(k));
			io_open(k);
			const size_t gi = map_get_index_by_io(&t, &io, &last);
			io_done(k, last);
			CHECK(gi == ix, "index of \"%s\" by input differs", kname(k));
		}
		if (has)
		{
			const char *s = map_to_string(&t, ix);
			CHECK(s != NULL && strcmp(s, KEY[k]) == 0, "key read back is \"%s\", expected \"%s\"", s ? s : "(null)", kname(k));
			CHECK(map_get_by_index(&t, ix) == v, "value by index differs");
			for (int j = 0; j < k; j++) CHECK(!m[j].has || m[j].index != ix, "two keys share an index");
		}
	}
	for (int i = 0; i < 40; i++)
	{
		char key[8];
		sprintf(key, "f%d", i);
		CHECK(map_get(&t, key) == (filled ? 500 + i : ITEM_MAX), "value of \"%s\" differs", key);
		if (filled) CHECK(!strcmp(map_to_string(&t, fill_ix[i]), key), "key \"%s\" reads back differently", key);
	}
	/* an index that belongs to no key */
	for (size_t ix = 0; ix < 320; ix++)
	{
		bool known = false;
		for (int k = 0; k < NKEYS && !known; k++) known = m[k].has && m[k].index == ix;
		for (int i = 0; i < 40 && filled && !known; i++) known = fill_ix[i] == ix;
		if (known) continue;
		CHECK(map_get_by_index(&t, ix) == ITEM_MAX && map_to_string(&t, ix) == NULL, "index %zu belongs to no key and answers", ix);
		CHECK(map_set_by_index(&t, ix, 1) != 0, "a value was set at index %zu, which belongs to no key", ix);
	}
	for (int i = 0; i < 4; i++)
	{
		char32_t last = 0;
		no_key(i);
		CHECK(map_get_by_io(&t, &io, &last) == ITEM_MAX, "a value was found for the input \"%s\"", iobuf);
		in_clear(&io);
		no_key(i);
		CHECK(map_get_index_by_io(&t, &io, &last) == SIZE_MAX, "an index was found for the input \"%s\"", iobuf);
		in_clear(&io);
	}
	CHECK(map_get_by_index(&t, SIZE_MAX) == ITEM_MAX && map_to_string(&t, SIZE_MAX) == NULL && map_set_by_index(&t, SIZE_MAX, 1) != 0, "index out of range accepted");
	CHECK(map_get(&t, NULL) == ITEM_MAX && map_add(&t, NULL, 1) == SIZE_MAX, "null key accepted");
}
void run(const int *ops, int n)
{
	live = filled = false;
	memset(m, 0, sizeof m);
	for (int i = 0; i < n; i++)
	{
		const int a = OPS[ops[i]].a, b = OPS[ops[i]].b;
		const bool has = live && m[a].has, ok = live && KEY[a][0];
		const item_t val = 100 + i;
		size_t r; char32_t last = 0;
		switch (OPS[ops[i]].k)
		{
			case K_CREATE: t = map_create((size_t)a); live = true; break;
			case K_ADD:
				r = do_add(a, b, val, false);
				if (!ok || has) { CHECK(r == SIZE_MAX, "adding an existing or empty key was not refused"); break; }
				CHECK(r != SIZE_MAX, "adding a new key was refused");
				m[a].has = true; m[a].index = r; m[a].v = val; break;
			case K_RES:
				r = do_add(a, b, 0, true);
				if (!ok) { CHECK(r == SIZE_MAX, "reserving was not refused"); break; }
				CHECK(r != SIZE_MAX && (!has || r == m[a].index), "reserving returned %zu", r);
				if (!has) { m[a].has = true; m[a].index = r; m[a].v = ITEM_MAX; } break;
			case K_SET:
				if (b == F_STR) r = map_set(&t, KEY[a], val);
				else if (b == F_UTF8) r = map_set_by_utf8(&t, k32(a), val);
				else { io_open(a); r = map_set_by_io(&t, &io, val, &last); if (live) io_done(a, last); else in_clear(&io); }
				CHECK(r == (has ? m[a].index : SIZE_MAX), "set returned %zu", r);
				if (has) m[a].v = val; break;
			case K_GET: CHECK(map_get(&t, KEY[a]) == (has ? m[a].v : ITEM_MAX), "get differs"); break;
			case K_SETIX:
			{
				const int e = map_set_by_index(&t, has ? m[a].index : 300000, val);
				CHECK((e == 0) == has, "set_by_index returned %d", e);
				if (has) m[a].v = val; break;
			}
			case K_FILL:
				for (int j = 0; j < 40; j++)
				{
					char key[8];
					sprintf(key, "f%d", j);
					r = map_add(&t, key, 500 + j);
					CHECK((r == SIZE_MAX) == (!live || filled), "adding \"%s\" returned %zu", key, r);
					if (r != SIZE_MAX) fill_ix[j] = r;
				}
				if (live) filled = true;
				break;
			case K_NOKEY:
				for (int j = 0; j < 4; j++)
				{
					no_key(j);
					CHECK(map_add_by_io(&t, &io, val, &last) == SIZE_MAX, "a key was added for the input \"%s\"", iobuf);
					in_clear(&io);
					no_key(j);
					CHECK(map_reserve_by_io(&t, &io, &last) == SIZE_MAX, "a key was reserved for the input \"%s\"", iobuf);
					in_clear(&io);
					no_key(j);
					CHECK(map_set_by_io(&t, &io, val, &last) == SIZE_MAX, "a value was set for the input \"%s\"", iobuf);
					in_clear(&io);
				}
				break;
			case K_CLEAR:
				CHECK((map_clear(&t) == 0) == live, "clear differs");
				live = filled = false; memset(m, 0, sizeof m); break;
		}
	}
	if (n) check_all();
	if (live) map_clear(&t);
}

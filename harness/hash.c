#include "h.h"
#include "hash.h"

static item_t KEYS[6];
#define NKEYS 5
enum { K_CREATE, K_ADD, K_SET, K_SETD, K_SETL, K_REM, K_CLEAR };
static struct { int k, a, b; } OPS[256];
static int nops;
static const size_t NUMS[] = { 0, 1, 2, SIZE_MAX };
static void add(int k, int a, int b) { OPS[nops].k = k; OPS[nops].a = a; OPS[nops].b = b; nops++; }
static bool en(const int *ops, int n, int op) { return n == 0 ? OPS[op].k == K_CREATE : OPS[op].k != K_CREATE; }
static void harness_init(void)
{
	enabled = en;
	KEYS[0] = 1; KEYS[1] = 1 + (item_t)MAX_HASH; KEYS[2] = 1 + 2 * (item_t)MAX_HASH; KEYS[3] = -7; KEYS[4] = 0;
	add(K_CREATE, 0, 0); add(K_CREATE, 2, 0);
	for (int k = 0; k < NKEYS; k++) for (int a = 0; a < (k < 3 ? 4 : 2); a++) add(K_ADD, k, a);
	for (int k = 0; k < 4; k++) for (int n = 0; n < (k < 2 ? 3 : 1); n++) add(K_SET, k, n);
	add(K_SETD, 0, 0); add(K_SETD, 1, 1); add(K_SETD, 0, 3);
	add(K_SETL, 0, 1); add(K_SETL, 1, 0); add(K_SETL, 1, 3);
	for (int k = 0; k < NKEYS; k++) add(K_REM, k, 0);
	add(K_CLEAR, 0, 0);
}
int op_count(void) { return nops; }
void op_name(int op, char *o)
{
	const int a = OPS[op].a, b = OPS[op].b;
	switch (OPS[op].k)
	{
		case K_CREATE: sprintf(o, "create(%d)", a); break;
		case K_ADD: sprintf(o, "add(key %lld, %d fields)", (long long)KEYS[a], b); break;
		case K_SET: sprintf(o, "set(key %lld, field %d)", (long long)KEYS[a], b); break;
		case K_SETD: sprintf(o, "set_double(key %lld, field %zd)", (long long)KEYS[a], (ssize_t)NUMS[b]); break;
		case K_SETL: sprintf(o, "set_int64(key %lld, field %zd)", (long long)KEYS[a], (ssize_t)NUMS[b]); break;
		case K_REM: sprintf(o, "remove(key %lld)", (long long)KEYS[a]); break;
		case K_CLEAR: sprintf(o, "clear()"); break;
	}
}
static struct { bool has; size_t amount, index; item_t f[4]; } m[NKEYS];
static hash h;
static bool live;
static bool same_d(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static void check_all(void)
{
	CHECK(hash_is_correct(&h) == live, "hash_is_correct differs");
	for (int k = 0; k < NKEYS; k++)
	{
		const bool has = live && m[k].has;
		const size_t ix = hash_get_index(&h, KEYS[k]);
		CHECK(ix == (has ? m[k].index : SIZE_MAX), "index of key %lld is %zu", (long long)KEYS[k], ix);
		CHECK(hash_get_amount(&h, KEYS[k]) == (has ? m[k].amount : 0), "number of fields of key %lld is %zu", (long long)KEYS[k], hash_get_amount(&h, KEYS[k]));
		if (has)
		{
			CHECK(hash_get_key(&h, ix) == KEYS[k], "key at index differs");
			CHECK(hash_get_amount_by_index(&h, ix) == m[k].amount, "number of fields by index differs");
			for (int j = 0; j < k; j++) CHECK(!m[j].has || m[j].index != ix, "two keys share a record");
		}
		for (int j = 0; j < 5; j++)
		{
			const size_t num = j < 4 ? (size_t)j : SIZE_MAX;
			const bool in = has && num < m[k].amount;
			const item_t e = in ? m[k].f[num] : ITEM_MAX;
			CHECK(hash_get(&h, KEYS[k], num) == e, "field %zd of key %lld is %lld, expected %lld", (ssize_t)num, (long long)KEYS[k], (long long)hash_get(&h, KEYS[k], num), (long long)e);
			double d = DBL_MAX; int64_t l = LLONG_MAX;
			if (in) { memcpy(&d, &m[k].f[num], 8); memcpy(&l, &m[k].f[num], 8); }
			CHECK(same_d(hash_get_double(&h, KEYS[k], num), d), "double field %zd of key %lld differs", (ssize_t)num, (long long)KEYS[k]);
			CHECK(hash_get_int64(&h, KEYS[k], num) == l, "int64 field %zd of key %lld differs", (ssize_t)num, (long long)KEYS[k]);
			if (has)
			{
				CHECK(hash_get_by_index(&h, ix, num) == e, "field by index differs");
				CHECK(same_d(hash_get_double_by_index(&h, ix, num), d), "double field by index differs");
				CHECK(hash_get_int64_by_index(&h, ix, num) == l, "int64 field by index differs");
			}
		}
	}
}
void run(const int *ops, int n)
{
	live = false;
	memset(m, 0, sizeof m);
	for (int i = 0; i < n; i++)
	{
		const int a = OPS[ops[i]].a, b = OPS[ops[i]].b;
		const bool has = live && m[a].has;
		size_t r;
		const item_t val = 1000 + i;
		switch (OPS[ops[i]].k)
		{
			case K_CREATE: h = hash_create((size_t)a); live = true; break;
			case K_ADD:
				r = hash_add(&h, KEYS[a], (size_t)b);
				if (!live || has) { CHECK(r == SIZE_MAX, "adding an existing key was not refused"); break; }
				CHECK(r != SIZE_MAX, "adding a new key was refused");
				m[a].has = true; m[a].amount = (size_t)b; m[a].index = r; memset(m[a].f, 0, sizeof m[a].f); break;
			case K_SET:
				if (i & 1) r = hash_set(&h, KEYS[a], (size_t)b, val);
				else { const size_t ix = hash_get_index(&h, KEYS[a]); r = hash_set_by_index(&h, ix, (size_t)b, val) == 0 ? ix : SIZE_MAX; }
				if (!has || (size_t)b >= m[a].amount) { CHECK(r == SIZE_MAX, "write to a missing field was not refused"); break; }
				CHECK(r == m[a].index, "write returned %zu", r);
				m[a].f[b] = val; break;
			case K_SETD: case K_SETL:
			{
				const double d = val / 4.0; const int64_t l = -val;
				const size_t num = NUMS[b];
				r = OPS[ops[i]].k == K_SETD ? hash_set_double(&h, KEYS[a], num, d) : hash_set_int64(&h, KEYS[a], num, l);
				if (!has || num >= m[a].amount) { CHECK(r == SIZE_MAX, "write to a missing field was not refused"); break; }
				CHECK(r == m[a].index, "write returned %zu", r);
				if (OPS[ops[i]].k == K_SETD) memcpy(&m[a].f[num], &d, 8); else memcpy(&m[a].f[num], &l, 8);
				break;
			}
			case K_REM:
			{
				const int e = hash_remove(&h, KEYS[a]);
				CHECK((e == 0) == has, "remove returned %d", e);
				m[a].has = false; break;
			}
			case K_CLEAR:
				CHECK((hash_clear(&h) == 0) == live, "clear differs");
				live = false; memset(m, 0, sizeof m); break;
		}
	}
	if (n) check_all();
	if (live) hash_clear(&h);
}

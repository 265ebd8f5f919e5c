#include "h.h"
#include "item.h"
#include "workspace.h"

/* op: cell type x bit pattern; then flag combinations */
static uint64_t *PAT;
static int npat, nflag;
static const char *FLAGS[] = { "-i64", "-i32", "-i16", "-i8", "-u64", "-u32", "-u16", "-u8", "-Wno", "-i65", "i64" };
#define NF 11
static const int WIDTH[] = { 64, 32, 16, 8, 64, 32, 16, 8 };
static void pat(uint64_t v) { PAT[npat++] = v; }
static void harness_init(void)
{
	PAT = malloc(1 << 20);
	pat(0); pat(~UINT64_C(0));
	for (int i = 0; i < 64; i++)
	{
		for (int j = 0; j <= i; j++) pat(UINT64_C(1) << i | UINT64_C(1) << j);
		pat((UINT64_C(1) << i) - 1); pat(~(UINT64_C(1) << i)); pat(-(UINT64_C(1) << i)); pat(-(UINT64_C(1) << i) - 1); pat((UINT64_C(1) << i) + 1);
	}
	for (int b = 0; b < 8; b++) for (uint64_t v = 0; v < 256; v++) { pat(v << (8 * b)); pat(UINT64_C(0x0123456789abcdef) ^ (v << (8 * b))); }
	static const double D[] = { 0.0, -0.0, 1.0, -1.0, 3.141592653589793, 1e308, 5e-324, -1e-310, 0.1, 1e15 };
	for (int i = 0; i < 10; i++) { uint64_t u; memcpy(&u, &D[i], 8); pat(u); }
	nflag = 1 + NF + NF * NF;
}
int op_count(void) { return 8 * npat + nflag; }
void op_name(int op, char *o)
{
	if (op < 8 * npat) sprintf(o, "cell type %d, value 0x%llx", op % 8, (unsigned long long)PAT[op / 8]);
	else
	{
		op -= 8 * npat;
		if (op == 0) sprintf(o, "no flags");
		else if (op <= NF) sprintf(o, "flag %s", FLAGS[op - 1]);
		else sprintf(o, "flags %s %s", FLAGS[(op - 1 - NF) / NF], FLAGS[(op - 1 - NF) % NF]);
	}
}
static int64_t tmin(int s) { return s >= 4 ? 0 : s == 0 ? INT64_MIN : -(INT64_C(1) << (WIDTH[s] - 1)); }
/* ranges as far as the compiler's own signed 64-bit cell can express them */
static int64_t tmax(int s) { return WIDTH[s] == 64 ? INT64_MAX : s >= 4 ? (INT64_C(1) << WIDTH[s]) - 1 : (INT64_C(1) << (WIDTH[s] - 1)) - 1; }
void run(const int *ops, int n)
{
	if (n == 0) return;
	int op = ops[0];
	if (op >= 8 * npat)
	{
		op -= 8 * npat;
		workspace ws = ws_create();
		int found = 0, st = item_int32, f[2] = { -1, -1 };
		if (op >= 1 && op <= NF) f[0] = op - 1;
		else if (op > NF) { f[0] = (op - 1 - NF) / NF; f[1] = (op - 1 - NF) % NF; }
		for (int i = 0; i < 2; i++)
		{
			if (f[i] < 0) continue;
			ws_add_flag(&ws, FLAGS[f[i]]);
			if (f[i] < 8 && !(i == 1 && f[0] == f[1])) { found++; st = f[i]; }
		}
		if (found > 1) st = item_error;
		CHECK((int)item_get_status(&ws) == st, "selected cell type is %d, expected %d", (int)item_get_status(&ws), st);
		ws_clear(&ws);
		return;
	}
	const int s = op % 8;
	const uint64_t u = PAT[op / 8];
	const int64_t v = (int64_t)u;
	const int w = WIDTH[s], cells = 64 / w;
	CHECK(item_get_min(s) == tmin(s) && item_get_max(s) == tmax(s), "range of the cell type is [%lld, %lld]", (long long)item_get_min(s), (long long)item_get_max(s));
	CHECK(item_check_var(s, v) == (v >= tmin(s) && v <= tmax(s)), "range check of %lld is %d", (long long)v, item_check_var(s, v));
	item_t *c = malloc(sizeof(item_t) * (size_t)cells);
	size_t r = item_store_int64_for_target(s, v, c);
	CHECK(r == (size_t)cells, "%zu cells used, expected %d", r, cells);
	for (int i = 0; i < cells; i++)
	{
		const uint64_t part = w == 64 ? u : (u >> (w * i)) & ((UINT64_C(1) << w) - 1);
		int64_t e = (int64_t)part;
		if (s < 4 && w < 64 && (part >> (w - 1))) e = (int64_t)(part | ~((UINT64_C(1) << w) - 1));
		CHECK(c[i] == e, "cell %d is %lld, expected %lld", i, (long long)c[i], (long long)e);
	}
	CHECK(item_restore_int64_for_target(s, c) == v, "restored %lld, stored %lld", (long long)item_restore_int64_for_target(s, c), (long long)v);
	double d, d2;
	memcpy(&d, &u, 8);
	if (v != LLONG_MAX)	/* the error code is not a value */
	{
		memset(c, 0, sizeof(item_t) * (size_t)cells);
		r = item_store_double_for_target(s, d, c);
		CHECK(r == (size_t)cells, "%zu cells used for a double, expected %d", r, cells);
		d2 = item_restore_double_for_target(s, c);
		CHECK(memcmp(&d, &d2, 8) == 0, "restored double %a, stored %a", d2, d);
	}
	free(c);
	if (s == 0)
	{
		item_t own[DOUBLE_SIZE];
		CHECK(item_store_int64(v, own) == INT64_SIZE && item_restore_int64(own) == v, "own cell differs");
		if (v != LLONG_MAX)
		{
			CHECK(item_store_double(d, own) == DOUBLE_SIZE, "own double size differs");
			d2 = item_restore_double(own);
			CHECK(memcmp(&d, &d2, 8) == 0, "own double differs");
		}
	}
	CHECK(item_store_int64_for_target(item_error, v, &(item_t){ 0 }) == SIZE_MAX && item_store_int64_for_target(s, v, NULL) == SIZE_MAX, "invalid request was not refused");
}

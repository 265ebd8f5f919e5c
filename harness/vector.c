#include "h.h"
#include <errno.h>
#include "vector.h"
#include "stack.h"

/* Memory faults: allocation number fault_at (counted from the creation of the object) fails. */
static long fault_at = -1, allocs;
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n)
{
	if (fault_at >= 0 && allocs++ == fault_at)
	{
		return NULL;
	}
	return __real_realloc(p, n);
}

static const item_t VALS[] = { 0, -1, INT64_C(0x123456789abcdef0), LLONG_MIN, LLONG_MAX };
static const double DVALS[] = { 1.5, -0.0 };
static const int64_t LVALS[] = { INT64_C(-2), INT64_C(0x0102030405060708) };
/* indices: absolute and relative to the size */
enum { I_0, I_1, I_LAST, I_SIZE, I_HUGE, I_MAX, NIDX };
static const char *IDX[] = { "0", "1", "size-1", "size", "SIZE_MAX/2", "SIZE_MAX" };
static size_t idx(int k, size_t size)
{
	switch (k)
	{
		case I_0: return 0;
		case I_1: return 1;
		case I_LAST: return size - 1;
		case I_SIZE: return size;
		case I_HUGE: return SIZE_MAX / 2;
		default: return SIZE_MAX;
	}
}

enum { K_CREATE, K_FAULT, K_ADD, K_ADDD, K_ADDL, K_SET, K_SETD, K_SETL, K_REM, K_REMD, K_REML, K_INC, K_RES
	, K_PUSH, K_PUSHD, K_PUSHL, K_POP, K_POPD, K_POPL, K_PEEK, K_RESET, K_CLEAR };
static struct { int k, a, b; } OPS[256];
static int nops, ncreate;
static const size_t SIZES[] = { 0, 1, 2, 5 };
static const size_t CAPS[] = { 0, 1, 2, 3 };

static void add(int k, int a, int b) { OPS[nops].k = k; OPS[nops].a = a; OPS[nops].b = b; nops++; }
static bool en(const int *ops, int n, int op)
{
	/* first: creation; then optionally one fault plan; then operations; nothing after clear except checks */
	if (n == 0) return OPS[op].k == K_CREATE;
	if (OPS[op].k == K_CREATE) return false;
	if (OPS[op].k == K_FAULT) return n == 1;
	return true;
}
static void harness_init(void)
{
	enabled = en;
	for (int i = 0; i < 4; i++) add(K_CREATE, i, 0);
	for (int i = 0; i < 3; i++) add(K_FAULT, i, 0);
	add(K_ADD, 2, 0); add(K_ADD, 4, 0);
	add(K_ADDD, 0, 0); add(K_ADDD, 1, 0); add(K_ADDL, 1, 0);
	for (int i = 0; i < NIDX; i++) { add(K_SET, i, 1); add(K_SETD, i, 0); add(K_SETL, i, 0); }
	add(K_REM, 0, 0); add(K_REMD, 0, 0); add(K_REML, 0, 0);
	for (int i = 0; i < 4; i++) add(K_RES, i, 0);
	add(K_INC, 0, 0); add(K_INC, 1, 0); add(K_INC, 3, 0);
	add(K_PUSH, 3, 0); add(K_PUSHD, 1, 0); add(K_PUSHL, 0, 0); add(K_POP, 0, 0); add(K_POPD, 0, 0); add(K_POPL, 0, 0);
	add(K_RESET, 0, 0); add(K_CLEAR, 0, 0);
}
int op_count(void) { return nops; }
void op_name(int op, char *o)
{
	const int k = OPS[op].k, a = OPS[op].a;
	switch (k)
	{
		case K_CREATE: sprintf(o, "create(%zu)", CAPS[a]); break;
		case K_FAULT: sprintf(o, "let allocation %d fail", a); break;
		case K_ADD: sprintf(o, "add(%lld)", (long long)VALS[a]); break;
		case K_ADDD: sprintf(o, "add_double(%g)", DVALS[a]); break;
		case K_ADDL: sprintf(o, "add_int64(%lld)", (long long)LVALS[a]); break;
		case K_SET: sprintf(o, "set(%s, %lld)", IDX[a], (long long)VALS[1]); break;
		case K_SETD: sprintf(o, "set_double(%s, %g)", IDX[a], DVALS[0]); break;
		case K_SETL: sprintf(o, "set_int64(%s, %lld)", IDX[a], (long long)LVALS[0]); break;
		case K_REM: sprintf(o, "remove()"); break;
		case K_REMD: sprintf(o, "remove_double()"); break;
		case K_REML: sprintf(o, "remove_int64()"); break;
		case K_INC: sprintf(o, "increase(%zu)", SIZES[a]); break;
		case K_RES: sprintf(o, "resize(%zu)", SIZES[a]); break;
		case K_PUSH: sprintf(o, "push(%lld)", (long long)VALS[a]); break;
		case K_PUSHD: sprintf(o, "push_double(%g)", DVALS[a]); break;
		case K_PUSHL: sprintf(o, "push_int64(%lld)", (long long)LVALS[a]); break;
		case K_POP: sprintf(o, "pop()"); break;
		case K_POPD: sprintf(o, "pop_double()"); break;
		case K_POPL: sprintf(o, "pop_int64()"); break;
		case K_RESET: sprintf(o, "reset()"); break;
		case K_CLEAR: sprintf(o, "clear()"); break;
	}
}

/* reference: cells; a double or int64 takes DOUBLE_SIZE/INT64_SIZE of them */
static item_t m[256];
static size_t mn;
static bool live;
static vector v;
static bool same_d(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static void m_put(size_t at, const void *p) { memcpy(&m[at], p, 8); }
static double m_d(size_t at) { double d; memcpy(&d, &m[at], 8); return d; }
static int64_t m_l(size_t at) { int64_t d; memcpy(&d, &m[at], 8); return d; }
#define W DOUBLE_SIZE

static void m_resize(size_t n)
{
	for (size_t i = mn; i < n; i++) m[i] = 0;
	mn = n;
}

static void check_all(void)
{
	CHECK(vector_is_correct(&v) == live, "vector_is_correct is %d", !live);
	CHECK(stack_is_correct(&v) == live, "stack_is_correct is %d", !live);
	CHECK(vector_size(&v) == (live ? mn : SIZE_MAX), "size is %zu, expected %zu", vector_size(&v), mn);
	CHECK(stack_size(&v) == (live ? mn : SIZE_MAX), "stack size is %zu, expected %zu", stack_size(&v), mn);
	const size_t n = live ? mn : 0;
	for (size_t i = 0; i < n; i++)
	{
		CHECK(vector_get(&v, i) == m[i], "cell %zu is %lld, expected %lld", i, (long long)vector_get(&v, i), (long long)m[i]);
		if (i + W <= n)
		{
			CHECK(m[i] == LLONG_MAX || same_d(vector_get_double(&v, i), m_d(i)), "double at %zu differs", i);
			CHECK(vector_get_int64(&v, i) == m_l(i), "int64 at %zu differs", i);
		}
	}
	static const size_t out[] = { 0, 1, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX };
	for (int k = 0; k < 5; k++)
	{
		const size_t i = k < 2 ? n + out[k] : out[k];
		CHECK(vector_get(&v, i) == ITEM_MAX, "reading cell %zu of %zu is not refused", i, n);
		CHECK(same_d(vector_get_double(&v, i), DBL_MAX), "reading double %zu of %zu is not refused", i, n);
		CHECK(vector_get_int64(&v, i) == LLONG_MAX, "reading int64 %zu of %zu is not refused", i, n);
	}
	CHECK(stack_peek(&v) == (n ? m[n - 1] : ITEM_MAX), "peek differs");
	CHECK((n >= W && m[n - W] == LLONG_MAX) || same_d(stack_peek_double(&v), n >= W ? m_d(n - W) : DBL_MAX), "peek of a double differs");
	CHECK(stack_peek_int64(&v) == (n >= W ? m_l(n - W) : LLONG_MAX), "peek of an int64 differs");
}

void run(const int *ops, int n)
{
	live = false;
	mn = 0;
	fault_at = -1;
	allocs = 0;
	for (int i = 0; i < n; i++)
	{
		const int k = OPS[ops[i]].k, a = OPS[ops[i]].a;
		const long before = allocs;
		size_t r;
		int e;
		/* an operation whose allocation failed must report failure and change nothing */
#define FAULTED (fault_at >= 0 && before <= fault_at && allocs > fault_at)
		switch (k)
		{
			case K_CREATE: v = vector_create(CAPS[a]); live = true; break;
			case K_FAULT: fault_at = a; allocs = 0; break;
			case K_ADD: case K_PUSH:
				if (k == K_ADD) r = vector_add(&v, VALS[a]); else r = stack_push(&v, VALS[a]) == 0 ? mn : SIZE_MAX;
				if (!live || FAULTED) { CHECK(r == SIZE_MAX, "refused addition returned %zu", r); break; }
				CHECK(r == mn, "addition returned index %zu, expected %zu", r, mn);
				m[mn++] = VALS[a]; break;
			case K_ADDD: case K_PUSHD:
				if (k == K_ADDD) r = vector_add_double(&v, DVALS[a]); else r = stack_push_double(&v, DVALS[a]) == 0 ? mn : SIZE_MAX;
				if (!live || FAULTED) { CHECK(r == SIZE_MAX, "refused addition returned %zu", r); break; }
				CHECK(r == mn, "addition returned index %zu, expected %zu", r, mn);
				m_put(mn, &DVALS[a]); mn += W; break;
			case K_ADDL: case K_PUSHL:
				if (k == K_ADDL) r = vector_add_int64(&v, LVALS[a]); else r = stack_push_int64(&v, LVALS[a]) == 0 ? mn : SIZE_MAX;
				if (!live || FAULTED) { CHECK(r == SIZE_MAX, "refused addition returned %zu", r); break; }
				CHECK(r == mn, "addition returned index %zu, expected %zu", r, mn);
				m_put(mn, &LVALS[a]); mn += W; break;
			case K_SET:
			{
				const size_t at = idx(a, live ? mn : 0);
				e = vector_set(&v, at, VALS[1]);
				if (!live || at >= mn) { CHECK(e != 0, "write outside was not refused"); break; }
				CHECK(e == 0, "write inside was refused");
				m[at] = VALS[1]; break;
			}
			case K_SETD: case K_SETL:
			{
				const size_t at = idx(a, live ? mn : 0);
				r = k == K_SETD ? vector_set_double(&v, at, DVALS[0]) : vector_set_int64(&v, at, LVALS[0]);
				if (!live || at >= mn || mn - at < W) { CHECK(r == SIZE_MAX, "write outside was not refused"); break; }
				CHECK(r == W, "wide write returned %zu", r);
				m_put(at, k == K_SETD ? (const void *)&DVALS[0] : (const void *)&LVALS[0]); break;
			}
			case K_REM: case K_POP:
			{
				const item_t x = k == K_REM ? vector_remove(&v) : stack_pop(&v);
				if (!live || mn == 0) { CHECK(x == ITEM_MAX, "removal from an empty vector was not refused"); break; }
				mn--;
				CHECK(x == m[mn], "removed %lld, expected %lld", (long long)x, (long long)m[mn]); break;
			}
			case K_REMD: case K_POPD:
			{
				const double x = k == K_REMD ? vector_remove_double(&v) : stack_pop_double(&v);
				if (!live || mn < W) { CHECK(same_d(x, DBL_MAX), "removal from an empty vector was not refused"); break; }
				mn -= W;
				CHECK(m[mn] == LLONG_MAX || same_d(x, m_d(mn)), "removed %g, expected %g", x, m_d(mn)); break;
			}
			case K_REML: case K_POPL:
			{
				const int64_t x = k == K_REML ? vector_remove_int64(&v) : stack_pop_int64(&v);
				if (!live || mn < W) { CHECK(x == LLONG_MAX, "removal from an empty vector was not refused"); break; }
				mn -= W;
				CHECK(x == m_l(mn), "removed %lld, expected %lld", (long long)x, (long long)m_l(mn)); break;
			}
			case K_INC: case K_RES: case K_RESET:
			{
				const size_t to = k == K_RESET ? 0 : k == K_INC ? mn + SIZES[a] : SIZES[a];
				e = k == K_RESET ? stack_reset(&v) : k == K_INC ? vector_increase(&v, SIZES[a]) : vector_resize(&v, to);
				if (!live || FAULTED) { CHECK(e != 0, "refused resize returned success"); break; }
				CHECK(e == 0, "resize failed");
				m_resize(to); break;
			}
			case K_CLEAR:
				e = vector_clear(&v);
				CHECK((e == 0) == live, "clear returned %d", e);
				live = false; mn = 0; break;
		}
	}
	if (n) check_all();
	if (live) vector_clear(&v);
}

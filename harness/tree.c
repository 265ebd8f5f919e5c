#include "h.h"
#include "tree.h"
#include "node_vector.h"

#define MAXH 8
enum { K_START, K_CHILD, K_INSERT, K_SWAP, K_ORDER, K_REMOVE, K_ARG, K_ARGD, K_ARGL, K_SETARG, K_SETARGD, K_TYPE };
static struct { int k, a, b; } OPS[512];
static int nops;
static int HANDLES = 5;
static void add(int k, int a, int b) { OPS[nops].k = k; OPS[nops].a = a; OPS[nops].b = b; nops++; }
/* initial trees: parent of each node (by creation order), number of arguments */
static const struct { int n; int par[6]; int args[6]; } SEED[] = {
	{ 0 }, { 4, { 0, 1, 1, 0 }, { 1, 0, 2, 0 } }, { 4, { 0, 1, 2, 3 }, { 0, 1, 0, 1 } }, { 4, { 0, 0, 0, 0 }, { 0, 1, 2, 0 } }
	, { 5, { 0, 0, 1, 2, 1 }, { 0, 0, 0, 1, 0 } }, { 5, { 0, 0, 2, 0, 2 }, { 1, 1, 0, 0, 0 } } };
#define NSEED 6
static int created(const int *ops, int n)
{
	int c = 0;
	for (int i = 0; i < n; i++)
	{
		const int k = OPS[ops[i]].k;
		c += k == K_START ? SEED[OPS[ops[i]].a].n : k == K_CHILD || k == K_INSERT;
	}
	return c;
}
static bool en(const int *ops, int n, int op)
{
	if (n == 0) return OPS[op].k == K_START;
	if (OPS[op].k == K_START) return false;
	const int c = created(ops, n);
	const int k = OPS[op].k;
	if (OPS[op].a > c || ((k == K_SWAP || k == K_ORDER) && OPS[op].b > c)) return false;
	if ((k == K_CHILD || k == K_INSERT) && c >= MAXH - 1) return false;
	return true;
}
static void harness_init(void)
{
	enabled = en;
	for (int i = 0; i < NSEED; i++) add(K_START, i, 0);
	for (int h = 0; h <= HANDLES; h++) add(K_CHILD, h, 0);
	for (int h = 0; h <= HANDLES; h++) add(K_INSERT, h, h % 3);
	for (int h = 1; h <= HANDLES; h++) for (int g = h; g <= HANDLES; g++) { add(K_SWAP, h, g); if (h != g) add(K_ORDER, h, g); }
	add(K_SWAP, 4, 2); add(K_ORDER, 3, 1); add(K_SWAP, 0, 1);
	for (int h = 0; h <= HANDLES; h++) add(K_REMOVE, h, 0);
	add(K_ARG, 0, 0); add(K_ARGD, 0, 0); add(K_ARGL, 0, 0);
	for (int h = 1; h <= 3; h++) { add(K_SETARG, h, h - 1); add(K_SETARGD, h, 0); add(K_TYPE, h, 0); }
}
int op_count(void) { return nops; }
void op_name(int op, char *o)
{
	static const char *N[] = { "start", "add_child", "insert", "swap", "order", "remove", "add_arg", "add_arg_double", "add_arg_int64", "set_arg", "set_arg_double", "set_type" };
	sprintf(o, "%s(%d, %d)", N[OPS[op].k], OPS[op].a, OPS[op].b);
}
/* reference ordered tree */
static struct mn { bool alive; int par, nch, ch[MAXH], argc; item_t arg[8], type; size_t save; } m[MAXH + 2];
static int cnt, last; /* last: the node whose arguments may still be extended (-1: none) */
static vector t;
static node h[MAXH + 2];
static bool anc(int a, int b) { while (b != 0) { if (a == b) return true; b = m[b].par; } return a == 0; }
static int pos(int x) { const int p = m[x].par; for (int i = 0; i < m[p].nch; i++) if (m[p].ch[i] == x) return i; return -1; }
static int walk[MAXH + 2], nwalk;
static void preorder(int x) { walk[nwalk++] = x; for (int i = 0; i < m[x].nch; i++) preorder(m[x].ch[i]); }
static void kill_sub(int x) { m[x].alive = false; for (int i = 0; i < m[x].nch; i++) kill_sub(m[x].ch[i]); }
static bool same_d(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static void new_child(int p)
{
	const int c = ++cnt;
	h[c] = node_add_child(&h[p], 100 + c);
	CHECK(node_is_correct(&h[c]), "add_child failed");
	memset(&m[c], 0, sizeof m[c]);
	m[c].alive = true; m[c].par = p; m[c].type = 100 + c;
	m[p].ch[m[p].nch++] = c;
	last = c;
}
static void new_arg(item_t v)
{
	CHECK(node_add_arg(&h[last], v) == 0, "add_arg failed");
	m[last].arg[m[last].argc++] = v;
}
static void check_node(int x)
{
	const node *nd = &h[x];
	CHECK(node_get_amount(nd) == (size_t)m[x].nch, "node %d has %zu children, expected %d", x, node_get_amount(nd), m[x].nch);
	CHECK(node_get_argc(nd) == (size_t)m[x].argc, "node %d has %zu arguments, expected %d", x, node_get_argc(nd), m[x].argc);
	CHECK(node_get_type(nd) == (x ? m[x].type : ITEM_MAX), "type of node %d is %lld", x, (long long)node_get_type(nd));
	for (int i = 0; i < m[x].argc; i++)
	{
		double d; memcpy(&d, &m[x].arg[i], 8);
		CHECK(node_get_arg(nd, (size_t)i) == m[x].arg[i], "argument %d of node %d is %lld, expected %lld", i, x, (long long)node_get_arg(nd, (size_t)i), (long long)m[x].arg[i]);
		CHECK(same_d(node_get_arg_double(nd, (size_t)i), d), "double argument %d of node %d differs", i, x);
		CHECK(node_get_arg_int64(nd, (size_t)i) == m[x].arg[i], "int64 argument %d of node %d differs", i, x);
	}
	CHECK(node_get_arg(nd, (size_t)m[x].argc) == ITEM_MAX && node_get_arg_int64(nd, (size_t)m[x].argc) == LLONG_MAX
		&& node_get_arg(nd, SIZE_MAX) == ITEM_MAX && node_get_arg_int64(nd, SIZE_MAX) == LLONG_MAX && node_get_arg_double(nd, SIZE_MAX) == DBL_MAX
		&& node_set_arg(nd, (size_t)m[x].argc, 1) != 0 && node_set_arg_double(nd, SIZE_MAX, 1) == SIZE_MAX, "argument out of range was not refused");
	for (int i = 0; i < m[x].nch; i++)
	{
		node c = node_get_child(nd, (size_t)i);
		CHECK(node_is_correct(&c) && node_save(&c) == node_save(&h[m[x].ch[i]]), "child %d of node %d is not node %d", i, x, m[x].ch[i]);
		node p = node_get_parent(&c);
		CHECK(node_is_correct(&p) && node_save(&p) == node_save(nd), "parent of node %d is not node %d", m[x].ch[i], x);
	}
	node c = node_get_child(nd, (size_t)m[x].nch);
	CHECK(!node_is_correct(&c), "child out of range was not refused");
	c = node_get_child(nd, SIZE_MAX);
	CHECK(!node_is_correct(&c), "child out of range was not refused");
	node l = node_load(&t, node_save(nd));
	CHECK(node_is_correct(&l) && node_save(&l) == node_save(nd) && l.tree == nd->tree, "a saved node does not load");
	node cp = node_get_root(&t);
	CHECK(node_copy(&cp, nd) == 0 && node_save(&cp) == node_save(nd), "copy of a node handle differs");
	for (int i = 0; i < m[x].nch; i++) check_node(m[x].ch[i]);
}
static void check_all(void)
{
	h[0] = node_get_root(&t);
	CHECK(node_is_correct(&h[0]), "no root");
	node p = node_get_parent(&h[0]);
	CHECK(!node_is_correct(&p), "the root has a parent");
	check_node(0);
	nwalk = 0;
	preorder(0);
	node_vector nv = node_vector_create();
	for (int i = 0; i < nwalk; i++) CHECK(node_vector_add(&nv, &h[walk[i]]) == (size_t)i, "node list index differs");
	if (nwalk > 1) CHECK(node_vector_set(&nv, 0, &h[walk[nwalk - 1]]) == 0, "node list write failed");
	for (int i = 0; i < nwalk; i++)
	{
		const node x = node_vector_get(&nv, (size_t)i);
		CHECK(node_is_correct(&x) && node_save(&x) == node_save(&h[walk[i || nwalk == 1 ? i : nwalk - 1]]), "node list element %d differs", i);
	}
	CHECK(node_vector_size(&nv) == (size_t)nwalk, "node list size differs");
	node_vector_clear(&nv);
	node it = h[0];
	for (int i = 1; i < nwalk; i++)
	{
		const node nx = node_get_next(&it);
		CHECK(node_is_correct(&nx) && node_save(&nx) == node_save(&h[walk[i]]), "traversal step %d is not node %d", i, walk[i]);
		CHECK(node_set_next(&it) == 0 && node_save(&it) == node_save(&nx), "set_next differs from get_next");
	}
	const size_t at = node_save(&it);
	const node end = node_get_next(&it);
	CHECK(!node_is_correct(&end), "traversal does not end");
	CHECK(node_set_next(&it) != 0 && node_save(&it) == at, "set_next past the end");
}
void run(const int *ops, int n)
{
	if (n == 0) return;
	memset(m, 0, sizeof m);
	cnt = 0; last = -1;
	t = vector_create(1);
	m[0].alive = true;
	h[0] = node_get_root(&t);
	for (int i = 0; i < n; i++)
	{
		const int k = OPS[ops[i]].k, a = OPS[ops[i]].a, b = OPS[ops[i]].b;
		if (k != K_START && !m[a].alive) goto done;
		switch (k)
		{
			case K_START:
				for (int j = 0; j < SEED[a].n; j++)
				{
					new_child(SEED[a].par[j]);
					for (int q = 0; q < SEED[a].args[j]; q++) new_arg(1000 + 10 * j + q);
				}
				break;
			case K_CHILD: new_child(a); break;
			case K_INSERT:
			{
				const node nn = node_insert(&h[a], 200 + cnt + 1, (size_t)b);
				if (a == 0) { CHECK(!node_is_correct(&nn), "insertion above the root was not refused"); break; }
				CHECK(node_is_correct(&nn), "insertion failed");
				const int c = ++cnt, p = m[a].par, at = pos(a);
				h[c] = nn;
				memset(&m[c], 0, sizeof m[c]);
				m[c].alive = true; m[c].par = p; m[c].type = 200 + c; m[c].argc = b; m[c].nch = 1; m[c].ch[0] = a;
				m[p].ch[at] = c; m[a].par = c;
				last = -1;
				break;
			}
			case K_SWAP: case K_ORDER:
				if (!m[b].alive) goto done;
				if (a == 0) { CHECK(node_swap(&h[a], &h[b]) != 0, "swap with the root was not refused"); break; }
				if (!m[b].alive || (a != b && (anc(a, b) || anc(b, a)))) goto done;	/* not defined for ancestors */
				CHECK((k == K_SWAP ? node_swap(&h[a], &h[b]) : node_order(&h[a], &h[b])) == 0, "swap failed");
				{
					const int pa = m[a].par, pb = m[b].par, ia = pos(a), ib = pos(b);
					m[pa].ch[ia] = b; m[pb].ch[ib] = a;
					m[a].par = pb; m[b].par = pa;
					if (k == K_ORDER)
					{
						struct mn x = m[a];
						m[a].nch = m[b].nch; memcpy(m[a].ch, m[b].ch, sizeof x.ch);
						m[b].nch = x.nch; memcpy(m[b].ch, x.ch, sizeof x.ch);
						for (int j = 0; j < m[a].nch; j++) m[m[a].ch[j]].par = a;
						for (int j = 0; j < m[b].nch; j++) m[m[b].ch[j]].par = b;
					}
				}
				break;
			case K_REMOVE:
			{
				node r = h[a];
				const int e = node_remove(&r);
				if (a == 0) { CHECK(e != 0, "removal of the root was not refused"); break; }
				CHECK(e == 0, "removal failed");
				CHECK(!node_is_correct(&r), "a removed node is still usable");
				const int p = m[a].par, at = pos(a);
				for (int j = at; j + 1 < m[p].nch; j++) m[p].ch[j] = m[p].ch[j + 1];
				m[p].nch--;
				kill_sub(a);
				last = -1;
				break;
			}
			case K_ARG: case K_ARGD: case K_ARGL:
				if (last < 0 || !m[last].alive || m[last].argc >= 4) goto done;
				if (m[last].nch) { CHECK(node_add_arg(&h[last], 5) != 0, "adding an argument to a node with children was not refused"); break; }
				if (k == K_ARG) new_arg(5000 + i);
				else if (k == K_ARGD) { const double d = 0.1 * i; CHECK(node_add_arg_double(&h[last], d) == 0, "add_arg_double failed"); memcpy(&m[last].arg[m[last].argc++], &d, 8); }
				else { CHECK(node_add_arg_int64(&h[last], -9 - i) == 0, "add_arg_int64 failed"); m[last].arg[m[last].argc++] = -9 - i; }
				break;
			case K_SETARG:
			{
				const int e = node_set_arg(&h[a], (size_t)b, 7000 + i);
				CHECK((e == 0) == (b < m[a].argc), "set_arg returned %d", e);
				if (b < m[a].argc) m[a].arg[b] = 7000 + i;
				break;
			}
			case K_SETARGD:
			{
				const double d = -2.5 * i;
				const size_t e = node_set_arg_double(&h[a], (size_t)b, d);
				CHECK((e != SIZE_MAX) == (b < m[a].argc), "set_arg_double returned %zu", e);
				if (b < m[a].argc) memcpy(&m[a].arg[b], &d, 8);
				break;
			}
			case K_TYPE: CHECK(node_set_type(&h[a], 300 + i) == 0, "set_type failed"); m[a].type = 300 + i; break;
		}
	}
	check_all();
done:
	vector_clear(&t);
}

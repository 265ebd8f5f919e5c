#!/usr/bin/env python3
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cases, image, gen_expr, gen_stmt, gen_aggr, gen_call

BUILTINS = """
struct S { int x; float y; };
struct msg_info { int numTh; int data; };
void *th(void *a) { int n = 1; t_msg_send({n, 5}); struct msg_info m = t_msg_receive(); t_msg_send(m); t_exit(); return a; }
void main()
{
	int i = 3; float z = 4.0; bool b = true; char c = 'a'; int v[2] = {1, 2}; float w[2] = {1.5, 2.5}; char s[] = "abc";
	struct S q = {1, 2.5};
	assert(i == 3, "three");
	while (i-- > 0)
	{
		z = asin(z) + cos(z) + sin(z) + exp(z) + log(z) + log10(z) + sqrt(z) + rand(); i += round(z); i += abs(i); z += abs(z);
		asin(z); rand(); round(z); strcmp(s, "x"); strncmp(s, "x", 1); strstr(s, "x"); abs(i); abs(z);
		i = strcmp(s, "x") + strncmp(s, "y", 2) + strstr(s, "z");
		print(i); print(z); print(b); print(c); print(v); print(s); print(q); print(w);
		printid(i); printid(z, b, c); printid(v, s, q); getid(i, z); getid(v);
	}
	t_init(); int t = t_create(th); t_join(t); t_sleep(10); i = t_getnum(); t_getnum(); int sem = t_sem_create(1); t_sem_wait(sem); t_sem_post(sem); t_create(th); t_destroy();
	send_int_to_robot(1, v); send_float_to_robot(1, w); send_string_to_robot(1, "abc"); i = receive_int_from_robot(1); z = receive_float_from_robot(2); receive_string_from_robot(3);
	receive_int_from_robot(1); receive_float_from_robot(1);
}
"""


def programs(c):
    yield "builtins", [BUILTINS], False
    for f in sorted(glob.glob(os.path.join(vlib.REPO, "tests", "**", "*.c"), recursive=True)):
        yield "test program " + f[len(vlib.REPO):], [f], True
    for name, gen in (("expressions", gen_expr.all_cases(c.thorough)), ("aggregates", gen_aggr.all_cases(c.thorough)), ("calls", gen_call.all_cases(c.thorough)), ("repeated statements", gen_stmt.height_cases())):
        for b in vlib.chunks((x for x in gen if x.tag not in KNOWN), 30):
            yield name, b, False
    for b in vlib.chunks(gen_stmt.trees(c.thorough, c.thorough), 30):
        yield "statements", b, False


KNOWN = {f["input"] for f in vlib.load_findings() if f.get("status") == "known"}


def one(src, path):
    r = vlib.worker_ruc("rel")
    if path: res = r.run([], ["-VM", "-Wno", src, "-o", "o.out"], ["o.out"])
    else: res = r.compile(src, ("-VM", "-Wno"))
    if not res.ok: return None if path else ("not compiled: " + cases.first_error(res))
    try:
        return image.check(res.outs[0])
    except (image.Bad, ValueError, IndexError) as e:
        return "%s: %s" % (type(e).__name__, e)


def work(job):
    label, b, path = job
    if path or isinstance(b[0], str):
        r = one(b[0], path)
        return (0, 0, 0), [(label, b[0], r)] if isinstance(r, str) else [], r if isinstance(r, tuple) else None
    if label == "statements":
        cases.PRELUDE = cases.PRELUDE0 + gen_stmt.TOP
        b = [x for x in (gen_stmt.make((t, 0, k)) for t, _, k in b) if x]
        if not b: return (0, 0, 0), [], None
    else: cases.PRELUDE = cases.PRELUDE0
    r = one(cases.program(b), False)
    if isinstance(r, tuple): return (0, 0, 0), [], r
    bad = []
    for c in b:
        q = one(cases.program([c]), False)
        if isinstance(q, str): bad.append((label + ": " + c.tag, cases.program([c]), q))
    return (0, 0, 0), bad or [(label, cases.program(b), r)], None


def main():
    c = vlib.Check("C14")
    vlib.rucd("rel")
    images = 0
    for _, bad, r in vlib.pmap(work, programs(c)):
        if r:
            images += 1
            c.count(states=r[0], transitions=r[1], traces=1)
            if images % 200 == 1: c.sample({"instructions": r[0], "edges": r[1], "functions": r[2]})
        for label, src, what in bad: c.violation("%s: %s" % (label, what), src, key=label)
        if len(c.viol) > 20: break
    c.note("images", images)
    c.assumptions.append("instruction lengths and stack effects are those in lib/image.py")
    return c.finish()


sys.exit(main())

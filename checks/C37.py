#!/usr/bin/env python3
"""C37: every keyword and built-in name of every program of the corpus replaced by each of its other spellings."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, corpus
from corpus import tokens
import C02

c = vlib.Check("C37")
T = c.thorough
TARGETS = ["-VM", "-LLVM", "-MIPS"]

# docs/Language.md, 6.6 and 13: English and Russian; each also in capital letters
TABLE = """main главная|char литера|double двойной|float вещ|int цел|long длин|struct структура|enum перечисление|void пусто|file файл|typedef типопр|if если|else иначе|do цикл|while пока|for для
switch выбор|case случай|default умолчание|break выход|continue продолжить|return возврат|null ничто|abs абс|upb кол_во|bool булево|true истина|false ложь|const конст
assert проверить|asin асин|cos кос|sin син|exp эксп|log лог|log10 лог10|sqrt квкор|rand случ|round округл|strncpy копир_н_симв|strcat конкат_строки|strcmp сравн_строк|strncmp сравн_н_симв|strstr нач_подстрок
send_int_to_robot послать_цел_на_робот|send_float_to_robot послать_вещ_на_робот|send_string_to_robot послать_строку_на_робот|receive_int_from_robot получить_цел_от_робота|receive_float_from_robot получить_вещ_от_робота
receive_string_from_robot получить_строку_от_робота|t_create н_создать|t_getnum н_номер_нити|t_sleep н_спать|t_join н_присоед|t_exit н_конец|t_init н_начать|t_destroy н_закончить|t_sem_create н_создать_сем
t_sem_wait н_вниз_сем|t_sem_post н_вверх_сем|t_msg_send н_послать|t_msg_receive н_получить|fopen фоткрыть|fgetc фчитать_символ|fputc фписать_символ|fclose фзакрыть
printf печатьф|print печать|printid печатьид|getid читатьид""".replace("\n", "|").split("|")
SPELL = {}
for row in TABLE:
    e, r = row.split()
    all4 = [e, e.upper(), r, r.upper()]
    for w in all4: SPELL[w] = all4

# every word in a place where it means something
WORDS = r'''
int f(const int x) { const float c = 1.5; double d = c; long l = x; return l; } void main() { printf("%i %f", f(2), 1.0); }
typedef char T; T t = 'q'; bool b = true; void main() { bool d = false; if (b) t = 'w'; else d = b; print(t); printid(t, b); }
enum E { A, B = 3, C }; struct S { int x; float y; } s = { 1, 2.5 }; void main() { int i; enum E e = C; switch (e) { case A: i = 1; break; case B: i = 2; break; default: i = 3; } print(i); }
void main() { int i; for (i = 0; i < 5; i++) { if (i == 2) continue; if (i == 4) break; } while (i < 9) i++; do { i--; } while (i > 0); }
int *p = null; int a[3]; void main() { p = null; int k = upb(0, a); k = abs(k - 5); float z = abs(-1.5); int x; getid(x); }
void main() { float z = asin(0.5) + cos(1.0) + sin(1.0) + exp(1.0) + log(2.0) + log10(2.0) + sqrt(2.0) + rand(); int i = round(z); assert(i > 0, "msg"); }
void main() { char s[] = "abc", t[] = "abd"; char u[] = strncpy(s, 2), v[] = strcat(s, t); int i = strcmp(s, t) + strncmp(s, t, 2) + strstr(s, t); }
void main() { int v[2] = { 1, 2 }; float w[2] = { 1.0, 2.0 }; send_int_to_robot(1, v); send_float_to_robot(1, w); send_string_to_robot(1, "go"); int i = receive_int_from_robot(2); float f = receive_float_from_robot(2); receive_string_from_robot(3); }
void *th(void *x) { t_init(); t_exit(); return x; } void main() { t_init(); int n = t_getnum(); int s = t_sem_create(1); t_sem_wait(s); t_sem_post(s); t_sleep(1); t_destroy(); }
int th(int x) { return x; } void main() { t_join(1); }
void main() { file *f = fopen("a", "r"); int ch = fgetc(f); fputc(ch, f); fclose(f); }
struct M { int numTh; int data; } m; void main() { m.data = 1; }
void main() { int t = t_create(main); }
void f() { t_msg_receive(); } void main() { }
int g = 1; void main() { while (true) { if (g) break; } do g = 2; while (false); }
'''.strip().split("\n")


def req(t): return [([("t.c", t)], [f, "t.c", "-o", "o"], ["o"]) for f in TARGETS]


def summary(rs):
    """what must not depend on the spelling: verdicts, code and the kinds of messages"""
    out = []
    for r in rs:
        lines = re.sub("\x1b\\[[0-9;]*m", "", r.log.decode(errors="replace")).splitlines()
        msgs = [m.group(1) for m in (re.search(r"((?:ошибка|предупреждение): .*)", l) for l in lines) if m]
        out.append((r.code, re.sub(rb'# ".*?" function', b"#", r.outs[0] or b""), tuple(re.sub(r"'.*?'|\".*?\"", "", m) for m in msgs)))
    return out


def variants(ts):
    """(what, tokens): each word everywhere, each occurrence, and all words together in each spelling"""
    at = [k for k, t in enumerate(ts) if t in SPELL]
    for w in sorted({SPELL[ts[k]][0] for k in at}):
        for s in SPELL[w]:
            v = [s if SPELL.get(t, [None])[0] == w else t for t in ts]
            if v != ts: yield "%s as %s" % (w, s), v
    for n in range(4): yield "spelling %d of all words" % n, [SPELL[t][n] if t in SPELL else t for t in ts]
    for n in range(4): yield "spellings in turn from %d" % n, [SPELL[t][(k + n) % 4] if t in SPELL else t for k, t in enumerate(ts)]
    if len(ts) < (4000 if T else 150):
        for k in at:
            for s in SPELL[ts[k]]:
                if s != ts[k]: yield "%s as %s, one occurrence" % (ts[k], s), ts[:k] + [s] + ts[k + 1:]


def batch(part):
    ruc = vlib.worker_ruc("rel")
    bad, n, used = [], 0, set()
    for label, ts in part:
        base = " ".join(ts)
        vs = [(w, " ".join(v)) for w, v in variants(ts)]
        vs = [(w, v) for w, v in vs if v != base]
        used.update(SPELL[t][0] for t in ts if t in SPELL)
        def several(texts):
            reqs = [q for t in texts for q in req(t)]
            rs = ruc.run_batch(reqs, 5000)
            return [rs[3 * i:3 * i + 3] for i in range(len(texts))]
        want = summary([ruc.run(*q, 60000) for q in req(base)])
        for i in range(0, len(vs), 60):
            for (what, v), rs in zip(vs[i:i + 60], several([v for _, v in vs[i:i + 60]])):
                n += 1
                if None not in rs and summary(rs) == want: continue
                rs = [ruc.run(*q, 60000) for q in req(v)]
                got = summary(rs)
                if got != want:
                    k = [i for i in range(3) if got[i] != want[i]][0]
                    bad.append(("%s: %s: %s differs" % (label, what, TARGETS[k]), "with other spellings:\n%s\n\noriginal:\n%s\n\n%s\n%s\n" % (v, base, got[k][2], want[k][2])))
                    if len(bad) > 5: return n, bad, used
    return n, bad, used


def programs():
    for k, s in enumerate(WORDS): yield "words %d" % k, tokens(s)
    for k, s in enumerate(C02.KINDS.strip().split("\n") if isinstance(C02.KINDS, str) else C02.KINDS):
        ts = tokens(s)
        if ts: yield "mistake %d" % k, ts
    for label, s in corpus.programs():
        ts = tokens(s)
        if ts and (T or len(ts) < 900): yield label, ts


def chunks(size=4):
    it = iter(programs())
    while True:
        part = list(itertools.islice(it, size))
        if not part: return
        yield part


def main():
    vlib.rucd("rel")
    used, n_prog = set(), 0
    for n, bad, u in vlib.pmap(batch, chunks()):
        c.count(n, 3 * n, 3 * n)
        used |= u
        for what, replay in bad: c.violation(what, replay)
        if len(c.viol) > 20: break
    missing = sorted({v[0] for v in SPELL.values()} - used)
    c.note("words that occur", len(used))
    c.note("words that do not occur", missing)
    if missing and not c.viol: c.violation("vacuous: no program uses %s" % missing, "vacuous")
    sys.exit(c.finish())


if __name__ == "__main__": main()

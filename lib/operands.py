"""Declarations and operands of every type and kind, with their types, for the checks of verdicts."""
from rules import X

DECL = """struct P { int x; };
struct S { int x; float f; int a[2]; int *q; };
struct K { const int x; int *const q; float f; };
enum E { A, B };
enum G { H };
int gi; S gs;
int vi(int n) { return n; } void vv() { } float vf() { return 1.5; } bool vb() { return true; } S vs() { return gs; } int *vp() { return &gi; } int vptr(int *q) { return 1; } int vcp(const int *q) { return 1; } float vfl(float n) { return n; } void varr(int n[]) { }
"""
LOCAL = """bool b; char h; int i; float f; E e; G g; S s; P o; int *p; float *pf; S *ps; P *po; bool *pb; int ar[2]; float af[2]; int am[2][2]; S as[2]; int *ap[2];
const bool kb = true; const char kh = 'k'; const int ki = 1; const float kf = 1.5; const E ke = A; const P ks = { 1 }; const int *pk = &ki; int *const kp = &i; const int *const kpk = &ki; const int ka[2] = { 1, 2 };
K kk = { 1, null, 2 }; K *pkk = &kk; const P *pks = &ks; const S *pkS = &s;
"""
GLOBAL = LOCAL
I, F, Bo, C_, P_ = "int", "float", "bool", "char", "struct P"
ptr = lambda t: ("ptr", t)
arr = lambda t: ("arr", t)
k = lambda t: ("const", t)
V = [X("b", Bo, True, False), X("h", C_, True, False), X("i", I, True, False), X("f", F, True, False), X("e", "enum E", True, False), X("g", "enum G", True, False),
     X("s", "struct S", True, False), X("o", P_, True, False), X("p", ptr(I), True, False), X("pf", ptr(F), True, False), X("ps", ptr("struct S"), True, False), X("po", ptr(P_), True, False), X("pb", ptr(Bo), True, False),
     X("ar", arr(I), True, False), X("af", arr(F), True, False), X("am", arr(arr(I)), True, False), X("as", arr("struct S"), True, False), X("ap", arr(ptr(I)), True, False)]
K = [X("kb", k(Bo), True, False), X("kh", k(C_), True, False), X("ki", k(I), True, False), X("kf", k(F), True, False), X("ke", k("enum E"), True, False), X("ks", k(P_), True, False),
     X("pk", ptr(k(I)), True, False), X("kp", k(ptr(I)), True, False), X("kpk", k(ptr(k(I))), True, False), X("pks", ptr(k(P_)), True, False), X("pkS", ptr(k("struct S")), True, False), X("ka", arr(k(I)), True, False), X("kk", "struct K", True, False), X("pkk", ptr("struct K"), True, False)]
L = [X("5", I, False, True), X("'c'", C_, False, True), X("2.5", F, False, True), X("true", Bo, False, True), X("\"lit\"", arr(C_), False, False), X("null", "null", False, True), X("A", "enum E", False, True), X("H", "enum G", False, True)]
R = [X("ar[1]", I, True, False), X("af[i]", F, True, False), X("am[0]", arr(I), True, False), X("am[1][0]", I, True, False), X("as[0]", "struct S", True, False), X("ap[1]", ptr(I), True, False), X("ka[0]", k(I), True, False),
     X("s.x", I, True, False), X("s.f", F, True, False), X("s.a", arr(I), True, False), X("s.q", ptr(I), True, False), X("s.a[1]", I, True, False), X("ks.x", k(I), True, False),
     X("ps->x", I, True, False), X("ps->f", F, True, False), X("pks->x", k(I), True, False), X("pkS->a", k(arr(I)), True, False), X("pkS->q", k(ptr(I)), True, False), X("kk.x", k(I), True, False), X("pkk->q", k(ptr(I)), True, False), X("kk.f", F, True, False), X("*pkk->q", I, True, False),
     X("*p", I, True, False), X("*pf", F, True, False), X("*ps", "struct S", True, False), X("*pb", Bo, True, False), X("*pk", k(I), True, False), X("*kp", I, True, False), X("*kpk", k(I), True, False), X("*pks", k(P_), True, False),
     X("&i", ptr(I), False, False), X("&ki", ptr(k(I)), False, False), X("&s", ptr("struct S"), False, False),
     X("vi(1)", I, False, False), X("vf()", F, False, False), X("vb()", Bo, False, False), X("vs()", "struct S", False, False), X("vp()", ptr(I), False, False), X("vv()", "void", False, False), X("vs().x", I, False, False), X("*vp()", I, True, False), X("vs().a[0]", I, True, False),
     X("i + 1", I, False, False), X("f * 2", F, False, False), X("i < 1", Bo, False, False), X("i = 1", I, False, False), X("p = null", ptr(I), False, False), X("b ? i : i", I, False, False), X("b ? p : null", ptr(I), False, False), X("i, f", F, False, False), X("i++", I, False, False), X("-f", F, False, False),
     X("vi", ("fn", I, (I,)), True, False), X("vv", ("fn", "void", ()), True, False)]
ALL = V + K + L + R
FNS = [X("vi", ("fn", I, (I,)), True, False), X("vv", ("fn", "void", ()), True, False), X("vf", ("fn", F, ()), True, False), X("vptr", ("fn", I, (ptr(I),)), True, False), X("vcp", ("fn", I, (ptr(k(I)),)), True, False), X("vfl", ("fn", F, (F,)), True, False), X("varr", ("fn", "void", (arr(I),)), True, False)]

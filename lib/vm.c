/* A model of the RuC virtual machine: loads an image as the compiler writes it and executes it.
 * Built as a shared library and called through ctypes. Besides executing, it monitors that
 * the evaluation stack never sinks into the frame and that every address lies in memory. */
#define _GNU_SOURCE
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { VM_OK, VM_MALFORMED, VM_RUNTIME, VM_STEPS, VM_MONITOR, VM_ASSERT };
#define CELLS (1 << 18)
#define PEND 4096

typedef struct
{
	int32_t *mem;
	long sizes[7];
	int32_t *fn, *id, *rp, *ty;
	int32_t g, l, x, base;
	int32_t pend[PEND]; int np;
	int32_t frame_lo;
	struct { int32_t x; int n; int32_t bound[16]; } init[256]; int ninit;
	long steps, max_steps;
	int32_t max_x, pc;
	char *out; long out_cap, out_len;
	char err[256];
	jmp_buf jb;
	int depth;
	/* stack height at every instruction, relative to the frame and without the arrays allocated in it */
	int32_t *height, arr, arrs[PEND]; int nact;
} VM;

static void stop(VM *v, int code, const char *f, ...)
{
	va_list a; va_start(a, f); vsnprintf(v->err, sizeof v->err, f, a); va_end(a);
	longjmp(v->jb, code);
}
static void outc(VM *v, uint32_t c)
{
	char b[8]; int n = 0;
	if (c < 0x80) b[n++] = (char)c;
	else if (c < 0x800) { b[n++] = (char)(0xC0 | c >> 6); b[n++] = (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { b[n++] = (char)(0xE0 | c >> 12); b[n++] = (char)(0x80 | (c >> 6 & 63)); b[n++] = (char)(0x80 | (c & 63)); }
	else { b[n++] = (char)(0xF0 | (c >> 18 & 7)); b[n++] = (char)(0x80 | (c >> 12 & 63)); b[n++] = (char)(0x80 | (c >> 6 & 63)); b[n++] = (char)(0x80 | (c & 63)); }
	if (v->out_len + n < v->out_cap) { memcpy(v->out + v->out_len, b, (size_t)n); v->out_len += n; v->out[v->out_len] = 0; }
	else stop(v, VM_STEPS, "too much output");
}
static void outs(VM *v, const char *s) { for (; *s; s++) { if (v->out_len + 1 < v->out_cap) { v->out[v->out_len++] = *s; v->out[v->out_len] = 0; } } }
static int32_t rd(VM *v, int32_t a) { if (a < 0 || a >= CELLS) stop(v, VM_MONITOR, "read at address %d", a); return v->mem[a]; }
static void wr(VM *v, int32_t a, int32_t c)
{
	if (a < v->g || a >= CELLS) stop(v, VM_MONITOR, "write at address %d (code ends at %d)", a, v->g);
	v->mem[a] = c;
}
static double rdd(VM *v, int32_t a) { uint32_t w[2] = { (uint32_t)rd(v, a), (uint32_t)rd(v, a + 1) }; double d; memcpy(&d, w, 8); return d; }
static void wrd(VM *v, int32_t a, double d) { uint32_t w[2]; memcpy(w, &d, 8); wr(v, a, (int32_t)w[0]); wr(v, a + 1, (int32_t)w[1]); }
static void push(VM *v, int32_t c) { v->x++; if (v->x >= CELLS - 8) stop(v, VM_RUNTIME, "stack overflow"); if (v->x > v->max_x) v->max_x = v->x; v->mem[v->x] = c; }
static int32_t pop(VM *v) { if (v->x <= v->frame_lo) stop(v, VM_MONITOR, "pop below the frame at pc %d", v->pc); return v->mem[v->x--]; }
static void pushd(VM *v, double d) { uint32_t w[2]; memcpy(w, &d, 8); push(v, (int32_t)w[0]); push(v, (int32_t)w[1]); }
static double popd(VM *v) { uint32_t w[2]; w[1] = (uint32_t)pop(v); w[0] = (uint32_t)pop(v); double d; memcpy(&d, w, 8); return d; }
static int32_t dsp(VM *v, int32_t d) { return d < 0 ? v->g - d : v->l + d; }

static int32_t bin(VM *v, int op, int32_t a, int32_t b)
{
	switch (op) /* index from REM */
	{
		case 0: if (b == 0) stop(v, VM_RUNTIME, "division by zero"); return b == -1 ? 0 : a % b;
		case 1: return (int32_t)((uint32_t)a << (b & 31));
		case 2: return a >> (b & 31);
		case 3: return a & b;
		case 4: return a ^ b;
		case 5: return a | b;
		case 6: return a && b;
		case 7: return a || b;
		case 8: return a == b;
		case 9: return a != b;
		case 10: return a < b;
		case 11: return a > b;
		case 12: return a <= b;
		case 13: return a >= b;
		case 14: return (int32_t)((uint32_t)a + (uint32_t)b);
		case 15: return (int32_t)((uint32_t)a - (uint32_t)b);
		case 16: return (int32_t)((uint32_t)a * (uint32_t)b);
		case 17: if (b == 0) stop(v, VM_RUNTIME, "division by zero"); return b == -1 ? (int32_t)(0u - (uint32_t)a) : a / b;
	}
	return 0;
}
static double bind(VM *v, int op, double a, double b)
{
	switch (op) { case 14: return a + b; case 15: return a - b; case 16: return a * b; case 17: if (b == 0) stop(v, VM_RUNTIME, "floating division by zero"); return a / b; }
	return 0;
}

static void exec(VM *v, int32_t pc);

/* arrays live on the evaluation stack: [length] elements...; rows are separate arrays */
static int32_t alloc_array(VM *v, const int32_t *bound, int n, int32_t d, int32_t proc)
{
	if (bound[0] <= 0) stop(v, VM_RUNTIME, "array of %d elements", bound[0]);
	const int32_t cell = n > 1 ? 1 : d;
	push(v, bound[0]);
	const int32_t a = v->x + 1;
	for (int64_t i = 0; i < (int64_t)bound[0] * cell; i++) push(v, 0);
	for (int32_t i = 0; i < bound[0]; i++)
	{
		if (n > 1) wr(v, a + i, alloc_array(v, bound + 1, n - 1, d, proc));
		else if (proc) { const int32_t old = v->base; v->base = a + i * d; exec(v, proc); v->base = old; }
	}
	return a;
}
static int32_t fill_array(VM *v, const int32_t *src, long len, long *p, int dims, int32_t d, bool strs, const int32_t *bound, int nb, int32_t code_limit)
{
	int32_t n, from = 0;
	if (*p >= len) stop(v, VM_MONITOR, "initialiser data ends early");
	if (strs && dims == 1) { from = src[(*p)++]; n = rd(v, from - 1); }
	else n = src[(*p)++];
	if (n <= 0 && !(strs && dims == 1)) stop(v, VM_RUNTIME, "array of %d elements", n);
	if (nb > 0 && bound[0] != n) stop(v, VM_RUNTIME, "wrong number of elements in initialiser: %d for %d", n, bound[0]);
	push(v, n);
	const int32_t a = v->x + 1;
	const int32_t cell = dims > 1 || (strs && dims == 1) ? 1 : d;
	for (int64_t i = 0; i < (int64_t)n * cell; i++) push(v, 0);
	for (int32_t i = 0; i < n; i++)
	{
		if (dims > 1) { const int32_t r = fill_array(v, src, len, p, dims - 1, d, strs, bound + 1, nb - 1, code_limit); wr(v, a + i, r); }
		else if (strs) wr(v, a + i, rd(v, from + i));
		else for (int32_t k = 0; k < d; k++) { if (*p >= len) stop(v, VM_MONITOR, "initialiser data ends early"); wr(v, a + i * d + k, src[(*p)++]); }
	}
	return a;
}

static int type_cells(VM *v, int32_t type)
{
	if (type == -3) return 2;
	return type > 0 && type + 2 < v->sizes[4] && v->ty[type] == 1002 ? v->ty[type + 1] : 1;
}

static void print_value(VM *v, int32_t type, int32_t *at)
{
	char b[64];
	if (type > 0 && type + 2 < v->sizes[4] && v->ty[type] == 1002)
	{
		outs(v, "{");
		for (int32_t i = 0; i < v->ty[type + 2]; i += 2) { if (i) outs(v, ", "); print_value(v, v->ty[type + 3 + i], at); }
		outs(v, "}");
		return;
	}
	if (type == -3) { snprintf(b, sizeof b, "%f", rdd(v, *at)); *at += 2; outs(v, b); return; }
	const int32_t c = rd(v, (*at)++);
	if (type == -2) outc(v, (uint32_t)c);
	else if (type > 0 && type + 1 < v->sizes[4] && v->ty[type] == 1003)
	{
		const int32_t n = rd(v, c - 1), et = v->ty[type + 1];
		int32_t p = c;
		for (int32_t i = 0; i < n; i++) { if (i && et != -2) outs(v, " "); print_value(v, et, &p); }
	}
	else { snprintf(b, sizeof b, "%d", c); outs(v, b); }
}

static void do_printf(VM *v, int32_t size)
{
	const int32_t f = pop(v), n = rd(v, f - 1);
	int32_t a = v->x - size + 1; const int32_t end = v->x + 1; char b[400];
	if (a <= v->frame_lo) stop(v, VM_MONITOR, "printf arguments below the frame");
	for (int32_t i = 0; i < n; i++)
	{
		const int32_t c = rd(v, f + i);
		if (c != '%') { outc(v, (uint32_t)c); continue; }
		i++;
		const int32_t k = i < n ? rd(v, f + i) : 0;
		if (k == '%') { outc(v, '%'); continue; }
		if (a >= end) stop(v, VM_MONITOR, "printf directive without argument");
		switch (k)
		{
			case 'i': case 1094: case 'd': snprintf(b, sizeof b, "%d", rd(v, a++)); outs(v, b); break;
			case 'c': case 1083: outc(v, (uint32_t)rd(v, a++)); break;
			case 'f': case 1074: snprintf(b, sizeof b, "%f", rdd(v, a)); a += 2; outs(v, b); break;
			case 's': case 1089: { const int32_t s = rd(v, a++), m = rd(v, s - 1); for (int32_t j = 0; j < m; j++) outc(v, (uint32_t)rd(v, s + j)); break; }
			default: stop(v, VM_MONITOR, "printf directive %%%c", (char)k);
		}
	}
	if (a != end) stop(v, VM_MONITOR, "printf leaves arguments over");
	v->x -= size;
}

#define ARG() rd(v, pc++)
static void exec(VM *v, int32_t pc)
{
	if (++v->depth > 200) stop(v, VM_RUNTIME, "initialisation too deep");
	for (;;)
	{
		if (++v->steps > v->max_steps) stop(v, VM_STEPS, "step limit");
		if (pc < 4 || pc >= v->g) stop(v, VM_MONITOR, "execution leaves the code at %d", pc);
		v->pc = pc;
		if (v->depth == 1 && v->height)
		{
			const int32_t h = v->x - v->l - v->arr;
			if (v->height[pc] == INT32_MIN) v->height[pc] = h;
			else if (v->height[pc] != h) stop(v, VM_MONITOR, "instruction %d is reached with %d and with %d cells on the stack", pc, v->height[pc], h);
		}
		const int32_t op = v->mem[pc++];
		/* compound assignments and increments: address/floating/void variants */
		if ((op >= 9001 && op <= 9022) || (op >= 9201 && op <= 9222) || (op >= 9057 && op <= 9061) || (op >= 9068 && op <= 9072)
			|| (op >= 9257 && op <= 9261) || (op >= 9268 && op <= 9272))
		{
			const bool vd = op >= 9200; int o = vd ? op - 200 : op; const bool fl = o >= 9050; if (fl) o -= 50;
			const bool at = o >= 9012; o -= at ? 9012 : 9001; /* 0..5 = % << >> & ^ |, 6 = '=', 7.. + - * / */
			static const int MAP[] = { 0, 1, 2, 3, 4, 5, -1, 14, 15, 16, 17 };
			if (fl)
			{
				double r = popd(v); const int32_t a = at ? pop(v) : dsp(v, ARG());
				if (o != 6) r = bind(v, MAP[o], rdd(v, a), r);
				wrd(v, a, r);
				if (!vd) pushd(v, r);
			}
			else
			{
				int32_t r = pop(v); const int32_t a = at ? pop(v) : dsp(v, ARG());
				if (o != 6) r = bin(v, MAP[o], rd(v, a), r);
				wr(v, a, r);
				if (!vd) push(v, r);
			}
			continue;
		}
		if ((op >= 9041 && op <= 9048) || (op >= 9091 && op <= 9098) || (op >= 9241 && op <= 9248) || (op >= 9291 && op <= 9298))
		{
			const bool vd = op >= 9200; int o = vd ? op - 200 : op; const bool fl = o >= 9090; if (fl) o -= 50;
			o -= 9041; const bool at = o >= 4; o &= 3; const int32_t a = at ? pop(v) : dsp(v, ARG());
			if (fl)
			{
				const double old = rdd(v, a), nw = old + (o & 1 ? -1.0 : 1.0);
				wrd(v, a, nw); if (!vd) pushd(v, o < 2 ? old : nw);
			}
			else
			{
				const int32_t old = rd(v, a), nw = (int32_t)((uint32_t)old + (o & 1 ? 0xFFFFFFFFu : 1u));
				wr(v, a, nw); if (!vd) push(v, o < 2 ? old : nw);
			}
			continue;
		}
		if (op >= 9023 && op <= 9040) { const int32_t b = pop(v), a = pop(v); push(v, bin(v, op - 9023, a, b)); continue; }
		if (op >= 9081 && op <= 9086)
		{
			const double b = popd(v), a = popd(v);
			push(v, op == 9081 ? a == b : op == 9082 ? a != b : op == 9083 ? a < b : op == 9084 ? a > b : op == 9085 ? a <= b : a >= b);
			continue;
		}
		if (op >= 9087 && op <= 9090) { const double b = popd(v), a = popd(v); pushd(v, bind(v, op - 9087 + 14, a, b)); continue; }
		switch (op)
		{
			case 9049: push(v, (int32_t)(0u - (uint32_t)pop(v))); break;
			case 9099: pushd(v, -popd(v)); break;
			case 9052: push(v, ~pop(v)); break;
			case 9053: push(v, !pop(v)); break;
			case 9453: break;
			case 9454: /* DEFARR N, length, displ, iniproc, usual, has initialiser, in structure */
			{
				const int32_t N = ARG(), d = ARG(), displ = ARG(), proc = ARG(), usual = ARG(), ini = ARG(), inst = ARG();
				const int cnt = ini ? N + (usual & 1) : N;
				if (cnt < 0 || cnt > 15) stop(v, VM_MONITOR, "DEFARR with %d dimensions", cnt);
				int32_t bound[16];
				for (int i = cnt - 1; i >= 0; i--) bound[i] = pop(v);
				if (ini)
				{
					if (v->ninit >= 256) stop(v, VM_MONITOR, "initialisers nested too deep");
					v->init[v->ninit].x = v->x; v->init[v->ninit].n = cnt; memcpy(v->init[v->ninit].bound, bound, sizeof bound); v->ninit++;
				}
				else
				{
					if (cnt < 1) stop(v, VM_MONITOR, "DEFARR without bounds");
					const int32_t at = inst ? v->base + displ : dsp(v, displ);
					const int32_t before = v->x;
					wr(v, at, alloc_array(v, bound, cnt, d, proc));
					if (v->depth == 1) v->arr += v->x - before;
				}
				break;
			}
			case 9481: push(v, ARG()); break;
			case 9477: /* ARR_INIT dimensions, length, displ, usual */
			{
				const int32_t N = ARG(), d = ARG(), displ = ARG(), usual = ARG();
				if (!v->ninit) stop(v, VM_MONITOR, "ARR_INIT without DEFARR");
				v->ninit--;
				const int32_t x0 = v->init[v->ninit].x; const long len = v->x - x0;
				if (len <= 0) stop(v, VM_MONITOR, "ARR_INIT without data");
				int32_t *src = malloc((size_t)len * 4); memcpy(src, v->mem + x0 + 1, (size_t)len * 4);
				v->x = x0; long p = 0;
				const int32_t a = fill_array(v, src, len, &p, N, d, usual & 2, v->init[v->ninit].bound, v->init[v->ninit].n, v->g);
				free(src);
				if (v->depth == 1) v->arr += v->x - x0;
				if (p != len) stop(v, VM_MONITOR, "ARR_INIT leaves data over");
				wr(v, dsp(v, displ), a);
				break;
			}
			case 9478: { const int32_t displ = ARG(), proc = ARG(), old = v->base; v->base = dsp(v, displ); const int32_t before = v->x; exec(v, proc); if (v->depth == 1) v->arr += v->x - before; v->base = old; break; }
			case 9455: push(v, ARG()); break;
			case 9456: { const int32_t a = ARG(), b = ARG(); push(v, a); push(v, b); break; }
			case 9457: push(v, rd(v, dsp(v, ARG()))); break;
			case 9458: pushd(v, rdd(v, dsp(v, ARG()))); break;
			case 9459: { const int32_t a = pop(v); if (a <= 0) stop(v, VM_RUNTIME, "dereference of %d", a); push(v, rd(v, a)); break; }
			case 9460: { const int32_t a = pop(v); if (a <= 0) stop(v, VM_RUNTIME, "dereference of %d", a); pushd(v, rdd(v, a)); break; }
			case 9461: v->depth--; return;
			case 9462: { const int32_t a = pop(v); push(v, a + ARG()); break; }
			case 9463: pc = rd(v, pc + 1); break;
			case 9464: push(v, dsp(v, ARG())); break;
			case 9465: if (v->np >= PEND) stop(v, VM_RUNTIME, "calls too deep"); v->pend[v->np++] = v->x + 1; push(v, v->l); push(v, v->frame_lo); push(v, 0); break;
			case 9466:
			{
				int32_t i = ARG();
				if (i < 0) i = rd(v, v->l - i);
				if (i < 2 || i >= v->sizes[1]) stop(v, VM_MONITOR, "call of function %d of %ld", i, v->sizes[1]);
				const int32_t e = v->fn[i];
				if (e < 4 || e >= v->g || v->mem[e] != 9463) stop(v, VM_MONITOR, "function %d has no entry (%d)", i, e);
				if (!v->np) stop(v, VM_MONITOR, "CALL2 without CALL1");
				const int32_t nl = v->pend[--v->np], md = rd(v, e + 1);
				if (v->x < nl + 2) stop(v, VM_MONITOR, "stack sank into the new frame");
				v->mem[nl] = v->l; v->mem[nl + 2] = pc;
				v->l = nl;
				if (v->x > nl + md - 1) stop(v, VM_MONITOR, "arguments do not fit the frame of function %d", i);
				while (v->x < nl + md - 1) push(v, 0);
				v->frame_lo = v->x;
				if (v->nact >= PEND) stop(v, VM_RUNTIME, "calls too deep");
				v->arrs[v->nact++] = v->arr; v->arr = 0;
				pc = e + 3;
				break;
			}
			case 9467: case 9468:
			{
				const int32_t d = op == 9467 ? ARG() : 0;
				if (v->x - d < v->frame_lo) stop(v, VM_MONITOR, "return of %d cells that are not there", d);
				const int32_t l = v->l, src = v->x - d + 1, back = v->mem[l + 2], ol = v->mem[l], of = v->mem[l + 1];
				for (int32_t i = 0; i < d; i++) v->mem[l + i] = v->mem[src + i];
				v->x = l + d - 1; v->l = ol; v->frame_lo = of; pc = back;
				if (v->nact) v->arr = v->arrs[--v->nact];
				break;
			}
			case 9469: pc = rd(v, pc); break;
			case 9470: pc = pop(v) ? pc + 1 : rd(v, pc); break;
			case 9471: pc = pop(v) ? rd(v, pc) : pc + 1; break;
			case 9472:
			{
				const int32_t d = ARG(), i = pop(v), a = pop(v);
				if (a <= 0) stop(v, VM_RUNTIME, "index of nothing");
				const int32_t n = rd(v, a - 1);
				if (i < 0 || i >= n) stop(v, VM_RUNTIME, "index %d out of %d", i, n);
				push(v, a + i * d);
				break;
			}
			case 9473: pushd(v, (double)pop(v)); break;
			case 9474: { const double b = popd(v); const int32_t a = pop(v); pushd(v, (double)a); pushd(v, b); break; }
			case 9475: { const int32_t a = pop(v); push(v, a); push(v, a); break; }
			case 9304: { const int32_t a = dsp(v, ARG()), n = ARG(); for (int32_t i = 0; i < n; i++) push(v, rd(v, a + i)); break; }
			case 9305: { const int32_t a = pop(v), n = ARG(); if (a <= 0) stop(v, VM_RUNTIME, "dereference of %d", a); for (int32_t i = 0; i < n; i++) push(v, rd(v, a + i)); break; }
			case 9306: { const int32_t a = dsp(v, ARG()), n = ARG(); for (int32_t i = n - 1; i >= 0; i--) wr(v, a + i, pop(v)); break; }
			case 9307:
			{
				const int32_t n = ARG(), from = v->x - n + 1; if (from - 1 <= v->frame_lo) stop(v, VM_MONITOR, "assignment of %d cells that are not there", n);
				const int32_t a = rd(v, from - 1); if (a <= 0) stop(v, VM_RUNTIME, "dereference of %d", a);
				for (int32_t i = 0; i < n; i++) wr(v, a + i, v->mem[from + i]);
				v->x = from - 2;
				break;
			}
			case 9308: { const int32_t off = ARG(), n = ARG(), all = ARG(), from = v->x - all + 1; if (from <= v->frame_lo) stop(v, VM_MONITOR, "no structure on the stack"); for (int32_t i = 0; i < n; i++) v->mem[from + i] = v->mem[from + off + i]; v->x = from + n - 1; break; }
			case 9534: pushd(v, fabs(popd(v))); break;
			case 9535: pushd(v, sqrt(popd(v))); break;
			case 9536: pushd(v, exp(popd(v))); break;
			case 9537: pushd(v, sin(popd(v))); break;
			case 9538: pushd(v, cos(popd(v))); break;
			case 9539: pushd(v, log(popd(v))); break;
			case 9540: pushd(v, log10(popd(v))); break;
			case 9541: pushd(v, asin(popd(v))); break;
			case 9543: { const double d = popd(v); push(v, (int32_t)(d < 0 ? d - 0.5 : d + 0.5)); break; }
			case 9651: { const int32_t a = pop(v); push(v, a < 0 ? (int32_t)(0u - (uint32_t)a) : a); break; }
			case 9588: { const int32_t a = pop(v); pop(v); push(v, rd(v, a - 1)); break; }
			case 9595: { const int32_t s = pop(v), c = pop(v); if (!c) { const int32_t n = rd(v, s - 1); for (int32_t j = 0; j < n; j++) outc(v, (uint32_t)rd(v, s + j)); stop(v, VM_ASSERT, "assertion"); } break; }
			case -25: do_printf(v, ARG()); break;
			case -24:
			{
				const int32_t t = ARG(); const int n = type_cells(v, t); int32_t at = v->x - n + 1;
				if (at <= v->frame_lo) stop(v, VM_MONITOR, "nothing to print");
				print_value(v, t, &at); outc(v, '\n'); v->x -= n;
				break;
			}
			case -23:
			{
				const int32_t r = ARG() + 1; char b[8];
				if (r < 0 || r + 2 >= v->sizes[2]) stop(v, VM_MONITOR, "PRINTID of entry %d of %ld", r, v->sizes[2]);
				int32_t rp = v->id[r] + 2; int32_t at = dsp(v, v->id[r + 2]);
				if (rp < 0 || rp >= v->sizes[3]) stop(v, VM_MONITOR, "name at %d", rp);
				for (; rp < v->sizes[3] && v->rp[rp]; rp++) outc(v, (uint32_t)v->rp[rp]);
				(void)b; outs(v, " "); print_value(v, v->id[r + 1], &at); outs(v, "\n");
				break;
			}
			default: stop(v, VM_MONITOR, "unknown instruction %d at %d", op, pc - 1);
		}
	}
}

static VM *the;
/* Returns a VM_* code; out receives the output; info[0]=steps, [1]=highest stack cell minus initial, [2]=final stack cell minus initial */
int vm_run(const char *image, long len, char *out, long cap, long max_steps, long *info, char *err)
{
	if (!the) { the = calloc(1, sizeof(VM)); the->mem = malloc(CELLS * sizeof(int32_t)); }
	VM *v = the; int32_t *const mem = v->mem; int32_t *tabs = NULL; int code;
	memset(v, 0, sizeof *v); v->mem = mem; memset(mem, 0, CELLS * sizeof(int32_t));
	v->out = out; v->out_cap = cap; v->max_steps = max_steps; out[0] = 0; err[0] = 0;
	volatile int32_t x0 = 0;
	int32_t *volatile to_free = NULL, *volatile hts = NULL;
	if (!(code = setjmp(v->jb)))
	{
		const char *p = image, *const e = image + len; char *q;
		static const char HEAD[] = "#!/usr/bin/ruc-vm\n";
		if (len < (long)sizeof HEAD || memcmp(p, HEAD, sizeof HEAD - 1)) stop(v, VM_MALFORMED, "no image header");
		p += sizeof HEAD - 1;
		for (int i = 0; i < 7; i++) { v->sizes[i] = strtol(p, &q, 10); if (q == p || v->sizes[i] < 0) stop(v, VM_MALFORMED, "header field %d", i); p = q; }
		if (*p++ != '\n') stop(v, VM_MALFORMED, "header line");
		if (v->sizes[0] > CELLS / 2) stop(v, VM_MALFORMED, "code too large");
		long total = 0;
		for (int i = 1; i < 5; i++) total += v->sizes[i];
		if (total > 10000000) stop(v, VM_MALFORMED, "tables too large");
		to_free = tabs = malloc(((size_t)total + 1) * 4);
		int32_t *dst[5] = { mem, tabs, tabs + v->sizes[1], tabs + v->sizes[1] + v->sizes[2], tabs + v->sizes[1] + v->sizes[2] + v->sizes[3] };
		for (int t = 0; t < 5; t++)
		{
			for (long i = 0; i < v->sizes[t]; i++)
			{
				const char *eol = p; while (eol < e && *eol == ' ') eol++;
				if (eol >= e || *eol == '\n') stop(v, VM_MALFORMED, "table %d has fewer than %ld entries", t, v->sizes[t]);
				const long long n = strtoll(p, &q, 10);
				if (q == p || n < INT32_MIN || n > INT32_MAX) stop(v, VM_MALFORMED, "table %d entry %ld", t, i);
				dst[t][i] = (int32_t)n; p = q;
			}
			while (p < e && *p == ' ') p++;
			if (p >= e || *p++ != '\n') stop(v, VM_MALFORMED, "table %d has more than %ld entries", t, v->sizes[t]);
		}
		if (p != e) stop(v, VM_MALFORMED, "text after the tables");
		v->fn = dst[1]; v->id = dst[2]; v->rp = dst[3]; v->ty = dst[4];
		v->g = (int32_t)v->sizes[0]; v->l = v->g; v->x = v->g + (int32_t)v->sizes[5]; x0 = v->x; v->frame_lo = v->x; v->max_x = v->x;
		v->height = hts = malloc((size_t)v->g * 4 + 4);
		for (int32_t i = 0; i < v->g; i++) hts[i] = INT32_MIN;
		exec(v, 4);
	}
	free(to_free); free(hts);
	info[0] = v->steps; info[1] = v->max_x - x0; info[2] = v->x - x0;
	strcpy(err, v->err);
	return code;
}

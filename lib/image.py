"""Decoding and all-paths abstract execution of virtual machine images (C14)."""

class Bad(Exception):
    pass


HEAD = b"#!/usr/bin/ruc-vm\n"
# code -> (operands, cells popped, cells pushed); None where the effect depends on operands
OPS = {9453: (0, 0, 0), 9455: (1, 0, 1), 9456: (2, 0, 2), 9457: (1, 0, 1), 9458: (1, 0, 2), 9459: (0, 1, 1), 9460: (0, 1, 2), 9462: (1, 1, 1), 9464: (1, 0, 1)
       , 9472: (1, 2, 1), 9473: (0, 1, 2), 9474: (0, 3, 4), 9475: (0, 1, 2), 9049: (0, 1, 1), 9099: (0, 2, 2), 9052: (0, 1, 1), 9053: (0, 1, 1), 9651: (0, 1, 1)
       , 9543: (0, 2, 1), 9542: (0, 0, 2), 9588: (0, 2, 1), 9595: (0, 2, 0)
       , 9545: (0, 2, 1), 9546: (0, 2, 1), 9548: (0, 2, 1), 9549: (0, 3, 1), 9550: (0, 2, 1)
       , 9552: (0, 2, 0), 9553: (0, 0, 2), 9554: (0, 1, 0), 9555: (0, 1, 0), 9556: (0, 1, 1), 9557: (0, 1, 0), 9558: (0, 1, 0), 9559: (0, 1, 1), 9560: (0, 0, 0), 9561: (0, 0, 0)
       , 9562: (0, 0, 0), 9563: (0, 0, 1), 9652: (0, 2, 1), 9653: (0, 1, 1), 9654: (0, 1, 1), 9655: (0, 2, 1)
       , 9589: (0, 2, 0), 9590: (0, 2, 0), 9591: (0, 2, 0), 9592: (0, 1, 1), 9593: (0, 1, 2), 9594: (0, 1, 0)}
for o in range(9534, 9542): OPS[o] = (0, 2, 2)
for o in range(9023, 9041): OPS[o] = (0, 2, 1)
for o in range(9081, 9087): OPS[o] = (0, 4, 1)
for o in range(9087, 9091): OPS[o] = (0, 4, 2)
for v in (0, 200):
    for o in range(9001, 9012): OPS[o + v] = (1, 1, 0 if v else 1)
    for o in range(9012, 9023): OPS[o + v] = (0, 2, 0 if v else 1)
    for o in range(9057, 9062): OPS[o + v] = (1, 2, 0 if v else 2)
    for o in range(9068, 9073): OPS[o + v] = (0, 3, 0 if v else 2)
    for o in range(9041, 9045): OPS[o + v] = (1, 0, 0 if v else 1)
    for o in range(9045, 9049): OPS[o + v] = (0, 1, 0 if v else 1)
    for o in range(9091, 9095): OPS[o + v] = (1, 0, 0 if v else 2)
    for o in range(9095, 9099): OPS[o + v] = (0, 1, 0 if v else 2)
# instructions whose operand is a displacement, with the number of cells they touch
DISPL = {9457: 1, 9458: 2, 9464: 1}
for v in (0, 200):
    for o in list(range(9001, 9012)) + list(range(9041, 9045)): DISPL[o + v] = 1
    for o in list(range(9057, 9062)) + list(range(9091, 9095)): DISPL[o + v] = 2


def parse(data):
    if not data.startswith(HEAD): raise Bad("no header line")
    lines = data[len(HEAD):].split(b"\n")
    head = lines[0].split(b" ")
    if len(head) != 7: raise Bad("header has %d fields" % len(head))
    head = [int(x) for x in head]
    if len(lines) != 7 or lines[6] != b"": raise Bad("%d lines instead of 6 tables" % len(lines))
    tabs = []
    for i in range(5):
        t = [int(x) for x in lines[1 + i].split()]
        if len(t) != head[i]: raise Bad("table %d has %d entries, header says %d" % (i, len(t), head[i]))
        if any(not -(1 << 31) <= x < 1 << 31 for x in t): raise Bad("table %d has an entry outside 32 bits" % i)
        tabs.append(t)
    if head[5] < 3: raise Bad("global area of %d cells" % head[5])
    return head, tabs


class Image:
    def __init__(self, data):
        self.head, (self.mem, self.fn, self.id, self.rp, self.ty) = parse(data)
        self.n = len(self.mem)
        self.gmax = self.head[5]
        self.visited = 0
        self.edges = 0
        self.rets = {}

    def check(self):
        ends = {}
        for i, a in enumerate(self.fn):
            if i < 2: continue
            if not 4 <= a < self.n or self.mem[a] != 9463: raise Bad("function %d has no entry (%d)" % (i, a))
            md, end = self.mem[a + 1], self.mem[a + 2]
            if not a + 3 < end <= self.n: raise Bad("function %d ends at %d" % (i, end))
            if md < 3: raise Bad("function %d has a frame of %d cells" % (i, md))
            if self.mem[end - 1] != 9468: raise Bad("function %d does not end with a return" % i)
            ends[a] = (i, md, end)
        order = sorted(ends)
        for a, b in zip(order, order[1:]):
            if ends[a][2] > b: raise Bad("functions %d and %d overlap" % (ends[a][0], ends[b][0]))
        self.ends = ends
        # result sizes first, then everything
        for i, a in enumerate(self.fn):
            if i >= 2: self.rets[i] = self.result(a + 3, ends[a][2])
        self.procs = set()
        self.region(4, 4, self.n, None)
        for a in order: self.region(a + 3, a + 3, ends[a][2], ends[a][1])
        done = set()
        while self.procs - done:
            p = min(self.procs - done)
            done.add(p)
            self.region(p, p, self.n, None, True)
        if len(self.id) % 3: raise Bad("identifier table of %d cells" % len(self.id))
        for j in range(0, len(self.id), 3):
                r, t, d = self.id[j:j + 3]
                if not 0 <= r + 2 < len(self.rp): raise Bad("identifier entry %d names representation %d of %d" % (j, r, len(self.rp)))
                if t > 0 and t >= len(self.ty): raise Bad("identifier entry %d has type %d of %d" % (j, t, len(self.ty)))

    def result(self, pc, end):
        """Cells returned by a function: the operands of its reachable RETURN_VAL instructions."""
        seen, todo, res = set(), [pc], set()
        while todo:
            pc = todo.pop()
            if pc in seen: continue
            seen.add(pc)
            op = self.mem[pc]
            if op == 9467: res.add(self.mem[pc + 1])
            elif op == 9468: res.add(0)
            else: todo += [p for p in self.next(pc) if pc < end]
        res = res - {0} or {0}
        if len(res) > 1: raise Bad("a function returns %s cells" % sorted(res))
        return res.pop()

    def length(self, pc):
        op = self.mem[pc]
        if op in OPS: return 1 + OPS[op][0]
        n = {9454: 8, 9481: 2, 9477: 5, 9478: 3, 9461: 1, 9463: 3, 9465: 1, 9466: 2, 9467: 2, 9468: 1, 9469: 2, 9470: 2, 9471: 2, 9304: 3, 9305: 2, 9306: 3, 9307: 2, 9308: 4, -25: 2, -24: 2, -23: 2, -27: 2}.get(op)
        if n is None: raise Bad("unknown instruction %d at %d" % (op, pc))
        return n

    def next(self, pc):
        if not 0 <= pc < self.n: raise Bad("execution reaches %d outside the code" % pc)
        op = self.mem[pc]
        n = self.length(pc)
        if pc + n > self.n: raise Bad("instruction at %d is cut off" % pc)
        if op in (9461, 9467, 9468): return []
        if op == 9463: return [self.mem[pc + 2]]
        if op == 9469: return [self.mem[pc + 1]]
        if op in (9470, 9471): return [pc + 2, self.mem[pc + 1]]
        return [pc + n]

    def displ(self, pc, d, cells, md):
        if d < 0:
            if -d < 3 or -d + cells > self.gmax: raise Bad("instruction %d uses global cell %d of %d" % (pc, -d, self.gmax))
        elif md is None: raise Bad("instruction %d outside functions uses local cell %d" % (pc, d))
        elif d < 3 or d + cells > md: raise Bad("instruction %d uses local cell %d of a frame of %d" % (pc, d, md))

    def region(self, start, lo, hi, md, proc=False):
        """All paths from start; md is the frame size or None for code outside functions."""
        state = {}
        todo = [(start, 0, (), ())]
        mem = self.mem
        while todo:
            pc, h, pend, init = todo.pop()
            if not lo <= pc < hi: raise Bad("a jump leaves the function: %d is not in %d..%d" % (pc, lo, hi))
            if pc in state:
                if h is not None and state[pc][0] is not None and state[pc] != (h, pend, init): raise Bad("instruction %d is reached with stack %s and %s" % (pc, state[pc], (h, pend, init)))
                continue
            state[pc] = (h, pend, init)
            self.visited += 1
            op = mem[pc]
            nx = self.next(pc)
            self.edges += len(nx)
            arg = mem[pc + 1] if pc + 1 < self.n else None
            if op in OPS:
                n, a, b = OPS[op]
                if op in DISPL: self.displ(pc, arg, DISPL[op], md)
                if op == 9472 and arg < 1: raise Bad("element size %d at %d" % (arg, pc))
                if h is not None:
                    if h < a: raise Bad("instruction %d at %d pops %d of %d cells" % (op, pc, a, h))
                    h += b - a
                if op == 9455 and mem[pc + 2] == 9469 and arg == pc + 5 and mem[pc + 3] - arg < mem[arg - 1]:
                    raise Bad("literal data at %d has %d cells, its length is %d" % (arg, mem[pc + 3] - arg, mem[arg - 1]))
            elif op == 9454:
                N, d, disp, ip, usual, ini, inst = mem[pc + 1:pc + 8]
                cnt = N + (usual & 1) if ini else N
                if not inst: self.displ(pc, disp, 1, md)
                if ip:
                    if not 4 <= ip < self.n: raise Bad("initialiser code at %d" % ip)
                    self.procs.add(ip)
                if h is not None:
                    if h < cnt: raise Bad("DEFARR at %d pops %d of %d cells" % (pc, cnt, h))
                    h -= cnt
                if ini: init = init + (h,)
            elif op == 9481: h = None if h is None else h + 1
            elif op == 9477:
                self.displ(pc, mem[pc + 3], 1, md)
                if not init: raise Bad("ARR_INIT at %d without DEFARR" % pc)
                if h is not None and init[-1] is not None and h <= init[-1]: raise Bad("ARR_INIT at %d without data" % pc)
                h, init = init[-1], init[:-1]
            elif op == 9478:
                self.displ(pc, arg, 1, md)
                if not 4 <= mem[pc + 2] < self.n: raise Bad("initialiser code at %d" % mem[pc + 2])
                self.procs.add(mem[pc + 2])
            elif op == 9465:
                pend = pend + (h,)
                h = None if h is None else h + 3
            elif op == 9466:
                if not pend: raise Bad("CALL2 at %d without CALL1" % pc)
                base, pend = pend[-1], pend[:-1]
                if arg >= 0:
                    if not 2 <= arg < len(self.fn): raise Bad("call of function %d of %d at %d" % (arg, len(self.fn), pc))
                    fmd = mem[self.fn[arg] + 1]
                    if h is not None and base is not None and h - base > fmd: raise Bad("call at %d passes %d cells to a frame of %d" % (pc, h - base, fmd))
                    h = None if base is None else base + self.rets[arg]
                else:
                    self.displ(pc, -arg, 1, md)
                    h = None
            elif op == 9467:
                if h is not None and h < arg: raise Bad("return of %d of %d cells at %d" % (arg, h, pc))
                if md is None: raise Bad("return outside a function at %d" % pc)
            elif op in (9470, 9471):
                if h is not None:
                    if h < 1: raise Bad("branch at %d pops an empty stack" % pc)
                    h -= 1
            elif op == 9304:
                self.displ(pc, arg, mem[pc + 2], md)
                h = None if h is None else h + mem[pc + 2]
            elif op == 9306:
                self.displ(pc, arg, mem[pc + 2], md)
                if h is not None:
                    if h < mem[pc + 2]: raise Bad("copy at %d pops %d of %d cells" % (pc, mem[pc + 2], h))
                    h -= mem[pc + 2]
            elif op == 9305: h = None if h is None else h - 1 + arg
            elif op == 9307:
                if h is not None:
                    if h < arg + 1: raise Bad("copy at %d pops %d of %d cells" % (pc, arg + 1, h))
                    h -= arg + 1
            elif op == 9308:
                off, n, al = mem[pc + 1:pc + 4]
                if off < 0 or n < 1 or off + n > al: raise Bad("member %d+%d of %d cells at %d" % (off, n, al, pc))
                if h is not None:
                    if h < al: raise Bad("member at %d of %d cells" % (pc, h))
                    h += n - al
            elif op == -25:
                if h is not None:
                    if h < arg + 1: raise Bad("PRINTF at %d pops %d of %d cells" % (pc, arg + 1, h))
                    h -= arg + 1
            elif op == -24: h = None if h is None else h - (2 if arg == -3 else self.ty[arg + 1] if arg > 0 and self.ty[arg] == 1002 else 1)
            elif op in (-23, -27):
                if arg < -1 or (arg + 1) % 3 or arg + 4 > len(self.id): raise Bad("PRINTID at %d names entry %d of %d" % (pc, arg, len(self.id)))
            for p in nx: todo.append((p, h, pend, init))


def check(data):
    im = Image(data)
    im.check()
    return im.visited, im.edges, len(im.fn) - 2

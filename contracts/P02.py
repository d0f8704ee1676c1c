"""P02: copying a sub-region or an overlap between row-major buffers moves exactly the addressed bytes.

Every proof watches one arbitrary byte of the destination buffer: either it has coordinates (row witness and byte in
the row) inside the copied box and must receive the byte with the same coordinates, or it lies in no copied row and must
keep its value.  The byte is arbitrary, so this is the statement for all bytes."""
from vf.proof import *

F = 'src/utils/pdc_region_utils.c'
LIM = 2 ** 62


def mono(x, y, z):
    return z3.Implies(z3.And(x <= y, z >= 0), x * z <= y * z)


def memcpy_at(w):
    """memcpy seen at the watched cell only"""
    def ext(eng, st, args, ln):
        d, s, n = args[0], args[1], args[2].t
        m = eng.M(st, 'b')
        A = fresh('cpy_b', ROW)
        src, dst = sel(m, s.o), sel(m, d.o)
        st.assume(z3.Select(A, w) == z3.If(z3.And(d.off <= w, w < d.off + n), z3.Select(src, w - d.off + s.off), z3.Select(dst, w)))
        st.mem['b'] = z3.Store(m, d.o, A)
        eng.note_write('b', d.o)
        return [(st, d)]
    return ext


class Box:
    """row-major geometry: `n` copied extents, and for each side the full extents and the first copied coordinate"""

    def __init__(self, nd, unit, ext, full, first):
        self.nd, self.unit, self.ext, self.full, self.first = nd, unit, ext, full, first
        self.W = ext[-1] * unit

    def row(self, idx):
        """byte offset of copied row idx = (), (i,) or (i, j)"""
        if self.nd == 1:
            return self.first[0] * self.unit
        if self.nd == 2:
            return ((self.first[0] + idx[0]) * self.full[1] + self.first[1]) * self.unit
        return (((self.first[0] + idx[0]) * self.full[1] + self.first[1] + idx[1]) * self.full[2] + self.first[2]) * self.unit

    def strides(self):
        f, u = self.full, self.unit
        return {1: [], 2: [f[1] * u] if self.nd == 2 else None, 3: [f[1] * f[2] * u, f[2] * u] if self.nd == 3 else None}[self.nd]

    def total(self):
        return z3.Product(*self.full, self.unit) if self.nd > 1 else self.full[0] * self.unit

    def lemmas(self):
        """consequences of `first + ext <= full`, total < LIM"""
        f, u, e, p = self.full, self.unit, self.ext, self.first
        out = []
        prod = lambda xs: z3.Product(*xs) if len(xs) > 1 else xs[0]
        # partial products of the total stay below the total
        fs = list(f) + [u]
        n = len(fs)
        for a in range(n):
            for b in range(a, n):
                if (a, b) != (0, n - 1):
                    out.append(prod(fs[a:b + 1]) <= prod(fs))
        for d in range(self.nd):
            z = prod(fs[d + 1:])
            out.append((p[d] + e[d]) * z <= f[d] * z)
            out.append(e[d] * z <= f[d] * z)
            out.append(e[d] * z >= 0)
            out.append(p[d] * z >= 0)
        return out


def setup(name, opts, nd, arrs):
    c = Ctx(name, F, server_flags(), opts=dict(opts, wrap_mul='check', htmo=9.0, hslow=True))
    unit = c.int('unit')
    ps = {}
    for n in arrs:
        ps[n] = c.obj(n, 8 * nd)
    vals = {n: [z3.Select(c.row(c.st, 'u64', ps[n].o), d) for d in range(nd)] for n in arrs}
    # the geometry arrays hold constants
    for n in arrs:
        for d in range(nd):
            x = z3.Int('%s_%d' % (n, d))
            c.inputs.append(x)
            c.assume(vals[n][d] == x, x >= 0)
            vals[n][d] = x
    c.assume(unit.t >= 1)
    return c, unit, ps, vals


def finish(c, fn, nd, args, dst, dbox, sbox, src, w, inside):
    """run fn and state what the watched byte w of dst holds"""
    st0 = c.st.copy()
    g = lambda s, o, i: z3.Select(c.row(s, 'b', o), i)
    s0 = c.row(st0, 'b', src.o)
    e = dbox.ext
    nidx = nd - 1
    wit = [z3.Int('wit%d' % d) for d in range(nidx)]
    t = z3.Int('t')
    inr = lambda idx: z3.And(*[z3.And(0 <= x, x < e[d]) for d, x in enumerate(idx)])
    R = uf('rowstart', nidx) if nidx else None
    if inside:
        c.assume(inr(wit) if nidx else z3.BoolVal(True), 0 <= t, t < dbox.W, w == dbox.row(wit) + t)
    else:
        qs = [z3.Int('q%d' % d) for d in range(nidx)]
        body = z3.Or(w < dbox.row(qs), w >= dbox.row(qs) + dbox.W)
        if nidx:
            c.assume(qall(qs, R(*qs) == dbox.row(qs), R(*qs)))
            c.assume(qall(qs, z3.Implies(inr(qs), z3.Or(w < R(*qs), w >= R(*qs) + dbox.W)), R(*qs)))
        else:
            c.assume(body)
    want = z3.Select(s0, sbox.row(wit) + t) if inside else g(st0, dst.o, w)
    old = g(st0, dst.o, w)

    def taut(idx):
        """tautologies about row positions, instantiated at the loop counters"""
        out = []
        for bx in (dbox, sbox):
            f, u, p = bx.full, bx.unit, bx.first
            fs = list(f) + [u]
            prod = lambda xs: z3.Product(*xs) if len(xs) > 1 else xs[0]
            for d, x in enumerate(idx):
                z = prod(fs[d + 1:])
                for hi in range(d + 1, len(fs)):
                    zz = prod(fs[d + 1:hi + 1])
                    out.append(z3.Implies(z3.And(0 <= x, x < e[d]), z3.And(x * zz >= 0, (p[d] + x + 1) * zz <= f[d] * zz)))
                if inside and bx is dbox:
                    out.append(mono(x + 1, wit[d], z))
                    out.append(mono(wit[d] + 1, x, z))
            for d in range(1, nd):
                z = prod(fs[d + 1:])
                if inside and d < nidx and bx is dbox:
                    out.append(z3.Implies(z3.And(0 <= wit[d], wit[d] < e[d]), (p[d] + wit[d] + 1) * z <= f[d] * z))
        if inside and len(idx) == nidx:
            ok = z3.And(inr(idx), inr(wit))
            same = z3.And(*[a == b for a, b in zip(idx, wit)])
            out.append(z3.Implies(z3.And(ok, lexlt(idx, wit)), dbox.row(idx) + dbox.W <= dbox.row(wit)))
            out.append(z3.Implies(z3.And(ok, lexlt(wit, idx)), dbox.row(wit) + dbox.W <= dbox.row(idx)))
            out.append(z3.Implies(same, dbox.row(idx) == dbox.row(wit)))
            out.append(z3.Implies(same, sbox.row(idx) == sbox.row(wit)))
        return out

    def lexlt(a, b):
        """row a strictly before the counters b (missing inner counters are 0)"""
        return z3.Or(*[z3.And(*[a[x] == b[x] for x in range(d)], a[d] < b[d]) for d in range(len(b))])

    def gen(L):
        depth = L.depth

        def counters(s, it):
            return [s.ghost[('cur', d)] for d in range(depth)] + [it]
        lst = []
        if depth >= nidx:
            return lst

        def tt(n):
            def f(s, it):
                return taut(counters(s, it))[n]
            return f
        for n in range(len(taut([z3.IntVal(0)] * (depth + 1)))):
            lst.append(('row arithmetic %d' % n, tt(n)))
        lst.append(('geometry unchanged', lambda s, it: z3.Select(c.eng.M(s, 'b'), src.o) == s0))

        def done(s, it):
            cs = counters(s, it)
            if inside:
                return g(s, dst.o, w) == z3.If(lexlt(wit, cs), want, old)
            return g(s, dst.o, w) == old
        lst.append(('rows before the counter are copied, the rest is untouched', done))
        if not inside and depth == nidx - 1:
            lst.append(('row address', lambda s, it: R(*counters(s, it)) == dbox.row(counters(s, it))))
        for nm, vid, ty in L.vars(PTR, mod=True):
            v = L.entry.env[vid]
            if isinstance(v, PV):
                def po(s, it, vid=vid, v=v):
                    cs = counters(s, it)
                    W = e[-1] * dbox.unit
                    for d in range(depth + 1, nidx):
                        W = W * e[d]
                    return z3.And(s.env[vid].o == v.o, s.env[vid].off == v.off + it * W)
                lst.append(('%s advances one row per turn' % nm, po))

                def p2(s, it, vid=vid, v=v):
                    cs = counters(s, it)
                    r = cs[0]
                    for d in range(1, len(cs)):
                        r = r * e[d] + cs[d]
                    for d in range(len(cs), nidx):
                        r = r * e[d]
                    return z3.And(s.env[vid].o == v.o, s.env[vid].off == r * dbox.W)
                lst.append(('%s is at the row of the counters' % nm, p2))
        return lst
    c.eng.loopgen.append(gen)
    c.eng.externs['memcpy'] = memcpy_at(w)
    for st, r in c.run(fn, *args):
        c.post(st, 'the watched byte holds the source byte of the same coordinates' if inside else 'a byte outside the copied box keeps its value',
               g(st, dst.o, w) == want)
        c.frame(st0, st, [dst.o])
    return c


def sub(nd, write, inside):
    def proof(opts):
        c, unit, ps, v = setup('memcpy_subregion', opts, nd, ['size', 'sub_offset', 'sub_size'])
        big = Box(nd, unit.t, v['sub_size'], v['size'], v['sub_offset'])
        small = Box(nd, unit.t, v['sub_size'], v['sub_size'], [z3.IntVal(0)] * nd)
        for d in range(nd):
            c.assume(v['sub_size'][d] >= 1, v['sub_offset'][d] + v['sub_size'][d] <= v['size'][d])
        c.assume(big.total() < LIM)
        for f in big.lemmas() + small.lemmas() + [small.total() <= big.total()]:
            c.lemma('size arithmetic', f)
        buf, sb = c.obj('buf', big.total()), c.obj('sub_buf', small.total())
        c.distinct(buf, sb, *ps.values())
        w = z3.Int('w')
        dst, src, db, sx = (sb, buf, small, big) if write else (buf, sb, big, small)
        c.assume(0 <= w, w < db.total())
        acc = c.unit.enums['PDC_WRITE' if write else 'PDC_READ']
        return finish(c, 'memcpy_subregion', nd, [IV(nd), unit, IV(acc), buf, ps['size'], sb, ps['sub_offset'], ps['sub_size']], dst, db, sx, src, w, inside)
    return proof


def over(nd, inside):
    def proof(opts):
        c, unit, ps, v = setup('memcpy_overlap_subregion', opts, nd, ['offset', 'size', 'offset2', 'size2', 'overlap_offset', 'overlap_size'])
        f1, f2 = [], []
        for d in range(nd):
            oo, os_ = v['overlap_offset'][d], v['overlap_size'][d]
            c.assume(os_ >= 1)
            for o, s, fl in ((v['offset'][d], v['size'][d], f1), (v['offset2'][d], v['size2'][d], f2)):
                c.assume(o <= oo, oo + os_ <= o + s, o + s < LIM)
                x = z3.Int('first%d_%d' % (1 if fl is f1 else 2, d))
                c.assume(x == oo - o)
                fl.append(x)
        b1 = Box(nd, unit.t, v['overlap_size'], v['size'], f1)
        b2 = Box(nd, unit.t, v['overlap_size'], v['size2'], f2)
        c.assume(b1.total() < LIM, b2.total() < LIM)
        for f in b1.lemmas() + b2.lemmas():
            c.lemma('size arithmetic', f)
        p1, p2 = c.obj('buf', b1.total()), c.obj('buf2', b2.total())
        c.distinct(p1, p2, *ps.values())
        w = z3.Int('w')
        c.assume(0 <= w, w < b2.total())
        return finish(c, 'memcpy_overlap_subregion', nd, [IV(nd), unit, p1, ps['offset'], ps['size'], p2, ps['offset2'], ps['size2'], ps['overlap_offset'], ps['overlap_size']],
                      p2, b2, b1, p1, w, inside)
    return proof


PROOFS = []
for _n in (3, 2, 1):
    for _i in (True, False):
        for _w in (True, False):
            if _w and not _i:
                continue  # a gather fills the whole sub-buffer: there are no other bytes
            PROOFS.append(('memcpy_subregion %dD %s, %s' % (_n, 'gather' if _w else 'scatter', 'copied bytes' if _i else 'other bytes'), sub(_n, _w, _i)))
        PROOFS.append(('memcpy_overlap_subregion %dD, %s' % (_n, 'copied bytes' if _i else 'other bytes'), over(_n, _i)))
NATIVE = dict(src='native/p02_copy.c', repo=[F], server=True, time=8)
RULE = 'random 1-3 dimensional boxes, offsets, element sizes and directions; every byte of both buffers compared with an element-by-element oracle'
ASSUMPTIONS = ['the copied box lies inside both regions, extents are at least 1, each buffer is smaller than 2^62 bytes, source and destination do not overlap',
               'source and destination buffers have exactly the size of their regions (larger buffers only weaken the obligations)']

"""P01: region overlap is exact interval intersection."""
from vf.proof import *

F = 'src/utils/pdc_region_utils.c'
k = z3.Int('k?')


def boxes(c, nd, names, pos=True):
    ps = [c.obj(n, 8 * nd) for n in names]
    st0 = c.st
    for p, q in zip(ps[::2], ps[1::2]):
        a, b = z3.Select(c.row(st0, 'u64', p.o), k), z3.Select(c.row(st0, 'u64', q.o), k)
        c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < nd), z3.And(a >= 0, b >= (1 if pos else 0), a + b < 2 ** 64)), a),
                 qall([k], z3.Implies(z3.And(0 <= k, k < nd), z3.And(a >= 0, b >= (1 if pos else 0), a + b < 2 ** 64)), b))
    return ps


def start(name, opts, pos=True, **o):
    c = Ctx(name, F, server_flags(), opts=dict(opts, **o))
    nd = c.int('ndim', 'int')
    c.assume(nd.t >= 1, nd.t < 2 ** 27)
    ps = boxes(c, nd.t, ['o1', 's1', 'o2', 's2'], pos)
    st0 = c.st.copy()
    A = lambda p, i: z3.Select(c.row(st0, 'u64', p.o), i)
    return c, nd, ps, st0, A


def inter(A, o1, s1, o2, s2):
    """some point lies in both boxes, coordinate i"""
    return lambda i: z3.And(A(o1, i) < A(o2, i) + A(s2, i), A(o2, i) < A(o1, i) + A(s1, i))


def allk(nd, f, A, p):
    return qall([k], z3.Implies(z3.And(0 <= k, k < nd), f(k)), A(p, k))


def gens(c, A, p, f, label):
    c.eng.loopgen.append(lambda L: [(label, lambda s, it: allk(it, f, A, p))])


def overlap(opts):
    c, nd, (o1, s1, o2, s2), st0, A = start('check_overlap', opts)
    f = inter(A, o1, s1, o2, s2)
    gens(c, A, o1, f, 'every coordinate seen so far intersects')
    for st, r in c.run('check_overlap', IV(nd.t), o1, s1, o2, s2):
        w = fresh('w')
        c.post(st, 'result is 0 or 1', z3.Or(r.t == 0, r.t == 1))
        c.post(st, '1 only when the boxes share a point', z3.Implies(r.t == 1, z3.Implies(z3.And(0 <= w, w < nd.t), f(w))))
        c.post(st, '0 only when some coordinate is disjoint', z3.Implies(r.t == 0, z3.Not(allk(nd.t, f, A, o1))))
        c.frame(st0, st, [])
    return c


def detect(opts):
    c, nd, (o1, s1, o2, s2), st0, A = start('PDC_region_overlap_detect', opts, interior=True)
    oo, os_ = c.obj('out_offset', 8), c.obj('out_size', 8)
    c.distinct(o1, s1, o2, s2, oo, os_)
    st0 = c.st.copy()
    f = inter(A, o1, s1, o2, s2)
    lo = lambda i: z3.If(A(o1, i) < A(o2, i), A(o2, i), A(o1, i))
    e1, e2 = (lambda i: A(o1, i) + A(s1, i)), (lambda i: A(o2, i) + A(s2, i))
    hi = lambda i: z3.If(e1(i) < e2(i), e1(i), e2(i))
    gens(c, A, o1, f, 'every coordinate seen so far intersects')

    def out(s):
        return (z3.Select(c.row(s, 'p', oo.o), 0), z3.Select(c.row(s, 'po', oo.o), 0), z3.Select(c.row(s, 'p', os_.o), 0),
                z3.Select(c.row(s, 'po', os_.o), 0))

    def gen(L):
        E = L.entry
        po, pf, so, sf = out(E)
        lst = []
        lst.append(('offset out pointer fixed', lambda s, it: z3.And(out(s)[0] == po, out(s)[1] == pf)))
        lst.append(('size out pointer fixed', lambda s, it: z3.And(out(s)[2] == so, out(s)[3] == sf)))
        row = lambda s: c.row(s, 'u64', po)
        lst.append(('low corner of the first it coordinates', lambda s, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), z3.Select(row(s), k) == lo(k)), z3.Select(row(s), k))))
        lst.append(('extent of the first it coordinates', lambda s, it: qall([k], z3.Implies(z3.And(nd.t <= k, k < nd.t + it), z3.Select(row(s), k) == hi(k - nd.t) - lo(k - nd.t)), z3.Select(row(s), k))))
        return lst
    c.eng.loopgen.append(gen)
    for st, r in c.run('PDC_region_overlap_detect', IV(nd.t), o1, s1, o2, s2, oo, os_):
        w = fresh('w')
        inw = z3.And(0 <= w, w < nd.t)
        po, pf, so, sf = out(st)
        c.post(st, 'no box is reported only when some coordinate is disjoint', z3.Implies(po == 0, z3.And(so == 0, z3.Not(allk(nd.t, f, A, o1)))))
        c.post(st, 'a box is reported only when the regions share a point', z3.Implies(po != 0, z3.Implies(inw, f(w))))
        idx = lambda base, i: simp(base) if False else base
        rd = lambda o, off, i: z3.Select(c.row(st, 'u64', o), divexact(simp(off + 8 * i), 8))
        c.post(st, 'reported arrays are live and hold ndim entries each', z3.Implies(po != 0, z3.And(
            z3.Select(st.alive, po), z3.Select(st.alive, so), pf >= 0, sf >= 0, pf + 8 * nd.t <= z3.Select(st.osize, po), sf + 8 * nd.t <= z3.Select(st.osize, so),
            z3.Not(z3.Select(st0.alive, po)))))
        c.post(st, 'reported offset is the larger of the two offsets', z3.Implies(z3.And(po != 0, inw), rd(po, pf, w) == lo(w)))
        c.post(st, 'reported size reaches the smaller of the two ends', z3.Implies(z3.And(po != 0, inw), rd(so, sf, w) == hi(w) - lo(w)))
        c.frame(st0, st, [oo.o, os_.o])
    return c


def contained(opts):
    c, nd, (o1, s1, o2, s2), st0, A = start('detect_region_contained', opts, pos=False)
    f = lambda i: z3.And(A(o2, i) <= A(o1, i), A(o1, i) + A(s1, i) <= A(o2, i) + A(s2, i))
    gens(c, A, o1, f, 'every coordinate seen so far is inside')
    for st, r in c.run('detect_region_contained', o1, s1, o2, s2, IV(nd.t)):
        w = fresh('w')
        c.post(st, 'result is 0 or 1', z3.Or(r.t == 0, r.t == 1))
        c.post(st, '1 only when every point of the first box is in the second', z3.Implies(r.t == 1, z3.Implies(z3.And(0 <= w, w < nd.t), f(w))))
        c.post(st, '0 only when some coordinate sticks out', z3.Implies(r.t == 0, z3.Not(allk(nd.t, f, A, o1))))
        c.frame(st0, st, [])
    return c


PROOFS = [('check_overlap', overlap), ('PDC_region_overlap_detect', detect), ('detect_region_contained', contained)]
NATIVE = dict(src='native/p01_overlap.c', repo=[F], server=True, time=6)
RULE = 'pairs of boxes with 1 to 3 dimensions: every small box exhaustively and random 64-bit boxes, against a per-coordinate interval oracle'
ASSUMPTIONS = ['offset + size of a region does not exceed 2^64 - 1 in any dimension and sizes are at least 1 (empty regions are not regions)',
               'malloc succeeds in PDC_region_overlap_detect (the code has no failure path)']

"""Region layout of the server storage (PDC_Server_data_write_out / PDC_Server_data_read_from, pdc_server_data.c).

The stored regions form a sequence node(0..n-1); what is known of a node is the instance of the invariant at that index.  A write is
watched at an arbitrary byte of the file, a read at an arbitrary byte of the buffer; `x` are the coordinates of the element the
byte belongs to (for a write: its coordinates in the stored region under the loop, a function of the index)."""
from vf.proof import *
from vf.cast import REPO, server_flags
from vf import rpc
D = 'src/server/pdc_server_region/pdc_server_data.c'
EX = rpc.FLAGS + server_flags()
LIM = 2 ** 62
RL, DS, RI = 'region_list_t', 'data_server_region_t', 'struct pdc_region_info'
zero = z3.IntVal(0)


def lin(full, x, u):
    r = x[0]
    for d in range(1, len(full)):
        r = r * full[d] + x[d]
    return r * u


def prod(xs):
    return z3.Product(*xs) if len(xs) > 1 else xs[0]


def inbox(x, lo, n):
    return z3.And(*[z3.And(l <= a, a < l + m) for a, l, m in zip(x, lo, n)])


def lexlt(a, b):
    return z3.Or(*[z3.And(*[a[i] == b[i] for i in range(d)], a[d] < b[d]) for d in range(len(b))])


class Store:
    def __init__(self, fn, nd, wr, opts):
        self.nd, self.wr = nd, wr
        c = self.c = Ctx(fn, D, extra=EX, opts=dict(opts, wrap_mul='check', htmo=9.0, hslow=True, effort=150000, max_paths=4000, auto=lambda nm: nm == 'ret_value = init' or nm.startswith('cond-bound')))
        self.off, self.size = c.obj('offset', 8 * nd), c.obj('size', 8 * nd)
        self.ri = c.struct('region_info', RI)
        self.region = c.struct('region', DS)
        self.FILE, self.OV, self.OVS, self.TMP = (z3.Int(n) for n in ('FILE', 'ovl_off', 'ovl_size', 'TMP'))
        live = lambda o: z3.And(o > 0, z3.Select(c.st.alive, o))
        c.assume(*[live(o) for o in (self.FILE, self.OV, self.OVS, self.TMP)])
        c.assume(*[z3.Select(c.st.osize, o) == 8 * nd for o in (self.OV, self.OVS)])
        self.u = c.int('unit').t
        self.p, self.e = [z3.Int('offset_%d' % d) for d in range(nd)], [z3.Int('size_%d' % d) for d in range(nd)]
        c.inputs += self.p + self.e
        self.W = prod(self.e + [self.u])
        self.buf = c.obj('buf', self.W)
        c.apart(self.buf, self.off, self.size, self.ri, self.region, *[PV(o, 0) for o in (self.FILE, self.OV, self.OVS, self.TMP)], family=['node'])
        self.n, self.fsz0, self.fd = z3.Int('n_regions'), z3.Int('file_size'), z3.Int('fd')
        c.assume(self.n >= 0, self.fsz0 >= 0, self.fsz0 < LIM, self.u >= 1, self.u < LIM, self.W < LIM, self.fd >= 0, self.fd < 2 ** 31)
        c.assume(*[z3.And(a >= 0, b >= 1, a + b < LIM) for a, b in zip(self.p, self.e)])
        for ptr, xs in ((self.off, self.p), (self.size, self.e)):
            self.setrow(c.st, 'u64', ptr.o, {d: x for d, x in enumerate(xs)})
        self.node = lambda k: uf('node', 1)(k if not isinstance(k, int) else z3.IntVal(k))
        F = lambda rec, f: c.unit.field(rec, f)[0]
        self.setrow(c.st, 'u64', self.ri.o, {F(RI, 'ndim') // 8: z3.IntVal(nd)})
        self.setrow(c.st, 'p', self.ri.o, {F(RI, 'offset') // 8: self.off.o, F(RI, 'size') // 8: self.size.o})
        self.setrow(c.st, 'p', self.region.o, {F(DS, 'region_storage_head') // 8: self.node(0)})
        c.assume(self.node(self.n) == 0, self.cur(c.st) >= 0, self.fsz(c.st) == self.fsz0)
        self.sieve = z3.Int('glob_data_sieving_g')
        self.st0 = c.st.copy()
        self.t = z3.Int('t')
        e = c.eng
        c.assume(z3.Or(self.node(0) == 0, self.n > 0))
        c.assume(*self.facts(z3.IntVal(0)), *self.facts(self.n - 1), z3.Implies(self.n > 0, self.F(c.st, 0, 'prev') == self.node(self.n - 1)))
        e.contracts.update(PDC_Server_get_obj_region=self.get, PDC_Server_register_obj_region_by_pointer=self.register,
                           PDC_Server_unregister_obj_region_by_pointer=self.unregister, PDC_region_overlap_detect=self.detect,
                           detect_region_contained=self.contained, memcpy_overlap_subregion=self.overlap_copy, PDC_Server_posix_write=self.write)
        e.externs.update(lseek=self.lseek, pread=self.pread, malloc=self.malloc, free=self.free, strcpy=self.strcpy)
        e.instances.append(self.inst)
        e.loopgen.append(self.gen)

    def setrow(self, st, cl, o, d):
        row = sel(self.c.eng.M(st, cl), o)
        for k, v in d.items():
            row = z3.Store(row, k, v)
        st.mem[cl] = z3.Store(self.c.eng.M(st, cl), o, row)

    # ghost cells of the file: cursor and size
    def gh(self, st, i):
        return z3.Select(sel(self.c.eng.M(st, 'gh'), self.FILE), i)

    cur = lambda self, st: self.gh(st, 0)
    fsz = lambda self, st: self.gh(st, 1)

    def setgh(self, st, i, v):
        row = sel(self.c.eng.M(st, 'gh'), self.FILE)
        st.mem['gh'] = z3.Store(self.c.eng.M(st, 'gh'), self.FILE, z3.Store(row, i, v))
        self.c.eng.note_write('gh', self.FILE)

    def B(self, st, o):
        return sel(self.c.eng.M(st, 'b'), o)

    def F(self, st, k, f, d=0):
        off, t = self.c.unit.field(RL, f)
        cl = 'p' if f in ('next', 'prev') else 'u64'
        return sel(sel(self.c.eng.M(st, cl), self.node(k)), off // 8 + d)

    def box(self, k):
        nd, st = self.nd, self.st0
        return [self.F(st, k, 'start', d) for d in range(nd)], [self.F(st, k, 'count', d) for d in range(nd)], self.F(st, k, 'offset'), self.F(st, k, 'data_size')

    def Wk(self, k):
        return prod(self.box(k)[1] + [self.u])

    def facts(self, k):
        """the invariant of the list of stored regions, at index k"""
        s, n, off, dsz = self.box(k)
        W = prod(n + [self.u])
        live = z3.And(self.node(k) > 0, z3.Select(self.st0.alive, self.node(k)), z3.Select(self.st0.osize, self.node(k)) == self.c.sizeof(RL))
        return [z3.Implies(z3.And(0 <= k, k < self.n), z3.And(live, *[z3.And(a >= 0, b >= 1, a + b < LIM) for a, b in zip(s, n)], dsz == W, W < LIM, off >= 0, off + dsz <= self.fsz0,
                                                            self.F(self.st0, k, 'next') == self.node(k + 1)))]

    # callees
    def get(self, eng, st, a, ln):
        r = fresh('found')
        st.assume(z3.Or(r == self.region.o, z3.And(r == 0, self.n == 0)))
        return [(st, PV(r, 0))]

    def register(self, eng, st, a, ln):
        off, t = self.c.unit.field(DS, 'fd')
        eng.store(st, a[0].o, a[0].off, (PTR, None), PV(self.region.o, 0), check=False)
        self.setrow(st, self.c.eng.cls(t)[0], self.region.o, {off // 4: self.fd})
        return [(st, IV(0))]

    def unregister(self, eng, st, a, ln):
        eng.oblige(st, 'unregister: the object\'s region list', 'pre', a[0].o == self.region.o, ln)
        return [(st, IV(0))]

    def arr(self, st, p, n=None):
        return [z3.simplify(sel(sel(self.c.eng.M(st, 'u64'), p.o), divexact(simp(p.off + 8 * d), 8))) for d in range(n or self.nd)]

    def detect(self, eng, st, a, ln):
        eng.oblige(st, 'overlap: the number of dimensions', 'pre', a[0].t == self.nd, ln)
        o1, s1, o2, s2 = (self.arr(st, q) for q in a[1:5])
        eng.oblige(st, 'overlap: boxes', 'pre', z3.And(*[z3.And(x + y < 2 ** 64, y >= 1) for x, y in zip(o1 + o2, s1 + s2)]), ln)
        o, z = [fresh('ov_off') for _ in o1], [fresh('ov_size') for _ in o1]
        meet = z3.And(*[z3.And(x < y + m, y < x + n) for x, n, y, m in zip(o1, s1, o2, s2)])
        out = []
        for yes in (True, False):
            s = st.copy()
            s.trace = list(st.trace) + ['overlap:%s' % ('+' if yes else '-')]
            s.assume(meet if yes else z3.Not(meet))
            if yes:
                for d in range(self.nd):
                    s.assume(z3.Or(o[d] == o1[d], o[d] == o2[d]), o[d] >= o1[d], o[d] >= o2[d], z[d] >= 1,
                             z3.Or(o[d] + z[d] == o1[d] + s1[d], o[d] + z[d] == o2[d] + s2[d]), o[d] + z[d] <= o1[d] + s1[d], o[d] + z[d] <= o2[d] + s2[d])
                for q, vs in ((self.OV, o), (self.OVS, z)):
                    row = fresh('ovrow', ROW)
                    for d, v in enumerate(vs):
                        row = z3.Store(row, d, v)
                    s.mem['u64'] = z3.Store(eng.M(s, 'u64'), q, row)
                    eng.note_write('u64', q)
                s.ghost['ov'], s.ghost['live'] = (o, z), True
                s.ghost['base'] = self.B(s, self.dst)
            for q, v in ((a[5], self.OV), (a[6], self.OVS)):
                eng.store(s, q.o, q.off, (PTR, None), PV(v if yes else zero, 0), check=False)
            if eng.feasible(s, z3.BoolVal(True)):
                out.append((s, None))
        return out

    def contained(self, eng, st, a, ln):
        eng.oblige(st, 'containment: the number of dimensions', 'pre', a[4].t == self.nd, ln)
        o1, s1, o2, s2 = (self.arr(st, q) for q in a[:4])
        r = fresh('contained')
        st.assume(z3.Or(r == 0, r == 1), (r == 1) == z3.And(*[z3.And(y <= x, x + n <= y + m) for x, n, y, m in zip(o1, s1, o2, s2)]))
        return [(st, IV(r))]

    def inside(self, st, what, p, n, ln):
        if p.o.eq(self.TMP):
            size = st.ghost.get('tmp', z3.IntVal(-1))
            self.c.eng.oblige(st, what + ': bytes of the temporary buffer', 'mem', z3.And(p.off >= 0, n >= 0, p.off + n <= size), ln)
        else:
            self.c.eng.oblige(st, what + ': bytes of the data buffer', 'mem', z3.And(p.o == self.buf.o, p.off >= 0, n >= 0, p.off + n <= self.W), ln)

    def overlap_copy(self, eng, st, a, ln):
        nd, u = self.nd, self.u
        src, dst = a[2], a[5]
        ss, sn, ds, dn, oo, on = (self.arr(st, a[i]) for i in (3, 4, 6, 7, 8, 9))
        eng.oblige(st, 'overlap copy: dimensions and element size', 'pre', z3.And(a[0].t == nd, a[1].t == u), ln)
        for d in range(nd):
            eng.oblige(st, 'overlap copy: the overlap lies in both boxes', 'pre',
                       z3.And(ss[d] <= oo[d], oo[d] + on[d] <= ss[d] + sn[d], ds[d] <= oo[d], oo[d] + on[d] <= ds[d] + dn[d], on[d] >= 1), ln)
        self.inside(st, 'overlap copy, source', src, prod(sn + [u]), ln)
        self.inside(st, 'overlap copy, target', dst, prod(dn + [u]), ln)
        A, S, Dd = fresh('ovc_b', ROW), self.B(st, src.o), self.B(st, dst.o)
        x = self.x(st)
        pos = lambda q, s, n: q.off + lin(n, [a_ - b for a_, b in zip(x, s)], u) + self.t
        st.assume(z3.Implies(z3.And(inbox(x, ds, dn), 0 <= self.t, self.t < u),
                             z3.Select(A, pos(dst, ds, dn)) == z3.If(inbox(x, oo, on), z3.Select(S, pos(src, ss, sn)), z3.Select(Dd, pos(dst, ds, dn)))))
        st.mem['b'] = z3.Store(eng.M(st, 'b'), dst.o, A)
        eng.note_write('b', dst.o)
        return [(st, None)]

    def copy(self, st, do, doff, so, soff, n, ats):
        m = self.c.eng.M(st, 'b')
        A = fresh('cpy_b', ROW)
        src, dst = self.B(st, so), self.B(st, do)
        for w in ats:
            st.assume(z3.Select(A, w) == z3.If(z3.And(doff <= w, w < doff + n), z3.Select(src, w - doff + soff), z3.Select(dst, w)))
        st.mem['b'] = z3.Store(m, do, A)
        self.c.eng.note_write('b', do)

    def theirs(self, st, what, fd, ln):
        self.c.eng.oblige(st, what + ': the object\'s file', 'pre', fd.t == self.fd, ln)

    def lseek(self, eng, st, a, ln):
        self.theirs(st, 'lseek', a[0], ln)
        eng.oblige(st, 'lseek: to a position or to the end', 'pre', z3.Or(z3.And(a[2].t == 0, a[1].t >= 0), z3.And(a[2].t == 2, a[1].t == 0)), ln)
        v = z3.If(a[2].t == 0, a[1].t, self.fsz(st)) if not z3.is_int_value(a[2].t) else (a[1].t if a[2].t.as_long() == 0 else self.fsz(st))
        self.setgh(st, 0, v)
        return [(st, IV(v))]

    def write(self, eng, st, a, ln):
        self.theirs(st, 'write', a[0], ln)
        n = a[2].t
        self.inside(st, 'write', a[1], n, ln)
        p = self.cur(st)
        if not self.wr:
            eng.oblige(st, 'a read does not write', 'pre', z3.BoolVal(False), ln)
        self.copy(st, self.FILE, p, a[1].o, a[1].off, n, self.fw(st))
        self.setgh(st, 0, p + n)
        f = fresh('fsize')
        st.assume(f >= self.fsz(st), f >= p + n, z3.Or(f == self.fsz(st), f == p + n))
        self.setgh(st, 1, f)
        return [(st, IV(0))]

    def pread(self, eng, st, a, ln):
        self.theirs(st, 'pread', a[0], ln)
        n, q = a[2].t, a[3].t
        self.inside(st, 'pread', a[1], n, ln)
        eng.oblige(st, 'pread: inside the file', 'pre', z3.And(q >= 0, n >= 0, q + n <= self.fsz(st)), ln)
        ats = [a[1].off + f - q for f in self.fw(st)]
        if a[1].o.eq(self.buf.o) and not self.wr:
            ats.append(self.w)
        self.copy(st, a[1].o, a[1].off, self.FILE, q, n, ats)
        return [(st, IV(n))]

    def malloc(self, eng, st, a, ln):
        st.ghost['tmp'] = a[0].t
        st.mem['b'] = z3.Store(eng.M(st, 'b'), self.TMP, fresh('new_b', ROW))
        eng.note_write('b', self.TMP)
        return [(st, PV(self.TMP, 0))]

    def free(self, eng, st, a, ln):
        o = a[0].o
        if o.eq(self.TMP):
            eng.oblige(st, 'free: the temporary buffer, once', 'mem', z3.BoolVal(st.ghost.get('tmp') is not None), ln)
            st.ghost.pop('tmp', None)
        elif o.eq(self.OV):
            eng.oblige(st, 'free: the overlap, once', 'mem', z3.BoolVal(bool(st.ghost.get('live'))), ln)
            st.ghost['live'] = False
        else:
            return eng.b_free(st, a, ln, None)
        return [(st, None)]

    def strcpy(self, eng, st, a, ln):
        st.mem['b'] = z3.Store(eng.M(st, 'b'), a[0].o, fresh('str_b', ROW))
        eng.note_write('b', a[0].o)
        return [(st, a[0])]

    def inst(self, L, st, it):
        if L.depth == 0:
            return self.facts(it) + self.step(it)
        return []

    def gen(self, L):
        if L.depth == 0:
            return self.outer(L)
        if ('ov' not in L.entry.ghost) or L.depth > self.nd:
            return []
        return self.inner(L)

    def outer(self, L):
        lst = []
        for nm, vid, ty in L.vars(PTR, mod=True):
            def g(s, it, vid=vid):
                return z3.And(s.env[vid].o == self.node(it), s.env[vid].off == 0)

            def sub(s, it, vid=vid):
                s.env[vid] = PV(self.node(it), 0)
            g.subst = sub
            lst.append(('%s is the current region' % nm, g))
        lst.append(('the walk stays in the list', lambda s, it: it <= self.n))
        lst.append(('the byte watched holds what the regions seen so far say', lambda s, it: z3.Select(self.B(s, self.dst), self.w) == uf('val', 1)(it)))
        lst.append(('the file keeps its size', lambda s, it: self.fsz(s) == self.fsz0))
        for nm, vid, ty in L.vars(INT, mod=True):
            lst.append(('%s is 0 or 1' % nm, lambda s, it, vid=vid: z3.Or(s.env[vid].t == 0, s.env[vid].t == 1)))
            lst.append(('%s says that the request is contained' % nm, lambda s, it, vid=vid: z3.Implies(s.env[vid].t != 0, uf('cov', 1)(it) == 1)))
        return lst

    def inner(self, L):
        depth = L.depth
        o, z = L.entry.ghost['ov']
        base = L.entry.ghost['base']

        def cs(s, it):
            return [s.ghost[('cur', d)] for d in range(1, depth)] + [it]

        def rows(s, it):
            x = self.x(s)
            r = [a - b for a, b in zip(x, o)]
            k = s.ghost[('cur', 0)]
            return z3.Select(self.B(s, self.dst), self.w) == z3.If(z3.And(self.hit(k), inbox(x, o, z), lexlt(r, cs(s, it))), self.new(k), z3.Select(base, self.w))
        lst = []
        for nm, vid, ty in L.vars(INT, mod=True):
            def g(s, it, vid=vid):
                return s.env[vid].t == it

            def sub(s, it, vid=vid):
                s.env[vid] = IV(it)
            g.subst = sub
            if nm != 'ret_value' and z3.simplify(L.entry.env[vid].t).eq(zero):
                lst.append(('%s counts' % nm, g))
        return lst + [('rows before the counter are copied, the rest is untouched', rows), ('the file keeps its size', lambda s, it: self.fsz(s) == self.fsz0),
                ('the counter stays in the overlap', lambda s, it: z3.And(0 <= it, it <= z[depth - 1]))]


class Write(Store):
    def __init__(self, nd, opts, sieve):
        self.w = z3.Int('w')
        super().__init__('PDC_Server_data_write_out', nd, True, opts)
        self.dst = self.FILE
        self.common(sieve)
        self.c.assume(self.w >= 0)

    def common(self, sieve):
        self.c.assume(z3.Select(self.c.row(self.c.st, 'i' if False else self.c.eng.cls(self.c.unit.type('int'))[0], self.sieve), 0) == (1 if sieve else 0), self.sieve > 0, z3.Select(self.c.st.alive, self.sieve))
        self.old = z3.Select(self.B(self.st0, self.dst), self.w)
        self.c.assume(uf('val', 1)(0) == self.old, uf('cov', 1)(0) == 0)

    def X(self, k):
        return [uf('x%d' % d, 1)(k) for d in range(self.nd)]

    def x(self, st):
        k = st.ghost.get(('cur', 0))
        return self.X(k) if k is not None else self.X(z3.IntVal(-1))

    def fw(self, st):
        return [self.w]

    def hit(self, k):
        """the byte watched lies in the extent of stored region k (whose element it belongs to has the coordinates X(k))"""
        s, n, off, dsz = self.box(k)
        return z3.And(off <= self.w, self.w < off + dsz)

    def new(self, k):
        return z3.Select(self.B(self.st0, self.buf.o), lin(self.e, [a - b for a, b in zip(self.X(k), self.p)], self.u) + self.t)

    def step(self, k):
        s, n, off, dsz = self.box(k)
        x, val, cov = self.X(k), uf('val', 1), uf('cov', 1)
        allin = z3.And(*[z3.And(b <= a, a + m <= b + l) for a, m, b, l in zip(self.p, self.e, s, n)])
        return [z3.Implies(z3.And(0 <= k, k < self.n, self.hit(k)), z3.And(inbox(x, s, n), 0 <= self.t, self.t < self.u, self.w == off + lin(n, [a - b for a, b in zip(x, s)], self.u) + self.t)),
                val(k + 1) == z3.If(z3.And(self.hit(k), inbox(x, self.p, self.e)), self.new(k), val(k)),
                cov(k + 1) == z3.If(z3.Or(cov(k) == 1, allin), 1, 0)]


class Read(Write):
    def __init__(self, nd, opts, sieve):
        self.w = z3.Int('w')
        Store.__init__(self, 'PDC_Server_data_read_from', nd, False, opts)
        self.dst = self.buf.o
        self.common(sieve)
        self.xs = [z3.Int('x%d' % d) for d in range(nd)]
        self.c.assume(inbox(self.xs, self.p, self.e), 0 <= self.t, self.t < self.u, self.w == lin(self.e, [a - b for a, b in zip(self.xs, self.p)], self.u) + self.t)

    def X(self, k):
        return self.xs

    def fpos(self, k):
        s, n, off, dsz = self.box(k)
        return off + lin(n, [a - b for a, b in zip(self.xs, s)], self.u) + self.t

    def fw(self, st):
        k = st.ghost.get(('cur', 0))
        return [self.fpos(k)] if k is not None else []

    def hit(self, k):
        s, n, off, dsz = self.box(k)
        return inbox(self.xs, s, n)

    def new(self, k):
        return z3.Select(self.B(self.st0, self.FILE), self.fpos(k))

    def step(self, k):
        val = uf('val', 1)
        return [val(k + 1) == z3.If(self.hit(k), self.new(k), val(k))]


def write_out(nd, sieve):
    def proof(opts):
        s = Write(nd, opts, sieve)
        c = s.c
        st0 = c.st.copy()
        for st, ret in c.run(c.name, c.int('obj_id'), s.ri, s.buf, IV(s.u)):
            c.post(st, 'succeeds', ret.t == 0)
            k = s.n
            c.post(st, 'the bytes stored before are those of the regions, updated from the buffer where the request covers them',
                   z3.Implies(s.w < s.fsz0, z3.Select(s.B(st, s.FILE), s.w) == uf('val', 1)(k)))
            off = c.unit.field(DS, 'region_storage_head')[0]
            head = c.cell(st, s.region.o, off, (PTR, None))
            F, j = lambda k, f, d=0: s.F(st, k, f, d), z3.Int('j')
            st.assume(*s.facts(j), z3.Implies(z3.And(0 <= j, j < k - 1), s.node(j) != s.node(k - 1)))
            new = z3.If(k > 0, F(0, 'prev'), head)
            nf = lambda f, d=0: (lambda o, t: z3.Select(sel(c.eng.M(st, 'p' if f == 'next' else 'u64'), new), o // 8 + d))(*c.unit.field(RL, f))
            links = lambda m: z3.Implies(z3.And(0 <= j, j < m), F(j, 'next') == s.node(j + 1))
            kept = z3.And(links(k), z3.Implies(k > 0, z3.And(F(0, 'prev') == s.node(k - 1), head == s.node(0))), s.fsz(st) == s.fsz0)
            added = z3.And(links(k - 1), z3.If(k > 0, z3.And(head == s.node(0), F(k - 1, 'next') == new), head == new), new > 0, nf('next') == 0,
                           *[z3.And(nf('start', d) == s.p[d], nf('count', d) == s.e[d]) for d in range(nd)], nf('offset') == s.fsz0, nf('data_size') == s.W,
                           s.fsz(st) == s.fsz0 + s.W, z3.Implies(z3.And(s.fsz0 <= s.w, s.w < s.fsz0 + s.W), z3.Select(s.B(st, s.FILE), s.w) == z3.Select(s.B(st0, s.buf.o), s.w - s.fsz0)))
            c.post(st, 'the request becomes the last region of the list with its data at the end of the file, unless one region contains it', z3.Or(z3.And(uf('cov', 1)(k) == 1, kept), added))
            for f, n in (('start', nd), ('count', nd), ('offset', 1), ('data_size', 1)):
                for d in range(n):
                    c.post(st, 'the stored regions keep their boxes and places', z3.Implies(z3.And(0 <= j, j < k), F(j, f, d) == s.F(st0, j, f, d)))
            c.frame(st0, st, [s.FILE, s.OV, s.OVS, s.TMP], ['b'])
        # with extents that do not overlap, val says: the byte of the buffer if its element is requested, else the old byte
        m, k0 = z3.Int('m'), z3.Int('k0')
        q = st0.copy()
        q.assume(0 <= k0, k0 < s.n, s.hit(k0))
        P = lambda m: uf('val', 1)(m) == z3.If(z3.And(m > k0, inbox(s.X(k0), s.p, s.e)), s.new(k0), s.old)
        c.post(q, 'lemma: disjoint extents (base)', P(zero))
        q = q.copy()
        q.assume(0 <= m, m < s.n, z3.Implies(m != k0, z3.Not(s.hit(m))), P(m), *s.step(m), *s.step(k0))
        c.post(q, 'lemma: disjoint extents (step)', P(m + 1))
        return c
    return proof


def posix_write(opts):
    from contracts.P14 import Files
    c = Ctx('PDC_Server_posix_write', D, extra=EX, opts=dict(opts, htmo=9.0))
    w, G = z3.Int('w'), 2 ** 30
    fl = Files(c, w)
    n, b0 = c.int('write_size').t, z3.Int('at')
    buf = c.obj('buf', z3.Int('buf_size'))
    c.assume(n >= 0, n < LIM, b0 >= 0, b0 + n <= z3.Int('buf_size'), z3.Int('buf_size') < LIM)
    c.distinct(buf, PV(fl.f, 0))
    st0 = c.st.copy()
    c0 = fl.cur(st0)
    B = lambda st, o: sel(c.eng.M(st, 'b'), o)

    def upto(st, m):
        return z3.And(fl.cur(st) == c0 + m, z3.Select(B(st, fl.f), w) == z3.If(z3.And(c0 <= w, w < c0 + m), z3.Select(B(st0, buf.o), w - c0 + b0), z3.Select(B(st0, fl.f), w)))

    def gen(L):
        lst = [('bytes before the cursor are written', lambda st, it: upto(st, G * it)), ('the buffer is unchanged', lambda st, it: B(st, buf.o) == B(st0, buf.o)), ('turns', lambda st, it: G * it <= n)]
        for nm, vid, ty in L.vars(INT, mod=True):
            lst.append(('%s counts what is left' % nm, lambda st, it, vid=vid: st.env[vid].t == n - G * it))
            lst.append(('%s counts what is written' % nm, lambda st, it, vid=vid: st.env[vid].t == G * it))
        for nm, vid, ty in L.vars(PTR, mod=True):
            lst.append(('%s advances' % nm, lambda st, it, vid=vid: z3.And(st.env[vid].o == buf.o, st.env[vid].off == b0 + G * it)))
        return lst
    c.eng.loopgen.append(gen)
    for st, ret in c.run(c.name, IV(fl.fd), PV(buf.o, b0), IV(n)):
        c.post(st, 'succeeds', ret.t == 0)
        c.post(st, 'writes the bytes of the buffer at the cursor, and nothing else', upto(st, n))
        c.frame(st0, st, [fl.f], ['b'])
    return c


def read_from(nd, sieve):
    def proof(opts):
        s = Read(nd, opts, sieve)
        c = s.c
        st0 = c.st.copy()
        for st, ret in c.run(c.name, c.int('obj_id'), s.ri, s.buf, IV(s.u)):
            c.post(st, 'succeeds', ret.t == 0)
            c.post(st, 'a byte of the buffer holds what the stored regions that cover its element say', z3.Select(s.B(st, s.buf.o), s.w) == uf('val', 1)(s.n))
            c.post(st, 'the file is unchanged', s.B(st, s.FILE) == s.B(st0, s.FILE))
            c.frame(st0, st, [s.buf.o, s.OV, s.OVS, s.TMP], ['b', 'u64'])
        return c
    return proof


PROOFS = [('PDC_Server_data_%s %dD, sieving %s' % (nm, n, 'on' if sv else 'off'), mk(n, sv))
          for nm, mk in (('write_out', write_out), ('read_from', read_from)) for n, sv in ((2, False), (1, False), (3, True), (2, True), (1, True))] + [('PDC_Server_posix_write', posix_write)]

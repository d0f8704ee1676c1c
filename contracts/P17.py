"""P17: the client moves exactly the bytes of the regions of a transfer.

Packing and unpacking are proved for an arbitrary byte, given by its coordinates; the partition of a region over the servers for an arbitrary server."""
from vf.proof import *
from vf.cast import REPO, server_flags
from vf import rpc
from contracts.P14 import lin, consts, mono, LIM
T = 'src/api/pdc_region/pdc_region_transfer.c'
EX = rpc.FLAGS + [x for x in server_flags() if 'IS_PDC_SERVER' not in x]
READ, WRITE = 1, 2


def acc_of(c, a):
    return c.unit.enums['PDC_WRITE' if a == WRITE else 'PDC_READ']


def copies(c, w):
    """memcpy seen at the watched byte only"""
    def f(eng, st, a, ln):
        d, s, n = a[0], a[1], a[2].t
        for what, p in (('destination', d), ('source', s)):
            eng.oblige(st, 'memcpy: %s inside a live buffer' % what, 'mem', z3.And(p.o != 0, z3.Select(st.alive, p.o), p.off >= 0, n >= 0, p.off + n <= z3.Select(st.osize, p.o)), ln)
        m = eng.M(st, 'b')
        A = fresh('cpy_b', ROW)
        src, dst = sel(m, s.o), sel(m, d.o)
        st.assume(z3.Select(A, w) == z3.If(z3.And(d.off <= w, w < d.off + n), z3.Select(src, w - d.off + s.off), z3.Select(dst, w)))
        st.mem['b'] = z3.Store(m, d.o, A)
        eng.note_write('b', d.o)
        return [(st, d)]
    c.eng.externs['memcpy'] = f
    c.eng.externs['fflush'] = lambda eng, st, a, ln: [(st, IV(0))]


class Local:
    """a local region of nd dimensions in a buffer shaped as the object"""

    def __init__(self, fn, nd, opts, **kw):
        c = self.c = Ctx(fn, T, extra=EX, opts=dict(opts, wrap_mul='check', htmo=9.0, hslow=True, **kw))
        self.nd = nd
        self.dims, self.off, self.size = c.obj('obj_dims', 8 * nd), c.obj('local_offset', 8 * nd), c.obj('local_size', 8 * nd)
        f, p, e = self.f, self.p, self.e = consts(c, self.dims, 'dim', nd, 1), consts(c, self.off, 'offset', nd), consts(c, self.size, 'size', nd, 1)
        u = self.u = c.int('unit').t
        c.assume(u >= 1, *[p[d] + e[d] <= f[d] for d in range(nd)])
        tot, self.W = z3.Product(*f, u), z3.Product(*e, u)
        self.tot = tot
        c.assume(tot < LIM)
        self.fs, self.es = fs, es = list(f) + [u], list(e) + [u]
        prod = self.prod = lambda xs: z3.Product(*xs) if len(xs) > 1 else xs[0]
        for a in range(nd, -1, -1):
            c.lemma('size arithmetic', prod(fs[a:]) >= 1)
            c.lemma('size arithmetic', z3.And(prod(es[a:]) >= 1, prod(es[a:]) <= prod(fs[a:])))
        for a in range(nd + 1):
            c.lemma('size arithmetic', prod(fs[a:]) <= tot)
            for b in range(a, nd + 1):
                c.lemma('size arithmetic', z3.And(prod(fs[a:b + 1]) <= tot, prod(fs[a:b + 1]) >= 1))
                c.lemma('size arithmetic', z3.And(prod(es[a:b + 1]) <= tot, prod(es[a:b + 1]) >= 1))
        self.buf = c.obj('buf', tot)
        self.w, self.t = z3.Int('w'), z3.Int('t')
        self.x = [z3.Int('x%d' % d) for d in range(nd)]
        copies(c, self.w)

    def B(self, s, o):
        return sel(self.c.eng.M(s, 'b'), o)

    def rows(self, dst, src, into):
        """the row loops: dst/src objects (functions of the state); into: whether dst is the buffer shaped as the object"""
        c, nd, u, x, t, e = self.c, self.nd, self.u, self.x, self.t, self.e
        zero = z3.IntVal(0)
        z = [zero] * nd
        big, small = (self.f, self.p), (e, z)
        (df, dp), (sf, sp) = (big, small) if into else (small, big)
        c.assume(*[x[d] >= 0 for d in range(nd)], *[x[d] < df[d] for d in range(1 if into else 0, nd)], 0 <= t, t < u, self.w == lin(df, x, u) + t)
        r = [x[d] - dp[d] for d in range(nd)]
        y = [r[d] + sp[d] for d in range(nd)]
        inside = z3.And(*[z3.And(0 <= r[d], r[d] < e[d]) for d in range(nd)])
        self.inside = inside
        st0 = c.st.copy()
        self.st0 = st0
        self.srcpos = lin(sf, y, u) + t
        prod, es, tot = self.prod, self.es, self.tot

        def lexlt(a, b):
            return z3.Or(*[z3.And(*[a[i] == b[i] for i in range(d)], a[d] < b[d]) for d in range(len(b))])

        def gen(L):
            depth = L.depth
            if depth >= nd - 1:
                return []

            def counters(s, it):
                return [s.ghost[('cur', d)] for d in range(depth)] + [it]

            def sane(s, it):
                cs = counters(s, it)
                ok = z3.And(*[z3.And(0 <= i, i <= e[d]) for d, i in enumerate(cs)])
                out = []
                for full, first in ((df, dp), (sf, sp)):
                    at = [first[d] + cs[d] if d <= depth else first[d] for d in range(nd)]
                    out.append(z3.Implies(z3.And(ok, cs[-1] < e[depth]), z3.And(lin(full, at, u) >= 0, lin(full, at, u) < tot)))
                    out.append(z3.Implies(z3.And(ok, cs[-1] < e[depth]), lin(full, at, u) + prod(es[depth + 1:]) <= prod(list(full) + [u])))
                return out
            lst = []
            for n in range(len(sane(L.entry, zero))):
                lst.append(('position arithmetic %d' % n, lambda s, it, n=n: sane(s, it)[n]))
            s0, D, O = self.B(st0, src(L.entry)), dst(L.entry), src(L.entry)
            old = z3.Select(self.B(L.entry if depth == 0 else st0, D), self.w)
            if depth == 0:
                self.old = old
            old = self.old
            lst.append(('the source is unchanged', lambda s, it: self.B(s, O) == s0))
            lst.append(('rows before the counter are copied, the rest is untouched', lambda s, it: z3.Select(self.B(s, D), self.w) == z3.If(z3.And(inside, lexlt(r, counters(s, it))), z3.Select(s0, self.srcpos), old)))
            for nm, vid, ty in L.vars(PTR, mod=True):
                v = L.entry.env[vid]
                if isinstance(v, PV):
                    lst.append(('%s advances one row per turn' % nm, lambda s, it, vid=vid, v=v: z3.And(s.env[vid].o == v.o, s.env[vid].off == v.off + it * prod(es[depth + 1:]))))

                    def p2(s, it, vid=vid, v=v):
                        cs = counters(s, it)
                        return z3.And(s.env[vid].o == v.o, s.env[vid].off == lin(e, cs + [zero] * (nd - len(cs)), u))
                    lst.append(('%s is at the row of the counters' % nm, p2))
            return lst
        c.eng.loopgen.append(gen)


def pack(nd, acc):
    def proof(opts):
        L = Local('pack_region_buffer', nd, opts, interior=(nd == 1))
        c = L.c
        out = c.obj('new_buf', 8)
        c.distinct(out, L.buf, L.dims, L.off, L.size)
        new = lambda s: z3.Select(sel(c.eng.M(s, 'p'), out.o), 0)
        if nd > 1 and acc == WRITE:
            L.rows(new, lambda s: L.buf.o, False)
        st0 = c.st.copy()
        for st, ret in c.run(c.name, L.buf, L.dims, IV(L.W), IV(nd), L.off, L.size, IV(L.u), IV(acc_of(c, acc)), out):
            c.post(st, 'succeeds', ret.t == 0)
            if nd == 1:
                c.post(st, 'a region of one dimension is used in place', z3.And(new(st) == L.buf.o, z3.Select(sel(c.eng.M(st, 'po'), out.o), 0) == L.p[0] * L.u))
            else:
                c.post(st, 'a new buffer of the size of the region', z3.And(new(st) > 0, z3.Select(st.alive, new(st)), z3.Not(z3.Select(st0.alive, new(st))), z3.Select(st.osize, new(st)) == L.W))
                if acc == WRITE:
                    c.post(st, 'a byte of it holds the byte of the user buffer with the same coordinates', z3.Implies(L.inside, z3.Select(L.B(st, new(st)), L.w) == z3.Select(L.B(st0, L.buf.o), L.srcpos)))
            c.frame(st0, st, [out.o], ['b', 'u64', 'p'])
        return c
    return proof


def unpack(nd, acc):
    def proof(opts):
        L = Local('release_region_buffer', nd, opts)
        c = L.c
        new = c.obj('new_buf', L.W)
        c.distinct(new, L.buf, L.dims, L.off, L.size)
        if nd > 1 and acc == READ:
            L.rows(lambda s: L.buf.o, lambda s: new.o, True)
        st0 = c.st.copy()
        for st, ret in c.run(c.name, L.buf, L.dims, IV(nd), L.off, L.size, IV(L.u), IV(acc_of(c, acc)), IV(0), new, NULL, NULL, NULL):
            c.post(st, 'succeeds', ret.t == 0)
            if nd > 1 and acc == READ:
                c.post(st, 'a byte of the user buffer inside the region holds the byte read with the same coordinates, any other byte its old value',
                       z3.Select(L.B(st, L.buf.o), L.w) == z3.If(L.inside, z3.Select(L.B(st0, new.o), L.srcpos), z3.Select(L.B(st0, L.buf.o), L.w)))
                c.frame(st0, st, [L.buf.o], ['b', 'u64', 'p'])
            else:
                c.post(st, 'the user buffer is unchanged', L.B(st, L.buf.o) == L.B(st0, L.buf.o))
            c.post(st, 'the temporary buffer is released', z3.Select(st.alive, new.o) == z3.BoolVal(nd == 1))
        return c
    return proof


PROOFS = [('pack_region_buffer %dD, %s' % (n, 'write' if a == WRITE else 'read'), pack(n, a)) for n in (3, 2, 1) for a in (WRITE, READ)]
PROOFS += [('release_region_buffer %dD, %s' % (n, 'write' if a == WRITE else 'read'), unpack(n, a)) for n in (3, 2, 1) for a in (WRITE, READ)]



def partition(nd, sd, mode):
    """static_region_partition splitting dimension sd; mode: READ/WRITE with buffers, None without

    c(i) counts the servers below i that get a piece; K is any place in the result, Q any server."""
    def proof(opts):
        c = Ctx('static_region_partition', T, extra=EX, opts=dict(opts, wrap_mul='check', htmo=9.0, hslow=True, interior=True, auto=lambda nm: nm == 'alive-mono' or ('init' in nm and 'init - it' not in nm) or nm.startswith('cond-bound')))
        dims, off, size = c.obj('obj_dims', 8 * nd), c.obj('offset', 8 * nd), c.obj('size', 8 * nd)
        f, p, e = consts(c, dims, 'dim', nd, 1), consts(c, off, 'offset', nd), consts(c, size, 'size', nd, 1)
        u, G, N = c.int('unit').t, z3.Int('glob_pdc_server_num_g'), z3.Int('servers')
        c.assume(G > 0, z3.Select(c.st.alive, G), c.cell(c.st, G, 0, (INT, 32, True)) == N, 1 <= N, N < 2 ** 31)
        c.assume(u >= 1, *[p[d] + e[d] <= f[d] for d in range(nd)], *[f[d] < LIM for d in range(nd)])
        # the dimension that is split is the last one with more elements than servers; the last one when there is none
        c.assume(*[f[d] <= N for d in range(sd + 1, nd)], True if sd == nd - 1 and nd > 1 or nd == 1 else f[sd] > N)
        if sd == nd - 1 and nd > 1:
            c.assume(z3.Or(f[sd] > N, *[z3.And(*[f[d] <= N for d in range(nd)])]))
        prod = lambda xs: z3.Product(*xs) if len(xs) > 1 else xs[0]
        tot = prod(list(e) + [u])
        c.assume(prod(list(e) + [u, u]) < LIM)
        for a in range(nd + 1):
            c.lemma('size arithmetic', z3.And(prod(list(e[:a]) + [u]) >= 1, prod(list(e[:a]) + [u]) < LIM))
        buf = c.obj('buf', tot)
        outs = {n: c.obj(n, 8) for n in ('data_server_ids', 'sub_offsets', 'output_offsets', 'output_sizes', 'output_buf')}
        num = c.obj('n_data_servers', 4)
        c.apart(dims, off, size, buf, num, PV(G, 0), *outs.values())
        D, o, l = f[sd], p[sd], e[sd]
        S, R = UDIV(D, N), UMOD(D, N)
        c.assume(D == N * S + R, S >= 0, R >= 0, R < N, S <= D)     # what division is
        X = N - R
        start = lambda q: z3.If(q < X, q * S, X * S + (q - X) * (S + 1))
        length = lambda q: z3.If(q < X, S, S + 1)
        lo = lambda q: z3.If(start(q) < o, o, start(q))
        hi = lambda q: z3.If(start(q) + length(q) < o + l, start(q) + length(q), o + l)
        # a server gets a piece when its range meets the region (or is an empty range inside it)
        meets = lambda q: z3.Or(z3.And(start(q) + length(q) > o, o >= start(q)), z3.And(o + l > start(q), start(q) >= o))
        cnt = lambda i: uf('count', 1)(i)
        K, Q = z3.Int('K'), z3.Int('Q')
        zero = z3.IntVal(0)
        c.assume(cnt(zero) == 0, K >= 0, 0 <= Q, Q < N)
        step = lambda i: [cnt(i + 1) == cnt(i) + z3.If(meets(i), 1, 0)]

        y = [z3.Int('y%d' % d) for d in range(nd)]
        t = z3.Int('t')
        c.assume(*[y[d] >= 0 for d in range(nd)], 0 <= t, t < u)
        # names for the piece of server q: first coordinate and extent in the split dimension, bytes, places of the watched byte in the piece and in the region
        first, extent, whole, inpiece, inregion = (lambda q, n=n: uf(n, 1)(q) for n in ('first', 'extent', 'bytes', 'in_piece', 'in_region'))

        def sizes(q):
            return [extent(q) if d == sd else e[d] for d in range(nd)]

        def define(q):
            return [first(q) == lo(q), extent(q) == hi(q) - lo(q), whole(q) == prod(sizes(q) + [u]), inpiece(q) == lin(sizes(q), y, u) + t,
                    inregion(q) == lin(e, [y[d] + (first(q) - o if d == sd else 0) for d in range(nd)], u) + t]

        def arith(q):
            out = [z3.Implies(z3.And(*[x >= 0 for x in sizes(q)]), z3.And(whole(q) >= 0, whole(q) <= prod(sizes(q) + [u, u])))]
            out += [z3.Implies(q <= N, q * S <= N * S), z3.Implies(q + 1 <= N, (q + 1) * S <= N * S), z3.Implies(q <= X, q * S <= X * S), X * S <= N * S]
            for a in range(sd + 1, nd + 1):
                z = prod([e[d] for d in range(a) if d != sd] + [u])
                out += [mono(z3.IntVal(0), extent(q), z), mono(extent(q), l, z)]
            return out
        FO = z3.Int('other_object')
        c.assume(z3.Select(c.st.alive, FO), *[FO != x.o for x in [num] + list(outs.values())])
        st0 = c.st.copy()
        b0 = sel(c.eng.M(st0, 'b'), buf.o)
        P = lambda s, ob, i: z3.Select(sel(c.eng.M(s, 'p'), ob), i)
        PO = lambda s, ob, i: z3.Select(sel(c.eng.M(s, 'po'), ob), i)
        arr = lambda s, n: P(s, outs[n].o, 0)
        U = lambda s, ob, i: z3.Select(sel(c.eng.M(s, 'u64'), ob), i)
        ids = lambda s, i: z3.Select(sel(c.eng.M(s, 'u32'), arr(s, 'data_server_ids')), i)
        n_of = lambda s: c.cell(s, num.o, 0, (INT, 32, True))

        def sub(eng, st, a, ln):
            """memcpy_subregion (its contract is P02), seen at the watched byte"""
            bp, szp, sb, sop, ssp = a[3], a[4], a[5], a[6], a[7]
            v = lambda ptr, d: z3.Select(sel(eng.M(st, 'u64'), ptr.o), simp((ptr.off + 8 * d) / 8))
            big, so, ss = [v(szp, d) for d in range(nd)], [v(sop, d) for d in range(nd)], [v(ssp, d) for d in range(nd)]
            # the same places by name
            it = st.ghost.get(('cur', 0), z3.Int('no_turn'))
            eq = z3.And(*[ss[d] == sizes(it)[d] for d in range(nd)], *[big[d] == e[d] for d in range(nd)], *[so[d] == (first(it) - o if d == sd else 0) for d in range(nd)])
            st.assume(z3.Implies(eq, z3.And(lin(ss, y, u) + t == inpiece(it), lin(big, [so[d] + y[d] for d in range(nd)], u) + t == inregion(it), prod(ss + [u]) == whole(it), prod(ss + [u, u]) == prod(sizes(it) + [u, u]), prod(big + [u]) == tot)))
            eng.oblige(st, 'memcpy_subregion is called for this element size and direction', 'pre', z3.And(a[0].t == nd, a[1].t == u, a[2].t == acc_of(c, WRITE)), ln)
            for d in range(nd):
                eng.oblige(st, 'the sub-region lies in the region', 'pre', z3.And(so[d] >= 0, ss[d] >= 0, so[d] + ss[d] <= big[d]), ln)
            live = lambda q, n: z3.And(q.o != 0, z3.Select(st.alive, q.o), q.off >= 0, q.off + n <= z3.Select(st.osize, q.o))
            eng.oblige(st, 'the source holds the region', 'pre', live(bp, prod(big + [u])), ln)
            eng.oblige(st, 'the destination holds the sub-region', 'pre', live(sb, prod(ss + [u])), ln)
            m = eng.M(st, 'b')
            A = fresh('sub_b', ROW)
            src = sel(m, bp.o)
            st.assume(z3.Implies(z3.And(*[y[d] < ss[d] for d in range(nd)]), z3.Select(A, lin(ss, y, u) + t + sb.off) == z3.Select(src, lin(big, [so[d] + y[d] for d in range(nd)], u) + t + bp.off)))
            st.mem['b'] = z3.Store(m, sb.o, A)
            eng.note_write('b', sb.o)
            return [(st, IV(0))]
        c.eng.contracts['memcpy_subregion'] = sub

        def piece(s, upto):
            """piece K of the result: (name, formula)"""
            q = ids(s, K)
            O = P(s, arr(s, 'output_offsets'), K)
            other = [arr(s, n) for n in outs if mode is not None or n != 'output_buf']
            sz = sizes(q)
            yield 'belongs to one of the servers so far', z3.And(0 <= q, q < upto, meets(q), cnt(q) == K)
            yield 'has offsets of its own', z3.And(O > 0, *[O != x for x in other], z3.Select(s.alive, O), z3.Not(z3.Select(st0.alive, O)), z3.Select(s.osize, O) == 24 * nd, PO(s, arr(s, 'output_offsets'), K) == 0,
                                                   P(s, arr(s, 'output_sizes'), K) == O, PO(s, arr(s, 'output_sizes'), K) == 8 * nd, P(s, arr(s, 'sub_offsets'), K) == O, PO(s, arr(s, 'sub_offsets'), K) == 16 * nd)
            for d in range(nd):
                one = first(q) if d == sd else p[d]
                yield 'is where the range of its server meets the region, dimension %d' % d, z3.And(U(s, O, d) == one, U(s, O, nd + d) == sz[d], U(s, O, 2 * nd + d) == one - p[d])
            if mode is not None:
                B = P(s, arr(s, 'output_buf'), K)
                yield 'has a buffer of its own', z3.And(B > 0, B != O, *[B != x for x in other], z3.Select(s.alive, B), z3.Not(z3.Select(st0.alive, B)), PO(s, arr(s, 'output_buf'), K) == 0)
                yield 'has a buffer large enough', z3.Select(s.osize, B) >= whole(q)
                if mode == WRITE:
                    yield 'holds the bytes of the region with the same coordinates', z3.Implies(
                        z3.And(*[y[d] < sz[d] for d in range(nd)]), z3.Select(sel(c.eng.M(s, 'b'), B), inpiece(q)) == z3.Select(b0, inregion(q)))

        def gen(L):
            if L.depth:
                return []
            lst = []

            def known(nm, cl, ob, idx, val, extra=None):
                """a cell (or, with idx None, a whole object) of known contents; later reads are resolved to them"""
                def g(s, it):
                    row = sel(c.eng.M(s, cl), ob)
                    return z3.And((row if idx is None else z3.Select(row, idx)) == val(it), *(extra(s, it) if extra else []))

                def subst(s, it):
                    row = sel(c.eng.M(s, cl), ob)
                    s.mem[cl] = z3.Store(c.eng.M(s, cl), ob, val(it) if idx is None else z3.Store(row, idx, val(it)))
                g.subst = subst
                lst.append((nm, g))
            known('n_data_servers counts the pieces', 's32', num.o, 0, cnt, lambda s, it: [0 <= cnt(it), cnt(it) <= it])
            known('servers', 's32', G, 0, lambda it: N)
            for nm, ob in [('dims', dims), ('offset', off), ('size', size)]:
                known(nm + ' unchanged', 'u64', ob.o, None, lambda it, ob=ob: sel(c.eng.M(L.entry, 'u64'), ob.o))
            known('the source is unchanged', 'b', buf.o, None, lambda it: b0)
            for n in outs:
                if n == 'output_buf' and mode is None:
                    continue
                E = simp(arr(L.entry, n))
                known('%s stays' % n, 'p', outs[n].o, 0, lambda it, E=E: E)
                known('%s stays, offset' % n, 'po', outs[n].o, 0, lambda it: zero)
                lst.append(('%s stays live' % n, lambda s, it, E=E: z3.And(z3.Select(s.alive, E), z3.Select(s.osize, E) == z3.Select(L.entry.osize, E))))
            lst += [('servers before the counter are counted', lambda s, it: z3.Implies(Q < it, cnt(Q) + z3.If(meets(Q), 1, 0) <= cnt(it))),
                   ('the piece of a server', lambda s, it: z3.Implies(z3.And(Q < it, meets(Q)), z3.And(0 <= cnt(Q), cnt(Q) < cnt(it), ids(s, cnt(Q)) == Q)))]
            for ob in [dims, off, size, buf, num, PV(G, 0), PV(FO, 0)] + list(outs.values()):
                lst.append(('%s stays live' % ob.o, lambda s, it, ob=ob: z3.And(z3.Select(s.alive, ob.o), z3.Select(s.osize, ob.o) == z3.Select(L.entry.osize, ob.o))))
            for cl in ('b', 'u64', 'p', 's32', 'u32'):
                lst.append(('other objects keep their contents [%s]' % cl, lambda s, it, cl=cl: sel(c.eng.M(s, cl), FO) == sel(c.eng.M(st0, cl), FO)))
            for i, (nm, _) in enumerate(piece(L.entry, zero)):
                lst.append(('a piece ' + nm, lambda s, it, i=i: z3.Implies(K < cnt(it), list(piece(s, it))[i][1])))
            return lst
        c.eng.loopgen.append(gen)
        c.eng.instances.append(lambda L, st, it: step(it) + define(it) + arith(it) if L.depth == 0 else [])
        for st, ret in c.run(c.name, buf, IV(nd), IV(u), IV(acc_of(c, mode or READ)), dims, off, size, IV(0 if mode is None else 1), num, *[outs[n] for n in ('data_server_ids', 'sub_offsets', 'output_offsets', 'output_sizes', 'output_buf')]):
            c.post(st, 'succeeds', ret.t == 0)
            n = n_of(st)
            c.post(st, 'as many pieces as servers whose range meets the region', z3.And(n == cnt(N), n >= 0, n <= N))
            c.post(st, 'every server whose range meets the region has its piece', z3.Implies(meets(Q), z3.And(0 <= cnt(Q), cnt(Q) < n, ids(st, cnt(Q)) == Q)))
            for nm, g in piece(st, N):
                c.post(st, 'every piece ' + nm, z3.Implies(K < n, g))
            for cl in ('b', 'u64', 'p', 's32', 'u32'):
                c.post(st, 'nothing else is changed [%s]' % cl, sel(c.eng.M(st, cl), FO) == sel(c.eng.M(st0, cl), FO))
        # the ranges of the servers lie one after the other and cover the dimension
        c.post(st0, 'the ranges tile the dimension', z3.And(start(zero) == 0, start(N) == D))
        st1 = st0.copy()
        st1.assume(*define(Q), *arith(Q))
        c.post(st1, 'the ranges tile the dimension', z3.And(start(Q) + length(Q) == start(Q + 1), length(Q) >= 0))
        return c
    return proof


CASES = [(n, d, WRITE) for n in (3, 2, 1) for d in reversed(range(n))] + [(3, 1, READ), (1, 0, READ), (2, 0, None), (1, 0, None)]
PROOFS = [('static_region_partition %dD, split %d, %s' % (n, d, {WRITE: 'write', READ: 'read', None: 'no buffers'}[m]), partition(n, d, m)) for n, d, m in CASES] + PROOFS


class Requests:
    """the requests of an object: list node(0..n-1); K is the place of the request asked for (n when it is not there), j any place"""

    def __init__(self, fn, opts):
        c = self.c = Ctx(fn, T, extra=EX, opts=dict(opts, auto=lambda nm: nm == 'ret_value = init'))
        self.n, self.K, self.j, self.id = (z3.Int(x) for x in ('n_requests', 'K', 'j', 'id'))
        self.node = lambda k: uf('node', 1)(z3.IntVal(k) if isinstance(k, int) else k)
        self.p = c.struct('object', 'struct _pdc_obj_info')
        n, node = self.n, self.node
        c.apart(self.p, family=['node'])
        c.inputs += [n, self.K, self.id]
        self.st0 = c.st
        c.assume(n >= 0, n < 2 ** 30, 0 <= self.K, self.K <= n, node(n) == 0, self.o(c.st, 'head') == node(0), z3.Implies(n > 0, self.o(c.st, 'end') == node(n - 1)), self.o(c.st, 'size') == n, self.id >= 0, self.id < 2 ** 64)
        self.st0 = c.st.copy()
        c.assume(*self.facts(z3.IntVal(0)), *self.facts(n - 1), *self.around(self.j), *self.around(self.K))
        c.eng.instances.append(lambda L, st, it: self.around(it))
        c.eng.externs['fflush'] = lambda eng, st, a, ln: [(st, IV(0))]
        self.st0 = c.st.copy()

        def gen(L):
            lst = [('not past the request asked for', lambda s, it: it <= self.K)]
            for nm, vid, ty in L.vars(PTR, mod=True):
                for what, val in (('the current request', lambda it: node(it)), ('the request before it', lambda it: z3.If(it == 0, 0, node(it - 1)))):
                    lst.append(('%s is %s' % (nm, what), lambda s, it, vid=vid, val=val: z3.And(s.env[vid].o == val(it), s.env[vid].off == 0)))
            return lst
        c.eng.loopgen.append(gen)

    def o(self, st, f):
        return self.c.fld(st, self.p, 'struct _pdc_obj_info', 'local_transfer_request_' + f)

    def F(self, st, k, f):
        return self.c.fld(st, PV(self.node(k), 0), 'struct pdc_local_transfer_request', f)

    def facts(self, k):
        st, node = self.st0, self.node
        return [z3.Implies(z3.And(0 <= k, k < self.n), z3.And(node(k) > 0, z3.Select(st.alive, node(k)), z3.Select(st.osize, node(k)) == self.c.sizeof('struct pdc_local_transfer_request'),
                                                              self.F(st, k, 'next') == node(k + 1), (self.F(st, k, 'local_id') == self.id) == (k == self.K),
                                                              *[(node(k) == node(x)) == (k == x) for x in (self.j, self.K, self.n - 1, z3.IntVal(0), k - 1, k + 1)]))]

    def around(self, k):
        return self.facts(k) + self.facts(k - 1) + self.facts(k + 1)


def attach(opts):
    r = Requests('attach_local_transfer_request', opts)
    c, n, j, node = r.c, r.n, r.j, r.node
    for st, ret in c.run(c.name, r.p, IV(r.id)):
        new = r.o(st, 'end')
        c.post(st, 'a new request at the end', z3.And(new > 0, z3.Not(z3.Select(r.st0.alive, new)), z3.Select(st.alive, new), c.fld(st, PV(new, 0), 'struct pdc_local_transfer_request', 'local_id') == r.id,
               c.fld(st, PV(new, 0), 'struct pdc_local_transfer_request', 'next') == 0, r.o(st, 'size') == n + 1, r.o(st, 'head') == z3.If(n == 0, new, node(0))))
        c.post(st, 'the others stay, the last one is followed by it', z3.Implies(z3.And(0 <= j, j < n), z3.And(r.F(st, j, 'local_id') == r.F(r.st0, j, 'local_id'), r.F(st, j, 'next') == z3.If(j == n - 1, new, node(j + 1)), z3.Select(st.alive, node(j)))))
    return c


def detach(opts):
    r = Requests('remove_local_transfer_request', opts)
    c, n, j, K, node = r.c, r.n, r.j, r.K, r.node
    for st, ret in c.run(c.name, r.p, IV(r.id)):
        here = K < n
        c.post(st, 'the request is gone', z3.Implies(here, z3.And(z3.Not(z3.Select(st.alive, node(K))), r.o(st, 'size') == n - 1, r.o(st, 'head') == z3.If(K == 0, node(1), node(0)))))
        c.post(st, 'an unknown request changes nothing', z3.Implies(z3.Not(here), z3.And(r.o(st, 'size') == n, r.o(st, 'head') == node(0), z3.Implies(n > 0, r.o(st, 'end') == node(n - 1)))))
        c.post(st, 'the end is the last one left', z3.Implies(z3.And(here, n > 1), r.o(st, 'end') == z3.If(K == n - 1, node(n - 2), node(n - 1))))
        c.post(st, 'the others stay in order', z3.Implies(z3.And(0 <= j, j < n, j != K), z3.And(r.F(st, j, 'local_id') == r.F(r.st0, j, 'local_id'), r.F(st, j, 'next') == z3.If(z3.And(here, j + 1 == K), node(j + 2), node(j + 1)), z3.Select(st.alive, node(j)))))
    return c


PROOFS += [('attach_local_transfer_request', attach), ('remove_local_transfer_request', detach)]
S_ = 'src/server/pdc_server_region/pdc_server_region_transfer.c'
NATIVE = dict(src='native/p17_client.c', server=True, stub=True, flags=['-fcommon', '-DSRC_C="%s/%s"' % (REPO, T), '-DSRC_S="%s/%s"' % (REPO, S_)], repo=['src/utils/pdc_region_utils.c'], time=8)
LEVEL = 'proof'
RULE = 'random histories of transfers (create, start, start_all, status, wait, wait_all) on objects kept on one server or spread over all, through the client entry points, against model servers that store what they receive; distinct = distinct histories by hash'
ASSUMPTIONS = ['the local region lies in a buffer shaped as the object and the remote region in the object (the client does not check); both have the same extents and the dimensions of the object', 'regions, objects and messages are smaller than 2^62 bytes, also after a second multiplication by the element size (static_region_partition allocates that much); at least one server',
               'the dynamic and local partitions (which ask the metadata server) are not covered', 'malloc succeeds', 'the aggregated start, the messages and the waits are decided by the native run (bounded): they store pointers, integers and bytes in one buffer']
TRUSTED = ['memcpy and memcpy_subregion through their contracts (the latter is proved as P02), seen at one arbitrary byte', 'the native run replaces the RPC calls PDC_Client_transfer_request* and the handle table (P15, P16) by models']

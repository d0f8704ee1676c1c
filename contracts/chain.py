"""Contracts for the chained hash containers (hash table, set): the container is an abstract map from key classes.

Ghost state (height-indexed chains: index len-1 is the head, index 0 the last node):
  cin[n]    node n belongs to the container          bk[n], ps[n]  its bucket and height
  at[b][h]  node at height h of bucket b             ln[b]         chain length
  nc[c]     the node holding key class c
C(key) is the class of a key under the user's equality function (equality of classes = equal_func),
and the user's hash is a function of the class: this is exactly "equal keys hash equally".
"""
from vf.proof import *

AR2 = z3.ArraySort(I, ROW)
C = z3.Function('KeyClass', I, I)
HC = z3.Function('HashOfClass', I, I)
n_, b_, h_, c_ = z3.Int('n?'), z3.Int('b?'), z3.Int('h?'), z3.Int('c?')
HASHF, EQF, KFF, VFF = z3.Int('hash_fn'), z3.Int('equal_fn'), z3.Int('key_free_fn'), z3.Int('value_free_fn')


class Fam:
    """names of one concrete container"""

    def __init__(self, path, tab, entry, key, val, next_, table='table', size='table_size', entries='entries', prime='prime_index', extra=()):
        self.path, self.tab, self.entry, self.key, self.val, self.next = path, tab, entry, key, val, next_
        self.table, self.size, self.entries, self.prime, self.extra = table, size, entries, prime, extra


def newghost(tag):
    return dict(cin=fresh(tag + '_in', BOOLMAP), bk=fresh(tag + '_bk', ROW), ps=fresh(tag + '_ps', ROW), at=fresh(tag + '_at', AR2),
                ln=fresh(tag + '_len', ROW), nc=fresh(tag + '_nc', ROW))


class Chain:
    def __init__(self, c, fam, tname='tab'):
        self.c, self.fam = c, fam
        u = c.unit
        self.t = c.struct(tname, fam.tab)
        self.NX = u.field(fam.entry, fam.next)[0] // 8
        self.KY = u.field(fam.entry, fam.key)[0] // 8
        self.VL = u.field(fam.entry, fam.val)[0] // 8 if fam.val else None
        self.esz = c.sizeof(fam.entry)

    def P(self, st):
        return self.c.eng.M(st, 'p')

    def cellp(self, st, o, w):
        return sel(sel(self.P(st), o), w)

    def key(self, st, n):
        return self.cellp(st, n, z3.IntVal(self.KY))

    def val(self, st, n):
        return self.cellp(st, n, z3.IntVal(self.VL))

    def nxt(self, st, n):
        return self.cellp(st, n, z3.IntVal(self.NX))

    def F(self, st, f):
        return self.c.fld(st, self.t, self.fam.tab, f)

    def T(self, st):
        return self.F(st, self.fam.table)

    def N(self, st):
        return self.F(st, self.fam.size)

    def E(self, st):
        return self.F(st, self.fam.entries)

    def wf(self, st, g, T=None, N=None, parts=False):
        """list of (name, formula)"""
        T = self.T(st) if T is None else T
        N = self.N(st) if N is None else N
        P = self.P(st)
        cin, bk, ps, at, ln, nc = (g[x] for x in ('cin', 'bk', 'ps', 'at', 'ln', 'nc'))
        S = z3.Select
        Pn = S(P, n_)
        nx, ky = S(Pn, self.NX), S(Pn, self.KY)
        kk = z3.is_const(P)
        pat = lambda *p: dict(patterns=list(p)) if kk else {}
        out = [
            ('table allocated', z3.And(T > 0, S(st.alive, T), S(st.osize, T) == 8 * N, N >= 1, T != self.t.o, z3.Not(S(cin, T)), z3.Not(S(cin, self.t.o)), z3.Not(S(cin, 0)))),
            ('bucket heads', z3.ForAll([b_], z3.Implies(z3.And(0 <= b_, b_ < N), z3.And(S(ln, b_) >= 0, S(S(P, T), b_) == z3.If(S(ln, b_) == 0, 0, S(S(at, b_), S(ln, b_) - 1)))),
                                       **pat(S(S(P, T), b_), S(ln, b_)))),
            ('nodes valid and placed', z3.ForAll([n_], z3.Implies(S(cin, n_), z3.And(
                n_ > 0, S(st.alive, n_), S(st.osize, n_) == self.esz, S(bk, n_) >= 0, S(bk, n_) < N, S(ps, n_) >= 0, S(ps, n_) < S(ln, S(bk, n_)),
                S(S(at, S(bk, n_)), S(ps, n_)) == n_)), patterns=[S(cin, n_)])),
            ('node in the bucket of its hash', z3.ForAll([n_], z3.Implies(S(cin, n_), S(bk, n_) == UMOD(HC(C(ky)), N)), **pat(S(cin, n_)))),
            ('node findable by class', z3.ForAll([n_], z3.Implies(S(cin, n_), S(nc, C(ky)) == n_), **pat(S(cin, n_)))),
            ('chain links', z3.ForAll([n_], z3.Implies(S(cin, n_), nx == z3.If(S(ps, n_) == 0, 0, S(S(at, S(bk, n_)), S(ps, n_) - 1))), **pat(nx))),
            ('chains hold members', z3.ForAll([b_, h_], z3.Implies(z3.And(0 <= b_, b_ < N, 0 <= h_, h_ < S(ln, b_)),
                                                               z3.And(S(cin, S(S(at, b_), h_)), S(bk, S(S(at, b_), h_)) == b_, S(ps, S(S(at, b_), h_)) == h_)),
                                              patterns=[S(S(at, b_), h_)])),
        ]
        return out

    def has(self, st, g, cl):
        n = z3.Select(g['nc'], cl)
        return z3.And(z3.Select(g['cin'], n), C(self.key(st, n)) == cl)

    def value(self, st, g, cl):
        return self.val(st, z3.Select(g['nc'], cl))

    def bucket(self, st, cl):
        return UMOD(HC(cl), self.N(st))

    # -- pre-state
    def setup(self, maxent=2 ** 27):
        c = self.c
        st = c.st
        g = newghost('g')
        for nm, f in self.wf(st, g):
            c.assume(f)
        c.field_range(self.fam.tab, self.t, self.fam.size, self.fam.entries, self.fam.prime)
        c.assume(self.E(st) <= maxent, self.E(st) >= 0)
        # entries counts the members; the only consequence needed on one call
        c.assume(z3.ForAll([n_], z3.Implies(z3.Select(g['cin'], n_), self.E(st) >= 1), patterns=[z3.Select(g['cin'], n_)]))
        off, _ = c.unit.field(self.fam.tab, 'hash_func')
        c.assume(self.F(st, 'hash_func') == HASHF, self.F(st, 'equal_func') == EQF, HASHF > 0, EQF > 0, KFF > 0, VFF > 0, HASHF != EQF)
        self.callbacks()
        st.ghost['g'] = g
        return g

    def callbacks(self):
        eng = self.c.eng

        def hashcb(st, args, ln):
            r = HC(C(args[0].o))
            st.assume(r >= 0, r < 2 ** 32)
            return [(st, IV(r))]

        def eqcb(st, args, ln):
            r = fresh('eq')
            e = C(args[0].o) == C(args[1].o)
            st.assume((r != 0) == e, r >= -2 ** 31, r < 2 ** 31)
            return [(st, IV(r, e))]

        def free_cb(tag):
            def f(st, args, ln):
                st.log.append((tag, args[0].o))
                return [(st, None)]
            return f
        eng.callbacks = dict(h=(HASHF, hashcb), e=(EQF, eqcb), kf=(KFF, free_cb('key-free')), vf=(VFF, free_cb('value-free')))

    # -- loop candidates common to all chain walks
    def walk(self, L):
        c, E = self.c, L.entry
        g = E.ghost.get('g')
        if g is None:
            return []
        S = z3.Select
        out = []
        cl = E.ghost.get('cl')
        if cl is None:
            return []
        P0 = self.P(E)
        T, N = self.T(E), self.N(E)
        b = UMOD(HC(cl), N)
        ln, at = S(g['ln'], b), S(g['at'], b)
        cur = lambda it: z3.If(it < ln, S(at, ln - 1 - it), z3.IntVal(0))
        prv = lambda it: z3.If(it > 0, S(at, ln - it), z3.IntVal(0))
        out.append(('it <= chain length', lambda s, it: it <= ln))
        out.append(('no match among the first it', lambda s, it: z3.ForAll([h_], z3.Implies(z3.And(ln - it <= h_, h_ < ln), C(S(S(P0, S(at, h_)), self.KY)) != cl), patterns=[S(at, h_)])))
        for nm, vid, t in L.vars(PTR, mod=True):
            if not isinstance(E.env[vid], PV):
                # not yet assigned before the loop
                pass
            out.append((nm + ' = current node', lambda s, it, vid=vid: z3.And(s.env[vid].o == cur(it), s.env[vid].off == 0)))
            out.append((nm + ' = previous node', lambda s, it, vid=vid: z3.And(s.env[vid].o == prv(it), s.env[vid].off == 0)))
            out.append((nm + ' = current link slot', lambda s, it, vid=vid: z3.And(
                s.env[vid].o == z3.If(it == 0, T, S(at, ln - it)), s.env[vid].off == z3.If(it == 0, 8 * b, 8 * self.NX))))
            out.append((nm + ' = address of the current link slot, contents', lambda s, it, vid=vid: sel(sel(self.P(s), s.env[vid].o), divexact(s.env[vid].off, 8)) == cur(it)))
        return out

    def posts_frame(self, st0, st, g, extra=()):
        c = self.c
        o = fresh('o')
        T0 = self.T(st0)
        for cls in list(st.mem):
            m0, m1 = c.eng.M(st0, cls), c.eng.M(st, cls)
            if m0.eq(m1):
                continue
            c.post(st, 'nothing outside the container changes [%s]' % cls,
                   z3.Implies(z3.And(z3.Select(st0.alive, o), o != self.t.o, o != T0, z3.Not(z3.Select(g['cin'], o)), *[o != x for x in extra]),
                              z3.Select(m1, o) == z3.Select(m0, o)))
        for f in ('hash_func', 'equal_func') + tuple(self.fam.extra):
            c.post(st, 'field %s unchanged' % f, self.F(st, f) == self.F(st0, f))

    def post_wf(self, st, alts, what='invariant'):
        """alts: list of (label, ghost, definitional assumptions); obligation: one of them re-establishes wf"""
        c = self.c
        groups = []
        for label, g, defs in alts:
            groups.append((label, defs, self.wf(st, g)))
        c.post_alts(st, what, groups)


def ghost_prepend(g, b, n, cl):
    S, U = z3.Select, z3.Store
    l = S(g['ln'], b)
    return dict(cin=U(g['cin'], n, z3.BoolVal(True)), bk=U(g['bk'], n, b), ps=U(g['ps'], n, l), at=U(g['at'], b, U(S(g['at'], b), l, n)),
                ln=U(g['ln'], b, l + 1), nc=U(g['nc'], cl, n)), []


def ghost_append(g, b, n, cl):
    """n becomes the last node of bucket b (height 0), the others move up by one"""
    S, U = z3.Select, z3.Store
    l = S(g['ln'], b)
    row, ps = fresh('arow', ROW), fresh('aps', ROW)
    defs = [z3.ForAll([h_], S(row, h_) == z3.If(h_ <= 0, n, S(S(g['at'], b), h_ - 1)), patterns=[S(row, h_)]),
            z3.ForAll([n_], S(ps, n_) == z3.If(n_ == n, 0, z3.If(z3.And(S(g['cin'], n_), S(g['bk'], n_) == b), S(g['ps'], n_) + 1, S(g['ps'], n_))), patterns=[S(ps, n_)])]
    return dict(cin=U(g['cin'], n, z3.BoolVal(True)), bk=U(g['bk'], n, b), ps=ps, at=U(g['at'], b, row), ln=U(g['ln'], b, l + 1), nc=U(g['nc'], cl, n)), defs


def ghost_remove(g, n):
    S, U = z3.Select, z3.Store
    b, h = S(g['bk'], n), S(g['ps'], n)
    row, ps = fresh('rrow', ROW), fresh('rps', ROW)
    defs = [z3.ForAll([h_], S(row, h_) == z3.If(h_ < h, S(S(g['at'], b), h_), S(S(g['at'], b), h_ + 1)), patterns=[S(row, h_)]),
            z3.ForAll([n_], S(ps, n_) == z3.If(z3.And(S(g['bk'], n_) == b, S(g['ps'], n_) > h), S(g['ps'], n_) - 1, S(g['ps'], n_)), patterns=[S(ps, n_)])]
    return dict(cin=U(g['cin'], n, z3.BoolVal(False)), bk=g['bk'], ps=ps, at=U(g['at'], b, row), ln=U(g['ln'], b, S(g['ln'], b) - 1), nc=g['nc']), defs


def ghost_key(g, n, cl):
    return dict(g, nc=z3.Store(g['nc'], cl, n)), []


class Rehash:
    """Ghost state and invariants of the rehash: g2 describes the new table's chains over the nodes moved so far."""

    def __init__(self, ch, g):
        self.ch, self.g = ch, g
        st = ch.c.st
        z = z3.K(I, z3.IntVal(0))
        st.ghost['g2'] = dict(g, bk=fresh('z_bk', ROW), ps=fresh('z_ps', ROW), at=fresh('z_at', AR2), ln=z)
        ch.c.eng.ghost_step = self
        ch.c.eng.loopgen.append(self.cands)
        ch.c.eng.frame_extra = self.extra
        self.st0 = st.copy()
        self.T0, self.N0 = ch.T(st), ch.N(st)

    def extra(self, L, cl):
        ch = self.ch
        if cl != 'p':
            return None
        return lambda s, o: z3.Or(z3.Select(self.g['cin'], o), o == ch.T(L.entry))

    def moved(self, s, it, n):
        S, g = z3.Select, self.g
        if len(self.depths(s)) == 0:
            i, k = it, None
        else:
            i, k = s.ghost[('cur', 0)], it
        m = S(g['bk'], n) < i
        if k is not None:
            m = z3.Or(m, z3.And(S(g['bk'], n) == i, S(g['ps'], n) >= S(g['ln'], i) - k))
        return z3.And(S(g['cin'], n), m)

    def depths(self, s):
        return self._depth

    def havoc(self, L, h, it):
        g = h.ghost['g2']
        h.ghost['g2'] = dict(g, bk=fresh('h_bk', ROW), ps=fresh('h_ps', ROW), at=fresh('h_at', AR2), ln=fresh('h_ln', ROW))

    def __call__(self, L, h, s, it):
        if L.depth != 1:
            return
        S, U = z3.Select, z3.Store
        ch, g, g2 = self.ch, self.g, h.ghost['g2']
        i = h.ghost[('cur', 0)]
        n = S(S(g['at'], i), S(g['ln'], i) - 1 - it)
        b = UMOD(HC(C(ch.key(self.st0, n))), ch.N(h))
        l = S(g2['ln'], b)
        s.ghost['g2'] = dict(g2, bk=U(g2['bk'], n, b), ps=U(g2['ps'], n, l), at=U(g2['at'], b, U(S(g2['at'], b), l, n)), ln=U(g2['ln'], b, l + 1))

    def cands(self, L):
        ch, g, S = self.ch, self.g, z3.Select
        if L.depth > 1:
            return []
        E = L.entry
        depth = L.depth
        T2, N2 = L.name(ch.T(E), 'T2'), L.name(ch.N(E), 'N2')
        P0 = ch.P(self.st0)
        out = []

        def moved(s, it, n):
            if depth == 0:
                m = S(g['bk'], n) < it
            else:
                i = s.ghost[('cur', 0)]
                m = z3.Or(S(g['bk'], n) < i, z3.And(S(g['bk'], n) == i, S(g['ps'], n) >= S(g['ln'], i) - it))
            return m

        def q(vs, body, *pats):
            return z3.ForAll(vs, body, patterns=list(pats))

        def on(f):
            def w(s, it):
                P = ch.P(s)
                g2 = s.ghost['g2']
                return f(s, it, P, g2, lambda n: moved(s, it, n))
            return w
        out.append(('words other than the link unchanged', on(lambda s, it, P, g2, mv: qall([n_], z3.Implies(S(g['cin'], n_), z3.And(
            S(S(P, n_), self.ch.KY) == S(S(P0, n_), self.ch.KY), *([S(S(P, n_), ch.VL) == S(S(P0, n_), ch.VL)] if ch.VL is not None else []))), S(g['cin'], n_)))))
        out.append(('unmoved links', on(lambda s, it, P, g2, mv: qall([n_], z3.Implies(z3.And(S(g['cin'], n_), z3.Not(mv(n_))),
            S(S(P, n_), ch.NX) == S(S(P0, n_), ch.NX)), S(S(P, n_), ch.NX)))))
        out.append(('moved placed', on(lambda s, it, P, g2, mv: qall([n_], z3.Implies(z3.And(S(g['cin'], n_), mv(n_)), z3.And(
            S(g2['bk'], n_) == UMOD(HC(C(S(S(P0, n_), ch.KY))), N2), S(g2['bk'], n_) >= 0, S(g2['bk'], n_) < N2, S(g2['ps'], n_) >= 0, S(g2['ps'], n_) < S(g2['ln'], S(g2['bk'], n_)),
            S(S(g2['at'], S(g2['bk'], n_)), S(g2['ps'], n_)) == n_)), S(g['cin'], n_)))))
        out.append(('moved links', on(lambda s, it, P, g2, mv: qall([n_], z3.Implies(z3.And(S(g['cin'], n_), mv(n_)),
            S(S(P, n_), ch.NX) == z3.If(S(g2['ps'], n_) == 0, 0, S(S(g2['at'], S(g2['bk'], n_)), S(g2['ps'], n_) - 1))), S(S(P, n_), ch.NX)))))
        out.append(('new heads', on(lambda s, it, P, g2, mv: qall([b_], z3.Implies(z3.And(0 <= b_, b_ < N2), z3.And(S(g2['ln'], b_) >= 0,
            S(S(P, T2), b_) == z3.If(S(g2['ln'], b_) == 0, 0, S(S(g2['at'], b_), S(g2['ln'], b_) - 1)))), S(g2['ln'], b_)))))
        out.append(('new chains hold moved members', on(lambda s, it, P, g2, mv: qall([b_, h_], z3.Implies(z3.And(0 <= b_, b_ < N2, 0 <= h_, h_ < S(g2['ln'], b_)), z3.And(
            S(g['cin'], S(S(g2['at'], b_), h_)), mv(S(S(g2['at'], b_), h_)), S(g2['bk'], S(S(g2['at'], b_), h_)) == b_, S(g2['ps'], S(S(g2['at'], b_), h_)) == h_)),
            S(S(g2['at'], b_), h_)))))
        if depth == 1:
            cur = lambda s, it: z3.If(it < S(g['ln'], s.ghost[('cur', 0)]), S(S(g['at'], s.ghost[('cur', 0)]), S(g['ln'], s.ghost[('cur', 0)]) - 1 - it), z3.IntVal(0))
            out.append(('it <= chain length', lambda s, it: it <= S(g['ln'], s.ghost[('cur', 0)])))
            for nm, vid, t in L.vars(PTR, mod=True):
                out.append((nm + ' = current node', lambda s, it, vid=vid: z3.And(s.env[vid].o == cur(s, it), s.env[vid].off == 0)))
        else:
            out.append(('it <= bucket count', lambda s, it: it <= self.N0))
        return out

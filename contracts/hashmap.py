"""Contracts of the chained hash containers, generic over the three implementations in the repository."""
from contracts.chain import *


class Impl:
    def __init__(self, fam, names, is_set=False, free_fields=('key_free_func', 'value_free_func'), iter_rec='struct _HashTableIterator', iter_tab='hash_table', flags=()):
        self.fam, self.n, self.is_set, self.free_fields = fam, names, is_set, free_fields
        self.iter_rec, self.iter_tab, self.flags = iter_rec, iter_tab, flags


def start(im, what, opts, **kw):
    c = Ctx(im.n[what], im.fam.path, im.flags, opts=dict(opts, **kw))
    ch = Chain(c, im.fam)
    g = ch.setup()
    return c, ch, g


def frees(im, c, ch, st):
    kf = ch.F(st, im.free_fields[0])
    c.assume(z3.Or(kf == 0, kf == KFF), KFF != HASHF, KFF != EQF)
    if len(im.free_fields) > 1:
        vf = ch.F(st, im.free_fields[1])
        c.assume(z3.Or(vf == 0, vf == VFF), KFF != VFF, VFF != EQF, VFF != HASHF)
    else:
        vf = z3.IntVal(0)
    return kf, vf


def released(c, st, tag, should, what, name):
    fr = [x for t, x in st.log if t == tag]
    c.post(st, name, z3.And(len(fr) <= 1, z3.BoolVal(len(fr) == 1) == should, *[x == what for x in fr]))


def lookup(im):
    def p(opts):
        c, ch, g = start(im, 'lookup', opts)
        k = c.opaque('key')
        cl = C(k.o)
        c.st.ghost['cl'] = cl
        c.eng.loopgen.append(ch.walk)
        st0 = c.st.copy()
        for st, r in c.run(im.n['lookup'], ch.t, k):
            if im.is_set:
                c.post(st, 'reports membership', (r.t != 0) == ch.has(st0, g, cl))
            else:
                c.post(st, 'returns the stored value, NULL when absent', r.o == z3.If(ch.has(st0, g, cl), ch.value(st0, g, cl), 0))
            c.frame(st0, st, [])
        return c
    return p


def map_post(c, ch, st0, st, g, g2, cl, op, v=None):
    """the abstract map after the operation, at an arbitrary class q"""
    q = fresh('q')
    h0, h1 = ch.has(st0, g, q), ch.has(st, g2, q)
    if op == 'remove':
        c.post(st, 'key absent afterwards, other keys stay', h1 == z3.And(h0, q != cl))
        if ch.VL is not None:
            c.post(st, 'other keys keep their value', z3.Implies(z3.And(h0, q != cl), ch.value(st, g2, q) == ch.value(st0, g, q)))
    elif op == 'insert':
        c.post(st, 'key present afterwards, other keys as before', h1 == z3.Or(h0, q == cl))
        if ch.VL is not None:
            c.post(st, 'the key maps to the new value, others keep theirs', z3.Implies(h1, ch.value(st, g2, q) == z3.If(q == cl, v, ch.value(st0, g, q))))
    else:
        c.post(st, 'no key appears or disappears', h1 == h0)
        if ch.VL is not None:
            c.post(st, 'every key keeps its value', z3.Implies(h1, ch.value(st, g2, q) == ch.value(st0, g, q)))


def remove(im):
    def p(opts):
        c, ch, g = start(im, 'remove', opts)
        k = c.opaque('key')
        cl = C(k.o)
        c.st.ghost['cl'] = cl
        kf, vf = frees(im, c, ch, c.st)
        c.eng.loopgen.append(ch.walk)
        st0 = c.st.copy()
        n0 = z3.Select(g['nc'], cl)
        had = ch.has(st0, g, cl)
        for st, r in c.run(im.n['remove'], ch.t, k):
            c.post(st, 'reports whether the key was present', (r.t != 0) == had)
            c.post(st, 'entry count', ch.E(st) == ch.E(st0) - z3.If(had, 1, 0))
            if c.eng.entails(st, r.t == 0):
                ch.post_wf(st, [('unchanged', g, [])])
                g2 = g
            else:
                g2, defs = ghost_remove(g, n0)
                ch.post_wf(st, [('unlinked', g2, defs)])
                st.assume(*defs)
                c.post(st, 'the entry is released', z3.Not(z3.Select(st.alive, n0)))
            map_post(c, ch, st0, st, g, g2, cl, 'remove')
            released(c, st, 'key-free', z3.And(had, kf != 0), ch.key(st0, n0), 'key released exactly once iff registered and removed')
            if ch.VL is not None:
                released(c, st, 'value-free', z3.And(had, vf != 0), ch.val(st0, n0), 'value released exactly once iff registered and removed')
            ch.posts_frame(st0, st, g)
            o = fresh('o')
            c.post(st, 'nothing else is released', z3.Implies(z3.And(z3.Select(st0.alive, o), o != n0), z3.Select(st.alive, o)))
        return c
    return p


def enlarge(im):
    def p(opts):
        c, ch, g = start(im, 'enlarge', opts, malloc_fail=True)
        c.assume(ch.E(c.st) >= 1)
        Rehash(ch, g)
        st0 = c.st.copy()
        for st, r in c.run(im.n['enlarge'], ch.t):
            if c.eng.entails(st, r.t == 0):
                c.post(st, 'a failed growth leaves the table alone', z3.And(ch.T(st) == ch.T(st0), ch.N(st) == ch.N(st0), ch.E(st) == ch.E(st0), st.alive == st0.alive))
                ch.post_wf(st, [('unchanged', g, [])])
            else:
                n = fresh('n')
                g2 = dict(st.ghost['g2'], cin=g['cin'], nc=g['nc'])
                ch.post_wf(st, [('rehashed', g2, [])])
                c.post(st, 'entry count unchanged', ch.E(st) == ch.E(st0))
                c.post(st, 'keys and values kept', z3.Implies(z3.Select(g['cin'], n), z3.And(ch.key(st, n) == ch.key(st0, n), *([ch.val(st, n) == ch.val(st0, n)] if ch.VL is not None else []))))
                o = fresh('o')
                c.post(st, 'only the old array is released, the new one is new', z3.And(
                    z3.Not(z3.Select(st.alive, ch.T(st0))), z3.Not(z3.Select(st0.alive, ch.T(st))),
                    z3.Implies(z3.And(z3.Select(st0.alive, o), o != ch.T(st0)), z3.And(z3.Select(st.alive, o), z3.Select(st.osize, o) == z3.Select(st0.osize, o)))))
            ch.posts_frame(st0, st, g)
        return c
    return p


def enlarge_contract(im, ch):
    """what enlarge() above is proved to do, used at its call sites"""
    def h(eng, st, args, ln):
        c = ch.c
        g = st.ghost['g']
        for nm, f in ch.wf(st, g):
            eng.oblige(st, 'enlarge requires: ' + nm, 'pre', f, ln)
        eng.oblige(st, 'enlarge requires: table in use', 'pre', z3.And(ch.E(st) >= 1, args[0].o == ch.t.o), ln)
        bad = st.copy()
        bad.trace.append('growth fails')
        out = [(bad, IV(0))]
        st0 = st.copy()
        u = c.unit
        S, U = z3.Select, z3.Store
        T0, T2 = ch.T(st0), fresh('T2')
        al, sz, P, P0 = fresh('alive', BOOLMAP), fresh('osize', INTMAP), fresh('P', MEM), ch.P(st0)
        toff = u.field(im.fam.tab, im.fam.table)[0] // 8
        g2 = dict(g, bk=fresh('e_bk', ROW), ps=fresh('e_ps', ROW), at=fresh('e_at', AR2), ln=fresh('e_ln', ROW))
        st.mem['p'] = P
        st.alive, st.osize = al, sz
        M32 = eng.M(st0, 'u32')
        row = S(M32, ch.t.o)
        for f in (im.fam.size, im.fam.prime):
            v = fresh('n32')
            st.assume(v >= 0, v < 2 ** 32)
            row = U(row, u.field(im.fam.tab, f)[0] // 4, v)
        st.mem['u32'] = U(M32, ch.t.o, row)
        o = z3.Int('o?')
        st.assume(T2 > 0, z3.Not(S(st0.alive, T2)), S(P, ch.t.o) == U(S(P0, ch.t.o), toff, T2), z3.Not(S(al, T0)),
                  qall([o], z3.Implies(z3.And(S(st0.alive, o), o != T0), z3.And(S(al, o), S(sz, o) == S(st0.osize, o))), S(al, o), S(st0.alive, o)),
                  qall([o], z3.Implies(z3.And(S(st0.alive, o), o != T0, o != ch.t.o, z3.Not(S(g['cin'], o))), S(P, o) == S(P0, o)), S(P, o)),
                  qall([n_], z3.Implies(S(g['cin'], n_), z3.And(S(S(P, n_), ch.KY) == S(S(P0, n_), ch.KY), *([S(S(P, n_), ch.VL) == S(S(P0, n_), ch.VL)] if ch.VL is not None else []))), S(g['cin'], n_)))
        for nm, f in ch.wf(st, g2):
            st.assume(f)
        st.ghost['g'] = g2
        r = fresh('r')
        st.assume(r != 0)
        st.trace.append('growth succeeds')
        out.append((st, IV(r)))
        return out
    return h


def insert(im):
    def p(opts):
        c, ch, g = start(im, 'insert', opts, malloc_fail=True)
        k, v = c.opaque('key'), c.opaque('value')
        cl = C(k.o)
        c.st.ghost['cl'] = cl
        kf, vf = frees(im, c, ch, c.st)
        c.eng.loopgen.append(ch.walk)
        if im.n['enlarge'] in c.unit.funcs and not opts.get('unroll'):
            c.eng.contracts[im.n['enlarge']] = enlarge_contract(im, ch)
        elif opts.get('unroll'):
            c.assume(ch.E(c.st) == 0)
        st0 = c.st.copy()
        n0 = z3.Select(g['nc'], cl)
        had = ch.has(st0, g, cl)
        args = [ch.t, k] if im.is_set else [ch.t, k, v]
        for st, r in c.run(im.n['insert'], *args):
            ge = st.ghost['g']
            n = fresh('n')
            if not st.ghost.get('new') and c.eng.entails(st, r.t == 0):
                # nothing inserted: refused (set) or out of memory
                ch.post_wf(st, [('unchanged', ge, [])])
                map_post(c, ch, st0, st, g, ge, cl, 'none')
                c.post(st, 'entry count', ch.E(st) == ch.E(st0))
                if im.is_set:
                    oom = any('fails' in t for t in st.trace)
                    c.post(st, 'refused only when present or out of memory', z3.Or(had, z3.BoolVal(oom)))
                else:
                    c.post(st, 'refused only when out of memory', z3.BoolVal(any('fails' in t for t in st.trace)))
                c.post(st, 'nothing released', z3.BoolVal(not [x for x in st.log if x[0] in ('key-free', 'value-free')]))
                continue
            c.post(st, 'reports success', r.t != 0)
            c.post(st, 'entry count', ch.E(st) == ch.E(st0) + z3.If(had, 0, 1))
            b = ch.bucket(st, cl)
            new = [o for o in news(st) ]
            alts = []
            if new:
                for o in new:
                    alts.append(('prepended',) + ghost_prepend(ge, b, o, cl))
                    alts.append(('appended',) + ghost_append(ge, b, o, cl))
            else:
                alts.append(('key replaced',) + ghost_key(ge, n0, cl))
            lab = pick(c, ch, st, alts)
            ch.post_wf(st, [lab])
            st.assume(*lab[2])
            map_post(c, ch, st0, st, g, lab[1], cl, 'insert', v.o)
            if im.is_set:
                c.post(st, 'accepted only when absent', z3.Not(had))
                c.post(st, 'nothing released', z3.BoolVal(not [x for x in st.log if x[0] in ('key-free', 'value-free')]))
            else:
                released(c, st, 'key-free', z3.And(had, kf != 0), ch.key(st0, n0), 'old key released exactly once iff registered and replaced')
                released(c, st, 'value-free', z3.And(had, vf != 0), ch.val(st0, n0), 'old value released exactly once iff registered and replaced')
            if not any('growth' in t for t in st.trace):
                ch.posts_frame(st0, st, g)
        return c
    return p


def news(st):
    """objects allocated on this path and still alive"""
    out, al = [], st.alive
    while z3.is_store(al):
        if z3.is_true(al.arg(2)):
            out.append(al.arg(1))
        al = al.arg(0)
    dead = []
    al = st.alive
    while z3.is_store(al):
        if z3.is_false(al.arg(2)):
            dead.append(al.arg(1))
        al = al.arg(0)
    return [o for o in out if not any(o.eq(d) for d in dead) and 'malloc' in str(o)]


def pick(c, ch, st, alts):
    """the first ghost witness the prover accepts (cheap pass); the obligation is then stated for it"""
    for a in alts:
        if all(solve.prove(st.pc + list(a[2]), f, 4.0, want_model=False, fast=True)[0] == 'proved' for _, f in ch.wf(st, a[1])):
            return a
    return alts[0]


def new(im):
    def p(opts):
        c = Ctx(im.n['new'], im.fam.path, im.flags, opts=dict(opts, malloc_fail=True))
        c.assume(HASHF > 0, EQF > 0)
        st0 = c.st.copy()
        for st, r in c.run(im.n['new'], PV(HASHF), PV(EQF)):
            if c.eng.entails(st, r.o == 0):
                o = fresh('o')
                c.post(st, 'nothing leaks when out of memory', z3.Select(st.alive, o) == z3.Select(st0.alive, o))
                continue
            ch = Chain(c, im.fam, 'unused')
            ch.t = r
            z = z3.K(I, z3.IntVal(0))
            g = dict(cin=z3.K(I, z3.BoolVal(False)), bk=z, ps=z, at=fresh('at', AR2), ln=z, nc=z)
            ch.post_wf(st, [('empty', g, [])])
            c.post(st, 'no entries', ch.E(st) == 0)
            c.post(st, 'functions installed, nothing registered for freeing', z3.And(ch.F(st, 'hash_func') == HASHF, ch.F(st, 'equal_func') == EQF, *[ch.F(st, f) == 0 for f in im.free_fields]))
            c.frame(st0, st, [])
        return c
    return p


def register(im):
    def p(opts):
        c, ch, g = start(im, 'register', opts)
        st0 = c.st.copy()
        a = [PV(KFF), PV(VFF)][:len(im.free_fields)]
        for st, _ in c.run(im.n['register'], ch.t, *a):
            c.post(st, 'functions registered', z3.And(*[ch.F(st, f) == x.o for f, x in zip(im.free_fields, a)]))
            ch.post_wf(st, [('unchanged', g, [])])
            c.post(st, 'entry count', ch.E(st) == ch.E(st0))
        return c
    return p


def num_entries(im):
    def p(opts):
        c, ch, g = start(im, 'num_entries', opts)
        st0 = c.st.copy()
        for st, r in c.run(im.n['num_entries'], ch.t):
            c.post(st, 'returns the count', r.t == ch.E(st0))
            c.frame(st0, st, [])
        return c
    return p


def scan(ch):
    """buckets passed over by the scan are empty"""
    def gen(L):
        E = L.entry
        S = z3.Select
        row = S(ch.P(E), ch.T(E))
        out = []
        for nm, vid, t in L.vars(INT, mod=True):
            v0 = E.env[vid]
            if not isinstance(v0, IV):
                continue
            out.append(('buckets below %s empty' % nm, lambda s, it, vid=vid, a=v0.t: qall([b_], z3.Implies(z3.And(a <= b_, b_ < s.env[vid].t), S(row, b_) == 0), S(row, b_))))
        return out
    return gen


def first_post(c, ch, st, g, nx, chain, lo, st0):
    """(nx, chain) is the head of the first nonempty bucket >= lo, or NULL when there is none"""
    S = z3.Select
    b = fresh('b')
    N = ch.N(st0)
    c.post(st, 'NULL exactly when every later bucket is empty', z3.Implies(z3.And(nx == 0, lo <= b, b < N), S(g['ln'], b) == 0))
    c.post(st, 'otherwise the head of the first nonempty bucket', z3.Implies(nx != 0, z3.And(
        lo <= chain, chain < N, S(g['ln'], chain) > 0, nx == S(S(g['at'], chain), S(g['ln'], chain) - 1), z3.Implies(z3.And(lo <= b, b < chain), S(g['ln'], b) == 0))))


def iterate(im):
    def p(opts):
        c, ch, g = start(im, 'iterate', opts)
        itr = c.struct('iter', im.iter_rec)
        c.assume(itr.o != ch.t.o, z3.Not(z3.Select(g['cin'], itr.o)), itr.o != ch.T(c.st))
        c.eng.loopgen.append(scan(ch))
        st0 = c.st.copy()
        for st, _ in c.run(im.n['iterate'], ch.t, itr):
            nx, chain = c.fld(st, itr, im.iter_rec, 'next_entry'), c.fld(st, itr, im.iter_rec, 'next_chain')
            c.post(st, 'iterator bound to the container', c.fld(st, itr, im.iter_rec, im.iter_tab) == ch.t.o)
            first_post(c, ch, st, g, nx, chain, z3.IntVal(0), st0)
            c.frame(st0, st, [itr.o])
        return c
    return p


def iter_next(im):
    def p(opts):
        c, ch, g = start(im, 'iter_next', opts)
        itr = c.struct('iter', im.iter_rec)
        st0 = c.st
        S = z3.Select
        F = lambda st, f: c.fld(st, itr, im.iter_rec, f)
        c.assume(itr.o != ch.t.o, z3.Not(S(g['cin'], itr.o)), itr.o != ch.T(c.st), F(c.st, im.iter_tab) == ch.t.o)
        cur, chain = F(c.st, 'next_entry'), F(c.st, 'next_chain')
        c.assume(chain >= 0, chain < 2 ** 32, z3.Or(cur == 0, z3.And(S(g['cin'], cur), S(g['bk'], cur) == chain)))
        # the 32-bit bucket index: table_size is at most 2^32-1
        c.eng.loopgen.append(scan(ch))
        st0 = c.st.copy()
        h = S(g['ps'], cur)
        for st, r in c.run(im.n['iter_next'], itr):
            if im.is_set:
                c.post(st, 'returns the current element', r.o == z3.If(cur == 0, 0, ch.key(st0, cur)))
            else:
                kv = pairvals(c, st, r)
                c.post(st, 'returns the current pair', z3.And(kv[0] == z3.If(cur == 0, 0, ch.key(st0, cur)), kv[1] == z3.If(cur == 0, 0, ch.val(st0, cur))))
            nx, ch2 = F(st, 'next_entry'), F(st, 'next_chain')
            c.post(st, 'stays at the end', z3.Implies(cur == 0, nx == 0))
            c.post(st, 'advances within the bucket', z3.Implies(z3.And(cur != 0, h > 0), z3.And(nx == S(S(g['at'], chain), h - 1), ch2 == chain)))
            b = fresh('b')
            N = ch.N(st0)
            last = z3.And(cur != 0, h == 0)
            c.post(st, 'ends only when every later bucket is empty', z3.Implies(z3.And(last, nx == 0, chain < b, b < N), S(g['ln'], b) == 0))
            c.post(st, 'otherwise moves to the head of the next nonempty bucket', z3.Implies(z3.And(last, nx != 0), z3.And(
                chain < ch2, ch2 < N, S(g['ln'], ch2) > 0, nx == S(S(g['at'], ch2), S(g['ln'], ch2) - 1), z3.Implies(z3.And(chain < b, b < ch2), S(g['ln'], b) == 0))))
            c.frame(st0, st, [itr.o])
        return c
    return p


def pairvals(c, st, r):
    vals = []
    for lo, lt in c.eng.leaves(r.t):
        tmp = State.copy(st)
        tmp.mem = dict(r.mem)
        vals.append(c.eng.load(tmp, r.o, r.off + lo, lt, check=False).o)
    return vals


def has_more(im):
    def p(opts):
        c = Ctx(im.n['has_more'], im.fam.path, im.flags, opts=opts)
        itr = c.struct('iter', im.iter_rec)
        st0 = c.st.copy()
        for st, r in c.run(im.n['has_more'], itr):
            c.post(st, 'true exactly when an element is left', (r.t != 0) == (c.fld(st0, itr, im.iter_rec, 'next_entry') != 0))
            c.frame(st0, st, [])
        return c
    return p


class Release:
    """free(): every node is released exactly once, with its registered callbacks, and nothing else is."""

    def __init__(self, im, ch, g):
        self.im, self.ch, self.g = im, ch, g
        ch.c.eng.loopgen.append(self.cands)
        self.st0 = ch.c.st.copy()

    def node(self, i, it):
        S, g = z3.Select, self.g
        return S(S(g['at'], i), S(g['ln'], i) - 1 - it)

    def cands(self, L):
        ch, g, S = self.ch, self.g, z3.Select
        if L.depth > 1:
            return []
        depth, st0 = L.depth, self.st0

        def gone(s, it, n):
            if depth == 0:
                return z3.And(S(g['cin'], n), S(g['bk'], n) < it)
            i = s.ghost[('cur', 0)]
            return z3.And(S(g['cin'], n), z3.Or(S(g['bk'], n) < i, z3.And(S(g['bk'], n) == i, S(g['ps'], n) >= S(g['ln'], i) - it)))
        out = [('exactly the visited nodes are released', lambda s, it: qall([n_], S(s.alive, n_) == z3.And(S(st0.alive, n_), z3.Not(gone(s, it, n_))), S(s.alive, n_))),
               ('sizes kept', lambda s, it: qall([n_], S(s.osize, n_) == S(st0.osize, n_), S(s.osize, n_)))]
        if depth == 1:
            i_ = lambda s: s.ghost[('cur', 0)]
            cur = lambda s, it: z3.If(it < S(g['ln'], i_(s)), self.node(i_(s), it), z3.IntVal(0))
            out.append(('it <= chain length', lambda s, it: it <= S(g['ln'], i_(s))))
            for nm, vid, t in L.vars(PTR, mod=True):
                out.append((nm + ' = current node', lambda s, it, vid=vid: z3.And(s.env[vid].o == cur(s, it), s.env[vid].off == 0)))
        else:
            out.append(('it <= bucket count', lambda s, it: it <= ch.N(st0)))
        return out


def free_all(im):
    def p(opts):
        c, ch, g = start(im, 'free', opts)
        kf, vf = frees(im, c, ch, c.st)
        rl = Release(im, ch, g)
        st0 = rl.st0

        def back(L, s, it):
            if L.depth != 1 or opts.get('unroll'):
                return
            n = rl.node(s.ghost[('cur', 0)], it)
            n0 = len(L.entry.log)
            s2 = s.copy()
            s2.log = s.log[n0:]
            released(c, s2, 'key-free', kf != 0, ch.key(st0, n), 'each key released exactly once iff registered')
            if ch.VL is not None:
                released(c, s2, 'value-free', vf != 0, ch.val(st0, n), 'each value released exactly once iff registered')
        c.eng.o['on_backedge'] = back
        for st, _ in c.run(im.n['free'], ch.t):
            o = fresh('o')
            mine = z3.Or(z3.Select(g['cin'], o), o == ch.t.o, o == ch.T(st0))
            c.post(st, 'everything the container owns is released, nothing else', z3.Select(st.alive, o) == z3.And(z3.Select(st0.alive, o), z3.Not(mine)))
            c.frame(st0, st, [])
        return c
    return p


def all_proofs(im, tag=''):
    out = []
    for nm, f in [('new', new), ('lookup', lookup), ('insert', insert), ('remove', remove), ('enlarge', enlarge), ('free', free_all), ('register', register),
                  ('num_entries', num_entries), ('iterate', iterate), ('iter_next', iter_next), ('has_more', has_more)]:
        out.append((tag + nm, f(im)))
    return out

"""P10: the counting Bloom filter never loses an element."""
from vf.proof import *
from vf import cbmc
from vf.cast import REPO
D_ = 'src/server/dablooms/'
F = D_ + 'pdc_dablooms.c'
R = 'counting_bloom_t'
k, j = z3.Int('k?'), z3.Int('j?')
H = uf('hash', 1)     # the i-th hash of the key at hand


def bloom(c, hashes=True):
    b = c.struct('bloom', R)
    g = lambda f: c.fld(c.st, b, R, f)
    n, cpf, off = g('nfuncs'), g('counts_per_func'), g('offset')
    c.assume(n >= 0, n < 2 ** 16, cpf >= 1, n * cpf < 2 ** 31, cpf < 2 ** 31, off >= 0, off < 2 ** 40)
    hs = c.obj('hashes', 4 * n)
    bm = c.struct('bitmap', 'bitmap_t')
    hd = c.struct('header', 'counting_bloom_header_t')
    c.point(c.st, b, R, 'hashes', hs), c.point(c.st, b, R, 'bitmap', bm), c.point(c.st, b, R, 'header', hd)
    s = c.opaque('s')
    c.distinct(b, hs, bm, hd)
    ln = c.int('len', 'size_t')
    c.b, c.n, c.cpf, c.off, c.hs, c.bm, c.hd = b, n, cpf, off, hs, bm, hd
    # counters, as a ghost object: cell i is counter i
    c.cnt = c.obj('counters', z3.Int('ghost_size'))
    c.assume(z3.Int('ghost_size') >= 2 ** 33)
    c.C = lambda st: c.row(st, 'u32', c.cnt.o)
    c.assume(qall([k], z3.And(z3.Select(c.C(c.st), k) >= 0, z3.Select(c.C(c.st), k) <= 15), z3.Select(c.C(c.st), k)))
    c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(H(k) >= 0, H(k) < cpf)), H(k)))
    # slice i belongs to hash i alone
    SL = uf('slice', 1)
    c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(SL(H(k) + k * cpf) == k)), H(k)), qall([k], z3.Implies(z3.And(0 <= k, k < n), k * cpf + cpf <= n * cpf), H(k)))
    c.SL = SL
    # that such a numbering of slices exists: index / counts_per_func

    def h_hash(eng, st, a, line):
        eng.oblige(st, 'hash_func: of this filter, key and length into its hashes', 'pre', z3.And(a[0].o == b.o, a[1].o == s.o, a[2].t == ln.t, a[3].o == hs.o, a[3].off == 0), line)
        row = fresh('hashes', ROW)
        st.assume(qall([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(row, k) == H(k)), z3.Select(row, k)), qall([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(row, k) == H(k)), H(k)))
        st.mem['u32'] = z3.Store(eng.M(st, 'u32'), hs.o, row)
        eng.note_write('u32', hs.o)
        return [(st, None)]
    c.eng.contracts['hash_func'] = h_hash

    def bit(kind):
        def h(eng, st, a, line):
            ix = a[1].t
            eng.oblige(st, 'bitmap: the counters of this filter', 'pre', z3.And(a[0].o == bm.o, a[2].t == off, ix >= 0, ix < n * cpf), line)
            v = z3.Select(c.C(st), ix)
            if kind == 'check':
                r = fresh('set')
                st.assume((r != 0) == (v != 0))
                return [(st, IV(r))]
            new = z3.If(v == 15, 15, v + 1) if kind == 'inc' else z3.If(v == 0, 0, v - 1)
            st.mem['u32'] = z3.Store(eng.M(st, 'u32'), c.cnt.o, z3.Store(c.C(st), ix, new))
            eng.note_write('u32', c.cnt.o)
            r = fresh('ret')
            return [(st, IV(r))]
        return h
    c.eng.contracts.update(bitmap_increment=bit('inc'), bitmap_decrement=bit('dec'), bitmap_check=bit('check'))
    return b, s, ln


def update(kind):
    def proof(opts):
        fn = 'counting_bloom_' + kind
        c = Ctx(fn, F, opts=dict(opts, wrap_mul='check'))
        b, s, ln = bloom(c)
        C0 = c.C(c.st)
        IX = lambda i: H(i) + i * c.cpf
        f = (lambda v: z3.If(v == 15, 15, v + 1)) if kind == 'add' else (lambda v: z3.If(v == 0, 0, v - 1))

        def gen(L):
            g = [('it <= nfuncs', lambda st, it: it <= c.n),
                 ('the counters of the first it hashes are updated', lambda st, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), z3.Select(c.C(st), IX(k)) == f(z3.Select(C0, IX(k)))), H(k))),
                 ('the counters of the other hashes are as before', lambda st, it: qall([k], z3.Implies(z3.And(it <= k, k < c.n), z3.Select(c.C(st), IX(k)) == z3.Select(C0, IX(k))), H(k))),
                 ('no other counter is changed', lambda st, it: qall([j], z3.Or(z3.Select(c.C(st), j) == z3.Select(C0, j), z3.And(0 <= c.SL(j), c.SL(j) < it, j == IX(c.SL(j)))), z3.Select(c.C(st), j)))]
            for nm, vid, t in L.vars(INT):
                g.append(('%s = it' % nm, lambda st, it, vid=vid: st.env[vid].t == it))
            return g
        c.eng.loopgen.append(gen)
        i, x = fresh('i'), fresh('x')
        st0 = c.st.copy()
        n0 = c.fld(c.st, c.hd, 'counting_bloom_header_t', 'count')
        c.assume(n0 >= 1, n0 < 2 ** 32 - 1)
        for st, r in c.run(fn, b, s, ln):
            inr = z3.And(0 <= i, i < c.n)
            c.post(st, 'every counter of the key is %s' % ('incremented (up to 15)' if kind == 'add' else 'decremented (down to 0)'), z3.Implies(inr, z3.Select(c.C(st), IX(i)) == f(z3.Select(C0, IX(i)))))
            c.post(st, 'no other counter is changed', z3.Or(z3.Select(c.C(st), x) == z3.Select(C0, x), z3.And(0 <= c.SL(x), c.SL(x) < c.n, x == IX(c.SL(x)))))
            c.post(st, 'the number of elements is counted', c.fld(st, c.hd, 'counting_bloom_header_t', 'count') == n0 + (1 if kind == 'add' else -1))
            c.frame(st0, st, [c.cnt.o, c.hs.o, c.hd.o])
        return c
    return proof


def check(opts):
    c = Ctx('counting_bloom_check', F, opts=dict(opts, wrap_mul='check'))
    b, s, ln = bloom(c)
    C0 = c.C(c.st)
    IX = lambda i: H(i) + i * c.cpf

    def gen(L):
        g = [('it <= nfuncs', lambda st, it: it <= c.n), ('the first it counters are set', lambda st, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), z3.Select(C0, IX(k)) != 0), H(k)))]
        for nm, vid, t in L.vars(INT):
            g.append(('%s = it' % nm, lambda st, it, vid=vid: st.env[vid].t == it))
        return g
    c.eng.loopgen.append(gen)
    i = fresh('i')
    st0 = c.st.copy()
    for st, r in c.run('counting_bloom_check', b, s, ln):
        c.post(st, 'present only if every counter of the key is set', z3.Implies(z3.And(r.t != 0, 0 <= i, i < c.n), z3.Select(C0, IX(i)) != 0))
        q = z3.Int('q?')
        c.post(st, 'absent only if some counter of the key is 0', z3.Implies(r.t == 0, z3.Exists([q], z3.And(0 <= q, q < c.n, z3.Select(C0, IX(q)) == 0), patterns=[H(q)])))
        c.frame(st0, st, [c.hs.o])
    return c


def hashing(opts):
    c = Ctx('hash_func', F, opts=dict(opts))
    b = c.struct('bloom', R)
    n, cpf = c.fld(c.st, b, R, 'nfuncs'), c.fld(c.st, b, R, 'counts_per_func')
    c.assume(n >= 0, n < 2 ** 16, cpf >= 1, cpf < 2 ** 31)
    key = c.opaque('key')
    ln = c.int('key_len', 'size_t')
    c.assume(ln.t < 2 ** 31)
    out = c.obj('out', 4 * n)
    c.distinct(b, out)
    M = uf('murmur', 1)

    def murmur(eng, st, a, line):
        eng.oblige(st, 'the key and its whole length are hashed', 'pre', z3.And(a[0].o == key.o, a[1].t == ln.t), line)
        for i in range(4):
            st.assume(M(z3.IntVal(i)) >= 0, M(z3.IntVal(i)) < 2 ** 32)
            eng.store(st, a[3].o, a[3].off + 4 * i, (INT, 32, False), IV(M(z3.IntVal(i))))
        return [(st, None)]
    c.eng.contracts['MurmurHash3_x64_128'] = murmur
    at = lambda st, i: z3.Select(c.row(st, 'u32', out.o), i)
    HV = lambda i: UMOD(UMOD(M(z3.IntVal(0)) + UMOD(i * M(z3.IntVal(1)), 2 ** 64), 2 ** 64), cpf)

    def gen(L):
        g = [('it <= nfuncs', lambda st, it: it <= n), ('in range', lambda st, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), z3.And(at(st, k) >= 0, at(st, k) < cpf)), at(st, k)))]
        for nm, vid, t in L.vars(INT):
            g.append(('%s = it' % nm, lambda st, it, vid=vid: st.env[vid].t == it))
        return g
    c.eng.loopgen.append(gen)
    i = fresh('i')
    st0 = c.st.copy()
    for st, r in c.run('hash_func', b, key, ln, out):
        c.post(st, 'every hash is within its slice', z3.Implies(z3.And(0 <= i, i < n), z3.And(at(st, i) >= 0, at(st, i) < cpf)))
        c.frame(st0, st, [out.o])
    return c


S = 'scaling_bloom_t'


def scaling(c):
    """a scaling filter: an array of sub-filters, each with a header; sub(i) is the i-th"""
    z = c.struct('scaling', S)
    n = c.fld(c.st, z, S, 'num_blooms')
    c.assume(n >= 0, n < 2 ** 28)
    arr = c.obj('blooms', 8 * n)
    c.point(c.st, z, S, 'blooms', arr)
    s = c.opaque('s')
    ln = c.int('len', 'size_t')
    sub = lambda i: z3.Select(c.row(c.st, 'p', arr.o), i)
    hdr = lambda i: c.fld(c.st, PV(sub(i), 0), R, 'header')
    hid = lambda i: c.fld(c.st, PV(hdr(i), 0), 'counting_bloom_header_t', 'id')
    szs, szh = c.sizeof(R), c.sizeof('counting_bloom_header_t')
    ok = lambda o, sz: z3.And(o > 0, z3.Select(c.st.alive, o), z3.Select(c.st.osize, o) == sz)
    c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(ok(sub(k), szs), ok(hdr(k), szh), hid(k) >= 0)), sub(k)))
    c.distinct(z, arr)
    return z, n, s, ln, sub, hid


def bind(c, z, n, s, ln, kind):
    """contract of the counting-filter operation; `calls` records which sub-filter was operated on"""
    HAS = uf('holds_key', 1)

    def h(eng, st, a, line):
        eng.oblige(st, 'the key and its whole length are passed on', 'pre', z3.And(a[1].o == s.o, a[1].off == s.off, a[2].t == ln.t), line)
        if kind == 'check':
            r = fresh('found')
            st.assume((r != 0) == (HAS(a[0].o) != 0))
            return [(st, IV(r))]
        st.ghost_called = getattr(st, 'ghost_called', ()) + (a[0].o,)
        st.env['#called'] = PV(a[0].o, 0)
        return [(st, IV(0))]
    c.eng.contracts['counting_bloom_' + kind] = h
    return HAS


def scaling_check(opts):
    c = Ctx('scaling_bloom_check', F, opts=dict(opts))
    z, n, s, ln, sub, hid = scaling(c)
    HAS = bind(c, z, n, s, ln, 'check')

    def gen(L):
        g = [('it <= num_blooms', lambda st, it: it <= n)]
        for nm, vid, t in L.vars(INT):
            g += [('%s = num_blooms - 1 - it' % nm, lambda st, it, vid=vid: st.env[vid].t == n - 1 - it), ('%s = it' % nm, lambda st, it, vid=vid: st.env[vid].t == it)]
        g += [('no key in the last it', lambda st, it: qall([k], z3.Implies(z3.And(n - it <= k, k < n), HAS(sub(k)) == 0), sub(k))),
              ('no key in the first it', lambda st, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), HAS(sub(k)) == 0), sub(k)))]
        return g
    c.eng.loopgen.append(gen)
    i = fresh('i')
    st0 = c.st.copy()
    for st, r in c.run('scaling_bloom_check', z, s, ln):
        c.post(st, 'absent only if no sub-filter holds the key', z3.Implies(z3.And(r.t == 0, 0 <= i, i < n), HAS(sub(i)) == 0))
        q = z3.Int('q?')
        c.post(st, 'present only if some sub-filter holds the key', z3.Implies(r.t != 0, z3.Exists([q], z3.And(0 <= q, q < n, HAS(sub(q)) != 0), patterns=[sub(q)])))
        c.frame(st0, st, [])
    return c


def resize(opts):
    c = Ctx('bitmap_resize', F, opts=dict(opts, malloc_fail=True))
    b = c.struct('bitmap', 'bitmap_t')
    old = c.fld(c.st, b, 'bitmap_t', 'bytes')
    a0 = c.fld(c.st, b, 'bitmap_t', 'array')
    nw = c.int('new_size', 'size_t')
    c.assume(old >= 0, old < 2 ** 40, nw.t >= 1, nw.t < 2 ** 40, nw.t >= old, a0 != b.o)
    c.assume(z3.Or(z3.And(a0 == 0, old == 0), z3.And(a0 > 0, z3.Select(c.st.alive, a0), z3.Select(c.st.osize, a0) == old)))
    row0 = c.row(c.st, 'b', a0)
    i = fresh('i')
    st0 = c.st.copy()
    for st, r in c.run('bitmap_resize', b, nw):
        a1 = c.fld(st, b, 'bitmap_t', 'array')
        good = r.o != 0
        c.post(st, 'the bitmap has the new size', z3.Implies(good, z3.And(r.o == b.o, c.fld(st, b, 'bitmap_t', 'bytes') == nw.t, a1 > 0, z3.Select(st.alive, a1), z3.Select(st.osize, a1) == nw.t)))
        c.post(st, 'old counters are kept', z3.Implies(z3.And(good, 0 <= i, i < old), z3.Select(c.row(st, 'b', a1), i) == z3.Select(row0, i)))
        c.post(st, 'new counters are zero', z3.Implies(z3.And(good, old <= i, i < nw.t), z3.Select(c.row(st, 'b', a1), i) == 0))
        c.post(st, 'a failure leaves the bitmap as it was', z3.Implies(r.o == 0, z3.And(a1 == a0, c.fld(st, b, 'bitmap_t', 'bytes') == old)))
        c.frame(st0, st, [b.o, a0])
    return c


FL = []
cb = lambda n, fns, **kw: (n, cbmc.proof(n, 'p10.c', [F], fns=fns, extra=['--sat-solver', 'cadical'], **kw))
PROOFS = [('counting_bloom_add', update('add')), ('counting_bloom_remove', update('remove')), ('counting_bloom_check', check), ('hash_func', hashing), ('scaling_bloom_check', scaling_check), ('bitmap_resize', resize),
          cb('increment', ['bitmap_increment', 'bitmap_check']), cb('decrement', ['bitmap_decrement', 'bitmap_check'])]
NATIVE = dict(src='native/p10_bloom.c', repo=[F, D_ + 'pdc_murmur.c'], time=8)
LEVEL = 'proof'
RULE = 'random histories of add/remove/check on counting filters and of add/remove with non-decreasing ids on scaling filters against an exact model; false-positive rate on full filters'
ASSUMPTIONS = ['no 4-bit counter is driven past 15 (the code saturates and says so; then removal may lose other keys)', 'keys shorter than 2^31 bytes (MurmurHash3 takes an int)',
               'ids given to a scaling filter do not decrease, and an element is removed with the id it was added with',
               'counters are a ghost array in the add/remove/check contracts; its refinement to nibbles of bitmap->array is the cbmc contract of bitmap_increment/decrement/check',
               'the floating-point sizing in counting_bloom_init and the composition of sub-filters on growth are decided by the native contract only']
TRUSTED = ['MurmurHash3_x64_128 is a function of the key bytes (contract assumed in hash_func, exercised natively)']

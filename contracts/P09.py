"""P09: DART routing: what an insert places is reached by the searches and deletes of its key."""
from vf.proof import *
from vf.cast import REPO

D_ = 'src/commons/index/dart/'
F, FM = D_ + 'dart_core.c', D_ + 'dart_math.c'
R = 'DART'
k = z3.Int('k?')
P, DIG, B, SID = uf('powA', 1), uf('digit', 1), uf('baseval', 1), uf('server_of', 1)
O = dict(wrap_mul='check', name_mul=True)
REHASH = 'get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2'


def dart(c):
    d = c.struct('dart', R)
    g = lambda f: c.fld(c.st, d, R, f)
    A, H, RF, S, V, Q = [g(x) for x in ('alphabet_size', 'dart_tree_height', 'replication_factor', 'num_server', 'num_vnode', 'client_request_count')]
    for f in ('alphabet_size', 'dart_tree_height', 'replication_factor', 'num_server', 'num_vnode', 'client_request_count'):
        c.field_range(R, d, f)
    c.assume(A >= 2, A < 2 ** 16, H >= 1, H < 2 ** 10, RF >= 1, RF < 2 ** 10, S >= 1, S < 2 ** 28, V < 2 ** 31, V >= S)
    RS = UDIV(V, A)
    c.assume(P(z3.IntVal(0)) == 1, P(H) == V, P(H) == A * P(H - 1), RS == P(H - 1), P(H - 1) >= 1, V == A * RS)
    c.d, c.A, c.H, c.RF, c.S, c.V, c.Q, c.RS = d, A, H, RF, S, V, Q, RS
    return d


def powers(c):
    """P(k) = A^k"""
    c.assume(qall([k], z3.Implies(k >= 1, z3.And(P(k) == c.A * P(k - 1), P(k - 1) >= 1, P(k) >= c.A)), P(k)),
             qall([k], z3.Implies(z3.And(0 <= k, k <= c.H), P(k) <= c.V), P(k)))


def cstr(c, name):
    n, size = z3.Int(name + '_len'), z3.Int(name + '_size')
    c.assume(n >= 0, size > n, size < 2 ** 31)
    p = c.obj(name, size)
    Rw = c.row(c.st, 'b', p.o)
    c.assume(qall([k], z3.And(z3.Select(Rw, k) >= 0, z3.Select(Rw, k) <= 255), z3.Select(Rw, k)),
             qall([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(Rw, k) != 0), z3.Select(Rw, k)), z3.Select(Rw, n) == 0)
    return p, n, Rw


def digits(c, n, Rw):
    """digit i of the base node: the i-th character, the last one repeated"""
    ix = lambda i: z3.If(i < n, i, n - 1)
    c.assume(qall([k], z3.Implies(k >= 0, z3.And(DIG(k) == z3.If(n == 0, 0, UMOD(z3.Select(Rw, ix(k)), c.A)), DIG(k) >= 0, DIG(k) < c.A)), DIG(k)),
             B(z3.IntVal(0)) == 0, qall([k], z3.Implies(z3.And(0 <= k, k < c.H), B(k + 1) == B(k) + DIG(k) * P(c.H - 1 - k)), DIG(k)))


# ---- base^pow ----
def upow(opts):
    c = Ctx('uint32_pow', FM, opts=dict(opts, **O))
    a, e = c.int('base', 'uint32_t'), c.int('pow', 'uint32_t')
    G = uf('ipow', 1)
    c.assume(G(z3.IntVal(0)) == 1, qall([k], z3.Implies(k >= 0, G(k + 1) == G(k) * a.t), G(k)), qall([k], z3.Implies(z3.And(0 <= k, k <= e.t), z3.And(G(k) >= 0, G(k) < 2 ** 32)), G(k)))

    def gen(L):
        out = [('it <= pow', lambda s, it: it <= e.t)]
        for nm, vid, t in L.vars(INT):
            out.append(('%s = base^it' % nm, lambda s, it, vid=vid: s.env[vid].t == G(it)))
        return out
    c.eng.loopgen.append(gen)
    for st, r in c.run('uint32_pow', a, e):
        c.post(st, 'base to the power', r.t == G(e.t))
    return c


def k_pow(c):
    def h(eng, st, args, ln):
        b, e = args[0].t, args[1].t
        eng.oblige(st, 'uint32_pow: called on the alphabet size with an exponent below the height', 'pre', z3.And(b == c.A, e >= 0, e <= c.H), ln)
        return [(st, IV(P(e)))]
    c.eng.contracts['uint32_pow'] = h


# ---- base node ----
def base(opts):
    c = Ctx('get_base_virtual_node_id_by_string', F, opts=dict(opts, htmo=8.0, **O))
    dart(c)
    powers(c)
    w, n, Rw = cstr(c, 'word')
    digits(c, n, Rw)
    k_pow(c)
    A, H = c.A, c.H

    def gen(L):
        out = [('it <= height', lambda s, it: it <= H),
               ('digit step', lambda s, it: z3.Implies(z3.And(it >= 0, it < H), z3.And(B(it + 1) == B(it) + DIG(it) * P(H - 1 - it), DIG(it) >= 0, DIG(it) <= A - 1, P(H - it) == A * P(H - 1 - it),
                                                                                       DIG(it) * P(H - 1 - it) <= P(H - it) - P(H - 1 - it), DIG(it) * P(H - 1 - it) >= 0, P(H - 1 - it) >= 1))),
               ('base value in range', lambda s, it: z3.And(B(it) >= 0, B(it) <= P(H) - P(H - it))),
               ('base value in the region of the first character', lambda s, it: z3.Implies(it >= 1, z3.And(B(it) >= DIG(z3.IntVal(0)) * P(H - 1),
                                                                                                         B(it) <= DIG(z3.IntVal(0)) * P(H - 1) + P(H - 1) - P(H - it))))]
        for nm, vid, t in L.vars(INT):
            out.append(('%s = base value of the first it characters' % nm, lambda s, it, vid=vid: s.env[vid].t == B(it)))
            out.append(('%s = last digit' % nm, lambda s, it, vid=vid: s.env[vid].t == z3.If(it == 0, 0, DIG(it - 1))))
            out.append(('%s = past the end' % nm, lambda s, it, vid=vid: s.env[vid].t == z3.If(it > n, 1, 0)))
            out.append(('%s = 1 + it' % nm, lambda s, it, vid=vid: s.env[vid].t == it + 1))
            out.append(('%s = it' % nm, lambda s, it, vid=vid: s.env[vid].t == it))
        return out
    c.eng.loopgen.append(gen)
    st0 = c.st.copy()
    for st, r in c.run('get_base_virtual_node_id_by_string', c.d, w):
        c.post(st, 'the number whose digits are the first characters of the key (the last one repeated)', r.t == B(H))
        c.post(st, 'an existing virtual node', z3.And(r.t >= 0, r.t < c.V))
        c.post(st, 'in the region of the first character', z3.And(r.t >= DIG(z3.IntVal(0)) * c.RS, r.t < (DIG(z3.IntVal(0)) + 1) * c.RS))
        c.frame(st0, st, [])
    return c


# ---- virtual node -> server ----
def server(opts):
    c = Ctx('get_server_id_by_vnode_id', F, opts=dict(opts, **O))
    dart(c)
    per = UDIV(c.V, c.S)
    v, w = c.int('v'), c.int('w')
    c.assume(v.t < c.V, w.t < c.V, v.t <= w.t)
    st0 = c.st.copy()
    for st, r in c.run('get_server_id_by_vnode_id', c.d, v):
        c.post(st, 'an existing server', z3.And(r.t >= 0, r.t < c.S))
        c.post(st, 'virtual nodes are dealt out in equal blocks, the rest to the last server', r.t == z3.If(UDIV(v.t, per) < c.S, UDIV(v.t, per), c.S - 1))
        c.frame(st0, st, [])
        q1, q2 = UDIV(v.t, per), UDIV(w.t, per)
        for s2, r2 in c.run('get_server_id_by_vnode_id', c.d, w, st=st.copy(), cover=False):
            s2.assume(per >= 1)
            c.post(s2, 'monotone in the virtual node', r.t <= r2.t)
    return c


def k_server(c):
    c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < c.V), z3.And(SID(k) >= 0, SID(k) < c.S)), SID(k)))

    def h(eng, st, args, ln):
        v = args[1].t
        eng.oblige(st, 'get_server_id_by_vnode_id: an existing virtual node', 'pre', z3.And(args[0].o == c.d.o, v >= 0, v < c.V), ln)
        return [(st, IV(SID(v)))]
    c.eng.contracts['get_server_id_by_vnode_id'] = h


# ---- base or alternative ----
def rehash(opts):
    c = Ctx('rehashing', F, opts=dict(opts, **O))
    dart(c)
    w, n, Rw = cstr(c, 'word')
    b = c.int('base')
    c.assume(b.t < c.V)
    k_server(c)
    e = c.eng

    def x_strlen(eng, st, args, ln):
        eng.oblige(st, 'strlen: of the word', 'pre', z3.And(args[0].o == w.o, args[0].off == 0), ln)
        return [(st, IV(n))]
    e.externs['strlen'] = x_strlen
    e.externs['abs'] = lambda eng, st, a, ln: [(st, IV(z3.If(a[0].t < 0, -a[0].t, a[0].t)))]
    e.externs['ceil'] = lambda eng, st, a, ln: [(st, a[0])]
    SUB = UDIV(c.RS, c.A)
    cbp = c.opaque('get_server_cb')
    asked = []

    def cb(st, args, ln, eng=c.eng):
        eng.oblige(st, 'the load of an existing server is asked', 'pre', z3.And(args[0].t >= 0, args[0].t < c.S), ln)
        t = eng.u.type('dart_server')
        o = eng.new_object(st, eng.u.sizeof(t), 'info')
        off, ft = eng.u.field('dart_server', 'indexed_word_count')
        l = uf('load', 1)(args[0].t)
        cl, sz = eng.cls(ft)
        m = eng.M(st, cl)
        st.mem[cl] = z3.Store(m, o, z3.Store(z3.Select(m, o), off // sz, l))
        st.assume(l >= 0, l < 2 ** 63)
        return [(st, SV(o, z3.IntVal(0), t, dict(st.mem)))]
    e.callbacks['load'] = (cbp.o, cb)
    st0 = c.st.copy()
    load = uf('load', 1)
    for st, r in c.run(REHASH, c.d, b, w, NULL):
        c.post(st, 'an existing virtual node', z3.And(r.t >= 0, r.t < c.V))
        c.frame(st0, st, [])
        s1 = st.copy()
        s1.assume(cbp.o != 0)
        for s2, r2 in c.run(REHASH, c.d, b, w, cbp, st=s1, cover=False):
            c.post(s2, 'with load information the key goes to its base node or to the alternative every search computes', z3.Or(r2.t == b.t, r2.t == r.t))
            c.post(s2, 'to the less loaded of the two servers', z3.If(load(SID(b.t)) > load(SID(r.t)), r2.t == r.t, z3.Or(r2.t == b.t, r2.t == r.t)))
            c.frame(st0, s2, [])
    return c


# ---- replicas ----
def rep(c, m, r):
    return UMOD(m + r * c.RS, c.V)


def replicas(opts):
    c = Ctx('get_replica_node_ids', F, opts=dict(opts, **O))
    dart(c)
    k_server(c)
    m = c.int('master')
    c.assume(m.t < c.V)
    rp = uf('rep', 1)
    c.assume(rp(z3.IntVal(0)) == m.t, qall([k], z3.Implies(k >= 1, rp(k) == UMOD(m.t + k * c.RS, c.V)), rp(k)), qall([k], z3.Implies(z3.And(k >= 0, k < c.RF), z3.And(rp(k) >= 0, rp(k) < c.V)), rp(k)))
    c.assume(qall([k], z3.Implies(k >= 0, z3.And(UMOD(k, c.V) >= 0, UMOD(k, c.V) < c.V)), UMOD(k, c.V)))
    out = c.obj('out', z3.IntVal(8))
    phys = c.int('is_physical', 'int')

    def gen(L):
        o = []
        p = c.cell(L.entry, out.o, 0, (PTR, (VOID,)))
        row = lambda s: c.row(s, 'u64', c.cell(s, out.o, 0, (PTR, (VOID,))))
        for b0 in (0, 1):
            o.append(('it <= replicas - %d' % b0, lambda s, it, b0=b0: it <= c.RF - b0))
            o.append(('first it+%d ids computed' % b0, lambda s, it, b0=b0: qall([k], z3.Implies(z3.And(0 <= k, k < it + b0), z3.Select(row(s), k) == rp(k)), z3.Select(row(s), k))))
        o.append(('all ids computed, the first it mapped to servers', lambda s, it: qall([k], z3.Implies(z3.And(0 <= k, k < c.RF), z3.Select(row(s), k) == z3.If(k < it, SID(rp(k)), rp(k))), z3.Select(row(s), k))))
        for nm, vid, t in L.vars(INT):
            o.append(('%s = it+1' % nm, lambda s, it, vid=vid: s.env[vid].t == it + 1))
        return o
    c.eng.loopgen.append(gen)
    st0 = c.st.copy()
    i = fresh('i')
    for st, r in c.run('get_replica_node_ids', c.d, m, phys, out):
        a = c.cell(st, out.o, 0, (PTR, (VOID,)))
        row = c.row(st, 'u64', a)
        inr = z3.And(0 <= i, i < c.RF)
        c.post(st, 'one id per replica in a fresh array', z3.And(r.t == c.RF, z3.Select(st.alive, a), z3.Not(z3.Select(st0.alive, a)), z3.Select(st.osize, a) == 8 * c.RF))
        c.post(st, 'the servers of the master node and of the nodes one region apart', z3.Implies(inr, z3.Select(row, i) == z3.If(phys.t == 1, SID(rp(i)), rp(i))))
        c.frame(st0, st, [out.o])
    return c


# ---- callee contracts proved above, as assumed by the callers ----
RP, BASE, ALT = uf('rep_node', 2), z3.Int('base_node'), z3.Int('alternative_node')


def callees(c, w, n, Rw):
    """the base node, the alternative node and the replicas of the word"""
    k_server(c)
    j = z3.Int('j?')
    D0 = DIG(z3.IntVal(0))
    c.assume(D0 == z3.If(n == 0, 0, UMOD(z3.Select(Rw, 0), c.A)), D0 >= 0, D0 < c.A, BASE >= 0, BASE < c.V, ALT >= 0, ALT < c.V, BASE >= D0 * c.RS, BASE < (D0 + 1) * c.RS,
             D0 * c.RS <= c.V - c.RS, D0 * c.RS >= 0,
             qall([j, k], z3.Implies(z3.And(0 <= j, j < c.V, 0 <= k, k < c.RF), z3.And(RP(j, k) >= 0, RP(j, k) < c.V)), RP(j, k)))
    e = c.eng

    def h_base(eng, st, args, ln):
        eng.oblige(st, 'base node of the word itself', 'pre', z3.And(args[0].o == c.d.o, args[1].o == w.o, args[1].off == 0), ln)
        return [(st, IV(BASE))]

    def h_alt(eng, st, args, ln):
        eng.oblige(st, 'alternative of the base node of the word itself', 'pre', z3.And(args[0].o == c.d.o, args[1].t == BASE, args[2].o == w.o, args[2].off == 0), ln)
        r = fresh('node')
        st.assume(z3.If(args[3].o == 0, r == ALT, z3.Or(r == BASE, r == ALT)))
        return [(st, IV(r))]

    def h_rep(eng, st, args, ln):
        m, ph, out = args[1].t, args[2].t, args[3]
        eng.oblige(st, 'replicas of an existing node', 'pre', z3.And(args[0].o == c.d.o, m >= 0, m < c.V, out.o != 0), ln)
        a = eng.new_object(st, 8 * c.RF, 'replicas')
        row = fresh('replicas_row', ROW)
        st.assume(qall([k], z3.Implies(z3.And(0 <= k, k < c.RF), z3.Select(row, k) == z3.If(ph == 1, SID(RP(m, k)), RP(m, k))), z3.Select(row, k)))
        st.mem['u64'] = z3.Store(eng.M(st, 'u64'), a, row)
        eng.note_write('u64', a)
        eng.store(st, out.o, out.off, (PTR, (VOID,)), PV(a, 0))
        return [(st, IV(c.RF))]

    def x_strlen(eng, st, args, ln):
        eng.oblige(st, 'strlen: of the word', 'pre', z3.And(args[0].o == w.o, args[0].off == 0), ln)
        return [(st, IV(n))]
    e.contracts.update({'get_base_virtual_node_id_by_string': h_base, REHASH: h_alt, 'get_replica_node_ids': h_rep})
    e.externs['strlen'] = x_strlen


def setup(fn, opts):
    c = Ctx(fn, F, opts=dict(opts, **O))
    dart(c)
    w, n, Rw = cstr(c, 'word')
    callees(c, w, n, Rw)
    out = c.obj('out', z3.IntVal(8))
    c.distinct(c.d, w, out)
    return c, w, n, Rw, out


def result(c, st, out):
    a = c.cell(st, out.o, 0, (PTR, (VOID,)))
    return a, lambda i: z3.Select(c.row(st, 'u64', a), i)


def insert(opts):
    c, w, n, Rw, out = setup('get_server_ids_for_insert', opts)
    cbp = c.opaque('get_server_cb')
    st0 = c.st.copy()
    i = fresh('i')
    for st, r in c.run('get_server_ids_for_insert', c.d, w, cbp, out):
        a, at = result(c, st, out)
        c.post(st, 'one server per replica in a fresh array', z3.And(r.t == c.RF, z3.Select(st.alive, a), z3.Not(z3.Select(st0.alive, a)), z3.Select(st.osize, a) == 8 * c.RF))
        c.post(st, 'all replicas of the base node or all replicas of the alternative node', z3.Or(
            *[qall([k], z3.Implies(z3.And(0 <= k, k < c.RF), at(k) == SID(RP(m, k))), at(k)) for m in (BASE, ALT)]))
        c.frame(st0, st, [out.o])
    return c


def query(op):
    def proof(opts):
        c, w, n, Rw, out = setup('get_server_ids_for_query', opts)
        o = c.unit.enums[op]
        short = z3.And(n < c.H, op in ('OP_PREFIX_QUERY', 'OP_INFIX_QUERY'))
        D0, V, RS = DIG(z3.IntVal(0)), c.V, c.RS
        lo, hi = D0 * RS, D0 * RS + RS - 1
        lo, hi = z3.If(n == 0, 0, lo), z3.If(n == 0, V - 1, hi)
        v = z3.Int('v')
        c.assume(0 <= v, v < V, lo <= v, v <= hi)
        # monotonicity of SID (proved for get_server_id_by_vnode_id) at the nodes that matter
        c.assume(SID(lo) <= SID(v), SID(v) <= SID(hi), SID(lo) >= 0, SID(hi) < c.S)

        def gen(L):
            g = [('it <= replicas', lambda s, it: it <= c.RF), ('it <= servers', lambda s, it: it <= SID(hi) - SID(lo) + 1)]
            for nm, vid, t in L.vars(INT):
                g.append(('%s = first server + it' % nm, lambda s, it, vid=vid: s.env[vid].t == SID(lo) + it))
                g.append(('%s = it' % nm, lambda s, it, vid=vid: s.env[vid].t == it))
            at = lambda s, i: z3.Select(c.row(s, 'u64', c.cell(s, out.o, 0, (PTR, (VOID,)))), i)
            g.append(('the first it servers listed', lambda s, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), at(s, k) == SID(lo) + k), at(s, k))))
            for m, nm in ((BASE, 'base'), (ALT, 'alternative')):
                g.append(('the first it replicas of the %s node listed' % nm, lambda s, it, m=m: qall([k], z3.Implies(z3.And(0 <= k, k < it), at(s, k) == SID(RP(m, k))), at(s, k))))
                g.append(('all, then the first it replicas of the %s node listed' % nm, lambda s, it, m=m: qall([k], z3.Implies(z3.And(c.RF <= k, k < c.RF + it), at(s, k) == SID(RP(m, k - c.RF))), at(s, k))))
                g.append(('all replicas of the %s node listed' % nm, lambda s, it, m=m: qall([k], z3.Implies(z3.And(0 <= k, k < c.RF), at(s, k) == SID(RP(m, k))), at(s, k))))
            return g
        c.eng.loopgen.append(gen)
        st0 = c.st.copy()
        i = fresh('i')
        for st, r in c.run('get_server_ids_for_query', c.d, w, IV(o), out):
            a, at = result(c, st, out)
            inr = z3.And(0 <= i, i < c.RF)
            c.post(st, 'a fresh array of the returned length', z3.And(r.t >= 1, z3.Select(st.alive, a), z3.Not(z3.Select(st0.alive, a)), 8 * r.t <= z3.Select(st.osize, a)))
            if op == 'OP_DELETE':
                for m, nm in ((BASE, 'base'), (ALT, 'alternative')):
                    X = SID(RP(m, i))
                    c.post(st, 'every replica of the %s node is contacted' % nm, z3.Implies(inr, z3.And(r.t == 2 * c.RF, z3.Or(at(i) == X, at(c.RF + i) == X))))
            else:
                j = fresh('j')
                c.post(st, 'short prefix: every server of the region is contacted', z3.Implies(short, z3.And(
                    SID(v) - SID(lo) < r.t, at(SID(v) - SID(lo)) == SID(v))))
                c.post(st, 'short prefix: only existing servers', z3.Implies(z3.And(short, 0 <= j, j < r.t), z3.And(at(j) >= 0, at(j) < c.S)))
                q = z3.Int('q?')
                c.post(st, 'otherwise: one replica of the base node and the same replica of the alternative node', z3.Implies(z3.Not(short), z3.Exists(
                    [q], z3.And(0 <= q, q < c.RF, at(0) == SID(RP(BASE, q)), z3.Or(z3.And(r.t == 2, at(1) == SID(RP(ALT, q))), z3.And(r.t == 1, SID(RP(ALT, q)) == at(0)))),
                    patterns=[RP(BASE, q)])))
            c.frame(st0, st, [out.o, c.d.o])
            for f in ('alphabet_size', 'dart_tree_height', 'replication_factor', 'num_server', 'num_vnode'):
                c.post(st, '%s unchanged' % f, c.fld(st, c.d, R, f) == c.fld(st0, c.d, R, f))
        return c
    return proof


PROOFS = [('uint32_pow', upow), ('get_base_virtual_node_id_by_string', base), ('get_server_id_by_vnode_id', server), ('rehashing (power of two choices)', rehash), ('get_replica_node_ids', replicas), ('get_server_ids_for_insert', insert)] + [
    ('get_server_ids_for_query %s' % o, query(o)) for o in ('OP_EXACT_QUERY', 'OP_PREFIX_QUERY', 'OP_SUFFIX_QUERY', 'OP_INFIX_QUERY', 'OP_DELETE')]
NATIVE = dict(src='native/p09_dart.c', flags=['-DSRC_C="%s/%s"' % (REPO, F)], repo=[D_ + 'dart_algo.c', FM, D_ + 'dart_utils.c', 'src/commons/utils/string_utils.c'], time=8)
LIMIT = 280
RULE = 'native: a case is one DART ring (alphabet, servers, replication, tree height) with 12 words, each inserted, searched and deleted through DART_hash; distinct counts different (word, ring) pairs'
ASSUMPTIONS = ['suffix-tree build configuration (PDC_DART_SFX_TREE=1, the one build.sh uses)', 'alphabet size below 2^16, fewer than 2^31 virtual nodes, at least one server and one replica, at least as many virtual nodes as servers (established by dart_space_init; natively checked)',
               'ceil, abs, log, pow, strlen and PDC_malloc/calloc are modelled; the load callback returns any value and does not touch the ring',
               'DART_hash (loop over the suffixes, concatenation of the results), dart_space_init and DHT_hash: native contract run only']

"""P16: handles name their object from registration to the last release.

The handles of a kind are a sequence node(0..n-1) of list nodes; K is the position of the handle asked for (n when there is none), j any position.
What the release function of the kind is called with is counted in a ghost object."""
from vf.proof import *
from vf.cast import REPO, server_flags
from vf import rpc
T = 'src/utils/pdc_interface.c'
EX = rpc.FLAGS + server_flags()
INFO, KIND = 'struct _pdc_id_info', 'struct PDC_id_type'
zero = z3.IntVal(0)
MAXID = 2 ** 55


def uninit(nm):
    return nm == 'ret_value = init' or nm.startswith('cond-bound')


class Kinds:
    def __init__(self, fn, opts, registered=True, sure=False, absent=False):
        c = self.c = Ctx(fn, T, extra=EX, opts=dict(opts, interior=True, auto=uninit))
        self.n, self.K, self.id, self.j, self.G, self.ty = (z3.Int(x) for x in ('n_handles', 'K', 'id', 'j', 'GHOST', 'kind'))
        self.list, self.next_type = z3.Int('glob_pdc_id_list_g'), z3.Int('glob_PDC_next_type')
        self.tab = z3.Int('kinds')
        self.node = lambda k: uf('node', 1)(k if not isinstance(k, int) else z3.IntVal(k))
        self.T = z3.Int('kind_record')
        self.cb = z3.Int('release_function')
        put = lambda cl, o, i, v: c.st.mem.__setitem__(cl, z3.Store(c.eng.M(c.st, cl), o, z3.Store(sel(c.eng.M(c.st, cl), o), i, v)))
        zero_ = z3.IntVal(0)
        put('p', self.list, zero_, self.tab)
        put('po', self.list, zero_, zero_)
        if absent:
            c.assume(1 <= self.ty, self.ty < 8)
            put('p', self.tab, self.ty, zero_)
        if sure:    # a registered kind
            put('p', self.tab, self.ty, self.T)
            put('po', self.tab, self.ty, zero_)
            c.assume(1 <= self.ty, self.ty < 8)
        live = lambda o: z3.And(o > 0, z3.Select(c.st.alive, o))
        self.hoff = c.unit.field(KIND, 'ids')[0]
        self.eoff = c.unit.field(INFO, 'entry')[0]
        c.apart(*[PV(o, 0) for o in (self.list, self.next_type, self.tab, self.T, self.G)], family=['node'])
        c.assume(*[live(o) for o in (self.list, self.next_type, self.tab, self.T, self.G)], z3.Select(c.row(c.st, 's32', self.next_type), 0) == 8,
                 z3.Select(c.st.osize, self.tab) == 255 * 8, z3.Select(c.st.osize, self.T) == c.sizeof(KIND))
        # the record of the kind asked for, if it is a kind at all
        rec = z3.Select(c.row(c.st, 'p', self.tab), self.ty)
        self.valid = z3.And(1 <= self.ty, self.ty < 8)
        c.assume(True if absent else z3.Implies(self.valid, z3.And(rec == self.T, z3.Select(c.row(c.st, 'po', self.tab), self.ty) == 0)), z3.Select(c.row(c.st, 'p', self.tab), 0) == 0)
        self.st0 = c.st
        c.assume(self.k(c.st, 'free_func') == self.cb, z3.Or(self.cb == 0, self.cb == z3.Int('RELEASE')), z3.Int('RELEASE') > 0, self.ko(c.st, 'free_func') == 0)
        if registered:
            c.assume(self.k(c.st, 'init_count') >= 1, self.k(c.st, 'init_count') < 2 ** 32 - 1)
        c.assume(self.n >= 0, self.n < 2 ** 31, self.k(c.st, 'id_count') == self.n, self.k(c.st, 'nextid') < MAXID - 1, z3.Or(self.n > 0, self.node(0) == 0), self.node(self.n) == 0,
                 self.k(c.st, 'ids.head') == self.node(0), self.ko(c.st, 'ids.head') == 0, self.k(c.st, 'ids.lock.held') == 0, 0 <= self.K, self.K <= self.n)
        self.st0 = c.st.copy()
        c.assume(*self.around(self.K), *self.around(self.j), *self.facts(zero), *self.facts(self.n - 1))
        c.inputs += [self.n, self.K, self.id]
        e = c.eng
        e.instances.append(lambda L, st, it: self.around(it) if L.depth == 0 else [])
        e.externs.update(fflush=lambda eng, st, a, ln: [(st, IV(0))])
        e.callbacks['release'] = (z3.Int('RELEASE'), self.release)
        for u, p in (('malloc', 'malloc'), ('calloc', 'calloc')):
            pass
        e.externs['PDC_malloc'] = lambda eng, st, a, ln: eng.alloc(st, a[0].t, 'malloc')
        e.externs['PDC_calloc'] = lambda eng, st, a, ln: eng.alloc(st, a[0].t * a[1].t, 'calloc', zero=True)
        e.externs['PDC_free'] = self.free

    def free(self, eng, st, a, ln):
        st = st.copy()
        eng.b_free(st, a, ln, [None])
        return [(st, NULL)]

    def k(self, st, f):
        return self.c.fld(st, PV(self.T, 0), KIND, f)

    def ko(self, st, f):
        return z3.Select(sel(self.c.eng.M(st, 'po'), self.T), self.c.unit.field(KIND, f)[0] // 8)

    def F(self, st, k, f):
        return self.c.cell(st, self.node(k), *self.c.unit.field(INFO, f))

    def Fo(self, st, k, f):
        return z3.Select(sel(self.c.eng.M(st, 'po'), self.node(k)), self.c.unit.field(INFO, f)[0] // 8)

    def facts(self, k):
        """the list: live nodes, chained both ways, their handles and objects differ (K is the place of `id`)"""
        st, F, Fo, node = self.st0, self.F, self.Fo, self.node
        return [z3.Implies(z3.And(0 <= k, k < self.n),
                           z3.And(node(k) > 0, z3.Select(st.alive, node(k)), z3.Select(st.osize, node(k)) == self.c.sizeof(INFO), F(st, k, 'entry.next') == node(k + 1), Fo(st, k, 'entry.next') == 0,
                                  F(st, k, 'entry.prev') == z3.If(k == 0, self.T, node(k - 1)), Fo(st, k, 'entry.prev') == z3.If(k == 0, self.hoff, self.eoff),
                                  (F(st, k, 'id') == self.id) == (k == self.K), F(st, k, 'count.v') >= 1, F(st, k, 'count.v') < 2 ** 31 - 1,
                                  *[(node(k) == node(x)) == (k == x) for x in (self.j, self.K, zero, k - 1, k + 1)],
                                  (F(st, k, 'obj_ptr') == F(st, self.j, 'obj_ptr')) == (k == self.j)))]

    def around(self, k):
        return self.facts(k) + self.facts(k - 1) + self.facts(k + 1)

    def gh(self, st, i):
        return z3.Select(sel(self.c.eng.M(st, 'gh'), self.G), i)

    def setgh(self, st, i, v):
        row = sel(self.c.eng.M(st, 'gh'), self.G)
        st.mem['gh'] = z3.Store(self.c.eng.M(st, 'gh'), self.G, z3.Store(row, i, v))
        self.c.eng.note_write('gh', self.G)

    CALLS, CALLS_J, RESULT, OBJ = range(4)

    def release(self, st, a, ln):
        """the release function of the kind: any answer; it leaves the handles of its kind alone"""
        r = fresh('released')
        st.assume(r >= -2 ** 31, r < 2 ** 31)
        self.c.eng.oblige(st, 'the lock of the kind is not held across the release function', 'pre', self.k(st, 'ids.lock.held') == 0, ln)
        self.setgh(st, self.CALLS, self.gh(st, self.CALLS) + 1)
        self.setgh(st, self.CALLS_J, self.gh(st, self.CALLS_J) + z3.If(a[0].o == self.F(self.st0, self.j, 'obj_ptr'), 1, 0))
        self.setgh(st, self.RESULT, r)
        self.setgh(st, self.OBJ, a[0].o)
        return [(st, IV(r))]

    def calls(self, st):
        return self.gh(st, self.CALLS) - self.gh(self.st0, self.CALLS)

    def inrange(self):
        return z3.And(0 <= self.j, self.j < self.n)

    def same(self, st, k, but=()):
        """handle k names the same object with the same count"""
        return z3.And(z3.Select(st.alive, self.node(k)), *[self.F(st, k, f) == self.F(self.st0, k, f) for f in ('id', 'count.v', 'obj_ptr') if f not in but], self.Fo(st, k, 'obj_ptr') == self.Fo(self.st0, k, 'obj_ptr'))

    def chain(self, st, prev0=True):
        """the list at any place j is as before"""
        F, Fo, st0 = self.F, self.Fo, self.st0
        return z3.And(self.k(st, 'ids.head') == self.node(0), self.ko(st, 'ids.head') == 0,
                      z3.Implies(self.inrange(), z3.And(*[g(st, self.j, f) == g(st0, self.j, f) for f in ('entry.next', 'entry.prev') for g in (F, Fo)])))

    def unlocked(self, st):
        self.c.post(st, 'the lock of the kind is released', self.k(st, 'ids.lock.held') == 0)

    def walk(self, stop=None):
        def gen(L):
            if L.depth != 0:
                return []
            lst = []
            for nm, vid, ty in L.vars(PTR, mod=True):
                def g(s, it, vid=vid):
                    return z3.And(s.env[vid].o == self.node(it), s.env[vid].off == 0)

                def sub(s, it, vid=vid):
                    s.env[vid] = PV(self.node(it), 0)
                g.subst = sub
                lst.append(('%s is the current handle' % nm, g))
            lst.append(('the walk stays in the list', lambda s, it: it <= self.n))
            lst.append(('not past the handle asked for', lambda s, it: it <= self.K))
            return lst
        self.c.eng.loopgen.append(gen)

    def end(self, st):
        st.assume(*self.around(self.K), *self.around(self.j), *self.facts(self.n - 1), *self.facts(zero))


def kind_of(idt):
    return (idt / 2 ** 55) % 256


def find(opts):
    t = Kinds('PDC_find_id', opts)
    c = t.c
    c.assume(t.id >= 0, t.id < 2 ** 64, t.ty == kind_of(t.id))
    t.walk()
    for st, ret in c.run(c.name, IV(t.id)):
        t.end(st)
        c.post(st, 'finds the handle exactly when it is registered', z3.And(ret.off == 0, ret.o == z3.If(t.valid, z3.If(t.K < t.n, t.node(t.K), 0), 0)))
        c.post(st, 'no handle changes', z3.And(t.chain(st), z3.Implies(t.inrange(), t.same(st, t.j)), t.calls(st) == 0))
        t.unlocked(st)
    return c


def find_contract(t, none=None):
    """what PDC_find_id answers (its own contract)"""
    def f(eng, st, a, ln):
        eng.oblige(st, 'the handle asked for', 'pre', a[0].t == t.id, ln)
        s1 = st.copy()
        st.assume(t.K < t.n, t.valid)
        s1.assume(z3.Or(t.K == t.n, z3.Not(t.valid)))
        return [(st, PV(t.node(t.K), 0)), (s1, NULL)]
    t.c.eng.contracts['PDC_find_id'] = f


def setup_ref(fn, opts):
    t = Kinds(fn, opts)
    t.c.assume(t.id >= 0, t.id < 2 ** 64, t.ty == kind_of(t.id))
    find_contract(t)
    return t


def inc(opts):
    t = setup_ref('PDC_inc_ref', opts)
    c = t.c
    for st, ret in c.run(c.name, IV(t.id)):
        t.end(st)
        here = z3.And(t.valid, t.K < t.n)
        c.post(st, 'one more reference', z3.Implies(here, z3.And(t.F(st, t.K, 'count.v') == t.F(t.st0, t.K, 'count.v') + 1, t.same(st, t.K, ['count.v']), ret.t == t.F(st, t.K, 'count.v'))))
        c.post(st, 'the other handles and the list stay', z3.And(t.chain(st), z3.Implies(z3.And(t.inrange(), z3.Or(t.j != t.K, z3.Not(here))), t.same(st, t.j)), t.calls(st) == 0))
        t.unlocked(st)
    return c


def dec(opts):
    t = setup_ref('PDC_dec_ref', opts)
    c = t.c
    F, K, node, n, j = t.F, t.K, t.node, t.n, t.j
    for st, ret in c.run(c.name, IV(t.id)):
        t.end(st)
        here = z3.And(t.valid, K < n)
        cnt = F(t.st0, K, 'count.v')
        last = z3.And(here, cnt == 1)
        failed = z3.And(last, t.cb != 0, t.gh(st, t.RESULT) < 0)
        gone = z3.And(last, z3.Not(failed))
        c.post(st, 'an unknown handle fails', z3.Implies(z3.Not(here), ret.t < 0))
        c.post(st, 'a release that is not the last only counts', z3.Implies(z3.And(here, cnt > 1), z3.And(ret.t == cnt - 1, F(st, K, 'count.v') == cnt - 1, t.same(st, K, ['count.v']))))
        c.post(st, 'the release function runs once, on the last release, with the object', z3.And(t.calls(st) == z3.If(z3.And(last, t.cb != 0), 1, 0),
               z3.Implies(z3.And(last, t.cb != 0), t.gh(st, t.OBJ) == F(t.st0, K, 'obj_ptr'))))
        c.post(st, 'the last release succeeds unless the release function fails', z3.Implies(last, z3.If(failed, ret.t < 0, ret.t == 0)))
        c.post(st, 'then the handle is gone and its node freed', z3.Implies(gone, z3.And(z3.Not(z3.Select(st.alive, node(K))), t.k(st, 'id_count') == n - 1)))
        c.post(st, 'else it stays', z3.Implies(z3.Not(gone), z3.And(t.chain(st), t.k(st, 'id_count') == n, z3.Implies(here, t.same(st, K, ['count.v'])))))
        c.post(st, 'the others stay in order', z3.Implies(gone, z3.And(t.k(st, 'ids.head') == z3.If(K == 0, node(1), node(0)), t.ko(st, 'ids.head') == 0, z3.Implies(z3.And(t.inrange(), j != K), z3.And(
            F(st, j, 'entry.next') == z3.If(j + 1 == K, node(j + 2), node(j + 1)), t.Fo(st, j, 'entry.next') == 0,
            F(st, j, 'entry.prev') == z3.If(z3.If(j == K + 1, j - 1, j) == 0, t.T, z3.If(j == K + 1, node(j - 2), node(j - 1))), t.Fo(st, j, 'entry.prev') == z3.If(z3.If(j == K + 1, j - 1, j) == 0, t.hoff, t.eoff))))))
        c.post(st, 'and keep their objects and counts', z3.Implies(z3.And(t.inrange(), z3.Or(j != K, z3.Not(here))), t.same(st, j)))
        c.post(st, 'no number is given back', t.k(st, 'nextid') == t.k(t.st0, 'nextid'))
        t.unlocked(st)
    return c


def register(opts):
    t = Kinds('PDC_id_register', opts, registered=False)
    c = t.c
    c.assume(t.ty >= -2 ** 31, t.ty < 2 ** 31)
    c.assume(z3.Implies(t.valid, t.k(c.st, 'init_count') >= 0))
    obj, oo = z3.Int('object'), z3.Int('object_off')
    c.assume(oo >= 0)
    for st, ret in c.run(c.name, IV(t.ty), PV(obj, oo)):
        t.end(st)
        ok = z3.And(t.valid, t.k(t.st0, 'init_count') > 0)
        new = t.k(st, 'ids.head')
        nf = lambda f: c.cell(st, new, *c.unit.field(INFO, f))
        no = lambda f: z3.Select(sel(c.eng.M(st, 'po'), new), c.unit.field(INFO, f)[0] // 8)
        c.post(st, 'an unregistered kind gives no handle', z3.Implies(z3.Not(ok), z3.And(ret.t == 0, t.k(st, 'nextid') == t.k(t.st0, 'nextid'), t.k(st, 'id_count') == t.n)))
        c.post(st, 'the handle is of its kind and its number has not been given out', z3.Implies(ok, z3.And(ret.t == t.ty * 2 ** 55 + t.k(t.st0, 'nextid'), t.k(st, 'nextid') == t.k(t.st0, 'nextid') + 1, kind_of(ret.t) == t.ty)))
        c.post(st, 'it is registered with the object and one reference', z3.Implies(ok, z3.And(new > 0, z3.Select(st.alive, new), z3.Not(z3.Select(t.st0.alive, new)), t.ko(st, 'ids.head') == 0, nf('id') == ret.t, nf('count.v') == 1,
               nf('obj_ptr') == obj, no('obj_ptr') == oo, t.k(st, 'id_count') == t.n + 1)))
        c.post(st, 'the list goes on with the handles before', z3.Implies(ok, z3.And(nf('entry.next') == t.node(0), no('entry.next') == 0, nf('entry.prev') == t.T, no('entry.prev') == t.hoff,
               z3.Implies(t.n > 0, z3.And(t.F(st, zero, 'entry.prev') == new, t.Fo(st, zero, 'entry.prev') == t.eoff)))))
        c.post(st, 'they do not change', z3.Implies(t.inrange(), z3.And(t.same(st, t.j), t.F(st, t.j, 'entry.next') == t.node(t.j + 1), t.Fo(st, t.j, 'entry.next') == 0,
               z3.Implies(t.j > 0, z3.And(t.F(st, t.j, 'entry.prev') == t.node(t.j - 1), t.Fo(st, t.j, 'entry.prev') == t.eoff)))))
        c.post(st, 'the release function is not called', t.calls(st) == 0)
        t.unlocked(st)
    return c


def handles(opts):
    """arithmetic of handles: kind and number are recovered, so different (kind, number) pairs are different handles"""
    t = Kinds('PDC_id_register', opts)
    c = t.c
    c.schema('kind and number make the handle unique', lambda a, i, b, k: z3.Implies(z3.And(0 <= a, a < 256, 0 <= b, b < 256, 0 <= i, i < MAXID, 0 <= k, k < MAXID, a * MAXID + i == b * MAXID + k), z3.And(a == b, i == k)), 4)
    c.schema('the kind is recovered', lambda a, i: z3.Implies(z3.And(0 <= a, a < 256, 0 <= i, i < MAXID), kind_of(a * MAXID + i) == a), 2)
    return c


def list_null(opts):
    t = Kinds('PDC_id_list_null', opts)
    c = t.c
    c.assume(t.ty >= -2 ** 31, t.ty < 2 ** 31, t.ty != 0)
    for st, ret in c.run(c.name, IV(t.ty)):
        t.end(st)
        c.post(st, 'the number of handles of the kind', z3.If(t.valid, ret.t == t.n, ret.t < 0))
        c.post(st, 'no handle changes', z3.And(t.chain(st), z3.Implies(t.inrange(), t.same(st, t.j)), t.calls(st) == 0))
    return c


def clear(opts):
    t = Kinds('PDC_id_list_clear', opts, sure=True)
    c = t.c
    k, idx = z3.Int('k'), uf('place', 1)
    c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < t.n), z3.And(idx(t.node(k)) == k, z3.Select(c.st.alive, t.node(k)), *[t.node(k) != x for x in (t.T, t.G, t.tab, t.list)])), t.node(k)))
    rel = t.release

    def ok(st, a, ln):
        r = rel(st, a, ln)
        st.assume(t.gh(st, t.RESULT) >= 0)
        return r
    c.eng.callbacks['release'] = (z3.Int('RELEASE'), ok)

    def gen(L):
        if L.depth != 0:
            return []
        g = lambda st, i: t.gh(st, i)
        lst = [('the list is what is left', lambda s, it: z3.And(t.k(s, 'ids.head') == t.node(it), t.ko(s, 'ids.head') == 0)),
               ('the first of it points back to the kind', lambda s, it: z3.Implies(it < t.n, z3.And(t.F(s, it, 'entry.prev') == t.T, t.Fo(s, it, 'entry.prev') == t.hoff))),
               ('what is left is as before', lambda s, it: z3.Implies(z3.And(t.inrange(), t.j >= it), z3.And(t.same(s, t.j), t.F(s, t.j, 'entry.next') == t.node(t.j + 1), t.Fo(s, t.j, 'entry.next') == 0,
                                                                              z3.Implies(t.j > it, z3.And(t.F(s, t.j, 'entry.prev') == t.node(t.j - 1), t.Fo(s, t.j, 'entry.prev') == t.eoff))))),
               ('what is gone is freed', lambda s, it: z3.Implies(z3.And(t.inrange(), t.j < it), z3.Not(z3.Select(s.alive, t.node(t.j))))),
               ('within the list', lambda s, it: it <= t.n), ('the lock is free', lambda s, it: t.k(s, 'ids.lock.held') == 0),
               ('handles are counted', lambda s, it: t.k(s, 'id_count') == t.n - it),
               ('no size changes', lambda s, it: s.osize == t.st0.osize),
               ('calls are counted', lambda s, it: t.calls(s) == z3.If(t.cb != 0, it, 0)),
               ('the record of the kind stays', lambda s, it: z3.And(z3.Select(s.alive, t.T), z3.Select(s.alive, t.G), t.k(s, 'free_func') == t.cb, t.ko(s, 'free_func') == 0)),
               ('calls for this object', lambda s, it: g(s, t.CALLS_J) - g(t.st0, t.CALLS_J) == z3.If(z3.And(t.cb != 0, it > t.j, t.inrange()), 1, 0))]
        k = z3.Int('k')
        rows = lambda s, k, cs: [z3.Select(c.eng.M(s, x), t.node(k)) == z3.Select(c.eng.M(t.st0, x), t.node(k)) for x in cs]
        lst.append(('the rest of what is left is as before', lambda s, it: qall([k], z3.Implies(z3.And(it < k, k < t.n), z3.And(z3.Select(s.alive, t.node(k)), *rows(s, k, ('p', 'po')))), t.node(k))))
        for f in ('entry.next', 'obj_ptr'):
            lst.append(('the first of it has its %s' % f, lambda s, it, f=f: z3.Implies(it < t.n, z3.And(z3.Select(s.alive, t.node(it)), t.F(s, it, f) == t.F(t.st0, it, f), t.Fo(s, it, f) == t.Fo(t.st0, it, f)))))
        return lst
    c.eng.loopgen.append(gen)
    for st, ret in c.run(c.name, IV(t.ty)):
        t.end(st)
        c.post(st, 'no handle is left', z3.And(t.k(st, 'ids.head') == 0, t.k(st, 'id_count') == 0, z3.Implies(t.inrange(), z3.Not(z3.Select(st.alive, t.node(t.j))))))
        c.post(st, 'every object was released once', z3.And(t.calls(st) == z3.If(t.cb != 0, t.n, 0), z3.Implies(z3.And(t.inrange(), t.cb != 0), t.gh(st, t.CALLS_J) == t.gh(t.st0, t.CALLS_J) + 1)))
        c.post(st, 'succeeds', ret.t == 0)
        c.post(st, 'no number is given back', t.k(st, 'nextid') == t.k(t.st0, 'nextid'))
        t.unlocked(st)
    return c


def byname(opts):
    CI = 'struct _pdc_cont_info'
    t = Kinds('PDC_find_byname', opts)
    c = t.c
    c.assume(t.ty == 4, t.id == -1)
    nm = c.opaque('byname')
    eq = uf('samename', 1)
    K = z3.Int('first_with_the_name')
    pub = lambda k: c.cell(t.st0, t.F(t.st0, k, 'obj_ptr'), *c.unit.field(CI, 'cont_info_pub'))
    name = lambda k: c.cell(t.st0, pub(k), *c.unit.field('struct pdc_cont_info', 'name'))
    def more(k):
        o, p = t.F(t.st0, k, 'obj_ptr'), pub(k)
        st = t.st0
        return [z3.Implies(z3.And(0 <= k, k < t.n), z3.And(t.Fo(st, k, 'obj_ptr') == 0, o > 0, z3.Select(st.alive, o), z3.Select(st.osize, o) == c.sizeof(CI), p > 0, z3.Select(st.alive, p), z3.Select(st.osize, p) == c.sizeof('struct pdc_cont_info'),
                *[z3.Select(sel(c.eng.M(st, 'po'), x), c.unit.field(r, f)[0] // 8) == 0 for x, r, f in ((o, CI, 'cont_info_pub'), (p, 'struct pdc_cont_info', 'name'))],
                z3.Implies(k < K, z3.Not(eq(name(k)) == 1)), z3.Implies(k == K, eq(name(k)) == 1)))]
    c.assume(0 <= K, K <= t.n)
    t.K = K
    c.eng.instances.append(lambda L, st, it: more(it))

    def cmp(eng, st, a, ln):
        eng.oblige(st, 'compared with the name asked for', 'pre', z3.And(a[1].o == nm.o, a[1].off == 0, a[0].off == 0), ln)
        r = fresh('cmp')
        st.assume((r == 0) == (eq(a[0].o) == 1))
        return [(st, IV(r))]
    c.eng.externs['strcmp'] = cmp
    t.walk()
    for st, ret in c.run(c.name, IV(t.ty), nm):
        t.end(st)
        st.assume(*more(K), *more(t.j))
        c.post(st, 'the latest handle whose container has the name, or 0', ret.t == z3.If(K < t.n, t.F(t.st0, K, 'id'), 0))
        c.post(st, 'no handle changes', z3.And(t.chain(st), z3.Implies(t.inrange(), t.same(st, t.j)), t.calls(st) == 0))
    return c


def register_type(opts):
    t = Kinds('PDC_register_type', opts, registered=False)
    c = t.c
    c.assume(t.valid)
    k0 = lambda f: t.k(t.st0, f)
    ff = z3.Int('free_func')
    c.assume(k0('init_count') >= 0, k0('init_count') < 2 ** 32 - 1)
    slot = lambda st: z3.Select(sel(c.eng.M(st, 'p'), t.tab), t.ty)
    for st, ret in c.run(c.name, IV(t.ty), PV(ff, 0)):
        t.end(st)
        again = k0('init_count') > 0
        c.post(st, 'the kind is registered', z3.And(ret.t == 0, slot(st) == t.T, t.k(st, 'init_count') == k0('init_count') + 1))
        c.post(st, 'a registered kind keeps its handles', z3.Implies(again, z3.And(t.chain(st), t.k(st, 'free_func') == t.cb, t.k(st, 'id_count') == t.n, t.k(st, 'nextid') == k0('nextid'))))
        c.post(st, 'a new kind has no handles and its release function', z3.Implies(z3.Not(again), z3.And(t.k(st, 'ids.head') == 0, t.k(st, 'id_count') == 0, t.k(st, 'nextid') == 0, t.k(st, 'free_func') == ff)))
        c.post(st, 'no handle changes', z3.And(z3.Implies(t.inrange(), t.same(st, t.j)), t.calls(st) == 0))
    return c


def register_new_type(opts):
    t = Kinds('PDC_register_type', opts, registered=False, absent=True)
    c = t.c
    ff = z3.Int('free_func')
    for st, ret in c.run(c.name, IV(t.ty), PV(ff, 0)):
        new = z3.Select(sel(c.eng.M(st, 'p'), t.tab), t.ty)
        f = lambda x: c.cell(st, new, *c.unit.field(KIND, x))
        c.post(st, 'a new record, registered once, without handles, with its release function', z3.And(ret.t == 0, new > 0, z3.Select(st.alive, new), z3.Not(z3.Select(t.st0.alive, new)),
               f('init_count') == 1, f('ids.head') == 0, f('id_count') == 0, f('nextid') == 0, f('free_func') == ff, f('ids.lock.held') == 0))
        o = z3.Int('other_kind')
        c.post(st, 'the other kinds stay', z3.Implies(z3.And(o != t.ty), z3.Select(sel(c.eng.M(st, 'p'), t.tab), o) == z3.Select(sel(c.eng.M(t.st0, 'p'), t.tab), o)))
    return c


PROOFS = [('PDC_register_type', register_type), ('PDC_register_type of a new kind', register_new_type), ('PDC_find_id', find), ('PDC_id_register', register), ('handles of kinds', handles), ('PDC_inc_ref', inc), ('PDC_dec_ref', dec), ('PDC_id_list_null', list_null), ('PDC_id_list_clear', clear), ('PDC_find_byname', byname)]
NATIVE = dict(src='native/p16_handles.c', stub=True, server=True, flags=['-fcommon', '-DSRC_I="%s/%s"' % (REPO, T)], repo=['src/commons/utils/pdc_malloc.c'], time=8)
LEVEL = 'proof'
RULE = 'random histories of registering, finding, referencing, releasing and clearing handles of the seven kinds, against a table; distinct = distinct histories by hash'
ASSUMPTIONS = ['fewer than 2^55 handles per kind over the life of a client (the code asserts it) and fewer than 2^31 - 1 references of one', 'the release function of a kind does not itself register or release handles of that kind; when a kind is cleared it succeeds',
               'the handles of one kind name different objects (used to count the release calls)', 'malloc succeeds', 'one thread at a time per kind (the lock is proved to be released and free across the release function; schedules are not explored)']
TRUSTED = ['hg_thread_mutex, hg_atomic: stub Mercury headers in /verif/stub', 'PDC_malloc, PDC_calloc, PDC_free: as malloc, calloc, free (native run uses the real ones)', 'strcmp: equal exactly when the names are equal']

"""P15: transfer requests complete exactly once and every waiter is answered exactly once.

The table of requests is a sequence node(0..n-1) of list nodes; K is the position of the request asked for (n when there is none).
The answers sent are counted in a ghost object."""
from vf.proof import *
from vf.cast import REPO, server_flags
from vf import rpc
T = 'src/server/pdc_server_region/pdc_server_region_transfer.c'
TU = rpc.TU
EX = rpc.FLAGS + server_flags()
NODE = 'pdc_transfer_request_status'
zero = z3.IntVal(0)


class Table:
    def __init__(self, fn, opts, path=T, **kw):
        c = self.c = Ctx(fn, path, extra=EX, opts=dict(opts, auto=lambda nm: nm == 'ret_value = init', **kw))
        self.n, self.K, self.id, self.j, self.G = (z3.Int(x) for x in ('n_requests', 'K', 'id', 'j', 'GHOST'))
        self.head, self.end = z3.Int('glob_transfer_request_status_list'), z3.Int('glob_transfer_request_status_list_end')
        self.node = lambda k: uf('node', 1)(k if not isinstance(k, int) else z3.IntVal(k))
        live = lambda o: z3.And(o > 0, z3.Select(c.st.alive, o))
        self.st0 = c.st
        c.apart(*[PV(o, 0) for o in (self.head, self.end, self.G)], family=['node'])
        c.assume(*[live(o) for o in (self.head, self.end, self.G)], self.n >= 0, self.n < 2 ** 40, z3.Or(self.n > 0, self.node(0) == 0), self.node(self.n) == 0,
                 self.id >= 0, self.id < 2 ** 64, 0 <= self.K, self.K <= self.n, self.ptr(c.st, self.head) == self.node(0))
        self.st0 = c.st.copy()
        c.assume(z3.Implies(self.n > 0, self.ptr(c.st, self.end) == self.node(self.n - 1)))
        c.assume(*self.facts(zero), *self.facts(self.K), *self.facts(self.j), *self.facts(self.n - 1), *self.facts(self.K - 1), *self.facts(self.K + 1))
        self.out = c.eng.cls(c.unit.field('transfer_request_wait_out_t', 'ret')[1])[0]
        c.inputs += [self.n, self.K, self.id]
        e = c.eng
        e.instances.append(lambda L, st, it: self.facts(it) + self.facts(it - 1) if L.depth == 0 else [])
        e.externs.update(fflush=lambda eng, st, a, ln: [(st, IV(0))])
        e.externs.update(HG_Respond=self.respond, HG_Destroy=self.destroy)

    def ptr(self, st, g):
        return z3.Select(sel(self.c.eng.M(st, 'p'), g), 0)

    def F(self, st, k, f):
        off, t = self.c.unit.field(NODE, f)
        cl, sz = self.c.eng.cls(t)
        return z3.Select(sel(self.c.eng.M(st, cl), self.node(k)), off // sz)

    def facts(self, k):
        """the table: its nodes are live list nodes, their identifiers differ (K is the place of `id`), their waiters' counters are live"""
        st, h = self.st0, self.F(self.st0, k, 'handle_ref')
        return [z3.Implies(z3.And(0 <= k, k < self.n),
                           z3.And(self.node(k) > 0, z3.Select(st.alive, self.node(k)), z3.Select(st.osize, self.node(k)) == self.c.sizeof(NODE), self.F(st, k, 'next') == self.node(k + 1),
                                  (self.F(st, k, 'transfer_request_id') == self.id) == (k == self.K), (self.node(k) == self.node(self.j)) == (k == self.j), (self.node(k) == self.node(self.K)) == (k == self.K),
                                  z3.Or(h == 0, z3.And(h > 0, z3.Select(st.alive, h), z3.Select(st.osize, h) == 4, h != self.node(k), h != self.node(self.j), h != self.node(k - 1), h != self.head, h != self.end, h != self.G))))]

    def gh(self, st, i):
        return z3.Select(sel(self.c.eng.M(st, 'gh'), self.G), i)

    def setgh(self, st, i, v):
        row = sel(self.c.eng.M(st, 'gh'), self.G)
        st.mem['gh'] = z3.Store(self.c.eng.M(st, 'gh'), self.G, z3.Store(row, i, v))
        self.c.eng.note_write('gh', self.G)

    def respond(self, eng, st, a, ln):
        h = a[0]
        self.setgh(st, 0, self.gh(st, 0) + 1)
        self.setgh(st, 1, h.o)
        row = sel(eng.M(st, self.out), a[3].o)
        self.setgh(st, 2, z3.Select(row, divexact(simp(a[3].off), 4)))
        return [(st, IV(fresh('hg')))]

    def destroy(self, eng, st, a, ln):
        self.setgh(st, 3, self.gh(st, 3) + 1)
        self.setgh(st, 4, a[0].o)
        return [(st, IV(0))]

    def walk(self, touched=None):
        """loop candidates: the pointers follow the table; what the walk has done to node j so far"""
        c = self.c

        def gen(L):
            if L.depth != 0:
                return []
            lst = []
            for nm, vid, ty in L.vars(PTR, mod=True):
                def g(s, it, vid=vid):
                    v = s.env[vid]
                    return z3.And(v.o == self.node(it), v.off == 0)

                def sub(s, it, vid=vid):
                    s.env[vid] = PV(self.node(it), 0)
                g.subst = sub
                lst.append(('%s is the current request' % nm, g))
                lst.append(('%s is the request before' % nm, lambda s, it, vid=vid: z3.And(s.env[vid].off == 0, s.env[vid].o == z3.If(it > 0, self.node(it - 1), 0))))
            lst.append(('the walk stays in the table', lambda s, it: it <= self.n))
            lst.append(('not past a request that is waited for', lambda s, it: z3.Implies(z3.And(self.K < self.n, it > self.K), self.F(self.st0, self.K, 'handle_ref') == 0)))
            lst.append(('not past the request asked for', lambda s, it: it <= self.K))
            lst.append(('only the status of the request asked for changes', lambda s, it: z3.And(
                self.F(s, self.j, 'status') == z3.If(z3.And(self.j == self.K, it > self.K), self.COMPLETE, self.F(self.st0, self.j, 'status')),
                self.F(s, self.K, 'status') == z3.If(z3.And(self.K < self.n, it > self.K), self.COMPLETE, self.F(self.st0, self.K, 'status')),
                self.F(s, self.j, 'out_type') == self.F(self.st0, self.j, 'out_type'), self.F(s, it, 'out_type') == self.F(self.st0, it, 'out_type'))))
            return lst
        c.eng.loopgen.append(gen)

    COMPLETE, PENDING, NOT_FOUND = (0, 1, 2)

    def same(self, st, j, but=()):
        return z3.And(*[self.F(st, j, f) == self.F(self.st0, j, f) for f in ('transfer_request_id', 'status', 'handle_ref', 'out_type', 'handle') if f not in but])

    def in_place(self, st, m=None):
        """the table has the same requests in the same order (seen at index j)"""
        return z3.And(self.ptr(st, self.head) == self.node(0), z3.Implies(self.n > 0, self.ptr(st, self.end) == self.node(self.n - 1)),
                      z3.Implies(z3.And(0 <= self.j, self.j < self.n), z3.And(self.F(st, self.j, 'next') == self.node(self.j + 1), z3.Select(st.alive, self.node(self.j)))))

    def removed(self, st):
        """request K is gone, the others stay in order (seen at index j)"""
        n, K, j, node = self.n, self.K, self.j, self.node
        nxt = lambda k: z3.If(k + 1 == K, node(k + 2), node(k + 1))
        return z3.And(z3.Not(z3.Select(st.alive, node(K))), self.ptr(st, self.head) == z3.If(K == 0, node(1), node(0)),
                      self.ptr(st, self.end) == z3.If(n == 1, 0, z3.If(K == n - 1, node(n - 2), node(n - 1))),
                      z3.Implies(z3.And(0 <= j, j < n, j != K), z3.And(self.F(st, j, 'next') == nxt(j), z3.Select(st.alive, node(j)))))

    def quiet(self, st):
        return z3.And(self.gh(st, 0) == self.gh(self.st0, 0), self.gh(st, 3) == self.gh(self.st0, 3))


def rng_j(t):
    return z3.And(0 <= t.j, t.j < t.n)


def check(opts):
    t = Table('PDC_check_request', opts)
    c = t.c
    t.walk()
    for st, ret in c.run(c.name, IV(t.id)):
        st.assume(*t.facts(t.K), *t.facts(t.j), *t.facts(t.n - 1))
        s, w, here = t.F(t.st0, t.K, 'status'), t.F(t.st0, t.K, 'handle_ref') != 0, t.K < t.n
        c.post(st, 'not found exactly when there is no such request', (ret.t == t.NOT_FOUND) == z3.Not(z3.And(here, z3.Or(w, s != t.NOT_FOUND))))
        c.post(st, 'otherwise its status; a request that is waited for counts as complete', z3.Implies(here, ret.t == z3.If(w, t.COMPLETE, s)))
        gone = z3.And(here, z3.Not(w), s == t.COMPLETE)
        c.post(st, 'a request reported complete is forgotten, otherwise the table stays', z3.If(gone, t.removed(st), t.in_place(st)))
        c.post(st, 'the other requests do not change', z3.Implies(z3.And(rng_j(t), z3.Or(z3.Not(gone), t.j != t.K)), t.same(st, t.j)))
        c.post(st, 'no answer is sent', t.quiet(st))
    return c


def finish(opts):
    t = Table('PDC_finish_request', opts)
    c = t.c
    t.walk()
    cnt0 = z3.Select(sel(c.eng.M(t.st0, 's32'), t.F(t.st0, t.K, 'handle_ref')), 0)
    c.assume(z3.Implies(t.F(t.st0, t.K, 'handle_ref') != 0, z3.And(cnt0 >= 1, cnt0 < 2 ** 31)), t.F(t.st0, t.K, 'out_type') >= -1)
    for st, ret in c.run(c.name, IV(t.id)):
        st.assume(*t.facts(t.K), *t.facts(t.j), *t.facts(t.n - 1))
        here, h = t.K < t.n, t.F(t.st0, t.K, 'handle_ref')
        w = z3.And(here, h != 0)
        last = z3.And(w, cnt0 == 1)
        c.post(st, 'a request that is waited for is removed, otherwise the table stays', z3.If(w, t.removed(st), t.in_place(st)))
        c.post(st, 'the request is complete', z3.Implies(z3.And(here, z3.Not(w)), t.F(st, t.K, 'status') == t.COMPLETE))
        c.post(st, 'the other requests do not change', z3.Implies(z3.And(rng_j(t), t.j != t.K), t.same(st, t.j)))
        c.post(st, 'nor does the request itself but for its status', z3.Implies(z3.And(rng_j(t), t.j == t.K, z3.Not(w)), t.same(st, t.j, ['status'])))
        c.post(st, 'one answer, when the last request waited for completes', t.gh(st, 0) == t.gh(t.st0, 0) + z3.If(last, 1, 0))
        c.post(st, 'it says 1 and goes to the handle of the waiter, which is released once',
               z3.Implies(last, z3.And(t.gh(st, 2) == 1, t.gh(st, 1) == t.F(t.st0, t.K, 'handle'), t.gh(st, 4) == t.gh(st, 1))))
        c.post(st, 'released once', t.gh(st, 3) == t.gh(t.st0, 3) + z3.If(last, 1, 0))
        c.post(st, 'the waiter expects one request less', z3.Implies(z3.And(w, z3.Not(last)), z3.And(z3.Select(st.alive, h), z3.Select(sel(c.eng.M(st, 's32'), h), 0) == cnt0 - 1)))
    return c


def attach(opts):
    t = Table('PDC_try_finish_request', opts)
    c = t.c
    t.walk()
    hr, hd = c.obj('handle_ref', 4), c.opaque('handle')
    c.distinct(hr, PV(t.head, 0), PV(t.end, 0), PV(t.G, 0))
    c.assume(z3.Implies(t.K < t.n, hr.o != t.node(t.K)), z3.Implies(rng_j(t), hr.o != t.node(t.j)))
    cnt0 = z3.Select(sel(c.eng.M(t.st0, 's32'), hr.o), 0)
    c.assume(cnt0 >= 0, cnt0 < 2 ** 31 - 1)
    ot = c.int('out_type', 'int').t
    for st, ret in c.run(c.name, IV(t.id), hd, hr, IV(ot)):
        st.assume(*t.facts(t.K), *t.facts(t.j), *t.facts(t.n - 1))
        here = t.K < t.n
        c.post(st, 'the request is waited for by this handle', z3.Implies(here, z3.And(t.F(st, t.K, 'handle_ref') == hr.o, t.F(st, t.K, 'handle') == hd.o, t.F(st, t.K, 'out_type') == ot)))
        c.post(st, 'the waiter expects one more exactly when there is such a request', z3.Select(sel(c.eng.M(st, 's32'), hr.o), 0) == cnt0 + z3.If(here, 1, 0))
        c.post(st, 'the table stays', t.in_place(st))
        c.post(st, 'the other requests do not change', z3.Implies(z3.And(rng_j(t), t.j != t.K), t.same(st, t.j)))
        c.post(st, 'nor do its identifier and status', z3.Implies(z3.And(rng_j(t), t.j == t.K), t.same(st, t.j, ['handle', 'handle_ref', 'out_type'])))
        c.post(st, 'no answer is sent', t.quiet(st))
    return c


def commit(opts):
    t = Table('PDC_commit_request', opts)
    c = t.c
    for st, ret in c.run(c.name, IV(t.id)):
        st.assume(*t.facts(t.j), *t.facts(t.n - 1))
        new = t.ptr(st, t.end)
        nf = lambda f: (lambda o, ty: z3.Select(sel(c.eng.M(st, c.eng.cls(ty)[0]), new), o // c.eng.cls(ty)[1]))(*c.unit.field(NODE, f))
        c.post(st, 'a new last request', z3.And(new > 0, z3.Select(st.alive, new), z3.Not(z3.Select(t.st0.alive, new)), nf('next') == 0,
                                                  z3.If(t.n > 0, z3.And(t.F(st, t.n - 1, 'next') == new, t.ptr(st, t.head) == t.node(0)), t.ptr(st, t.head) == new)))
        c.post(st, 'pending, under its identifier, not waited for', z3.And(nf('transfer_request_id') == t.id, nf('status') == t.PENDING, nf('handle_ref') == 0))
        c.post(st, 'the requests before it do not change', z3.Implies(rng_j(t), z3.And(t.same(st, t.j), z3.Implies(t.j < t.n - 1, t.F(st, t.j, 'next') == t.node(t.j + 1)))))
        c.post(st, 'succeeds without an answer', z3.And(ret.t == 0, t.quiet(st)))
    return c


def register(opts):
    c = Ctx('PDC_transfer_request_id_register', T, extra=EX, opts=opts)
    g = z3.Int('glob_transfer_request_id_g')
    v = z3.Select(c.row(c.st, 'u64', g), 0)
    c.assume(g > 0, z3.Select(c.st.alive, g), v >= 1, v < 2 ** 64 - 1)
    for st, ret in c.run(c.name):
        c.post(st, 'a number not given out before', z3.And(ret.t == v, z3.Select(c.row(st, 'u64', g), 0) == v + 1))
    return c


class Handler:
    """an RPC handler; the requests it asks for have arbitrary statuses.  Ghost cells: 0 answers, 1 answered handle, 2 answer, 3 releases, 4 released handle,
    5 questions, 6 questions answered PENDING, 7 attachments, 8 the waiter's counter, 9 last identifier, 10 last status, 11 locked, 12 answered status, 13 inputs to free"""

    def __init__(self, fn, opts, args):
        c = self.c = Ctx(fn, TU, extra=EX, opts=dict(opts, auto=lambda nm: nm in ('ret = init', 'ret_value = init') or nm.startswith('cond-bound')))
        self.G = z3.Int('GHOST')
        c.assume(self.G > 0, z3.Select(c.st.alive, self.G), *[self.gh(c.st, i) == 0 for i in range(14)])
        self.handle, self.id = z3.Int('handle'), z3.Int('id')
        c.assume(self.handle > 0, self.id >= 0, self.id < 2 ** 64)
        self.out = 's32'
        e = c.eng
        e.contracts.update(PDC_check_request=self.check, PDC_try_finish_request=self.attach)
        ig = lambda eng, st, a, ln: [(st, IV(0))]
        e.externs.update(HG_Respond=self.respond, HG_Destroy=self.destroy, HG_Get_input=self.get_input, HG_Free_input=self.free_input, HG_Bulk_free=ig, fflush=ig,
                         pthread_mutex_lock=self.lock(1), pthread_mutex_unlock=self.lock(0))

    gh, setgh = Table.gh, Table.setgh

    def bump(self, st, i):
        self.setgh(st, i, self.gh(st, i) + 1)

    def lock(self, v):
        def f(eng, st, a, ln):
            eng.oblige(st, 'the lock of the table is %s' % ('free' if v else 'held'), 'pre', self.gh(st, 11) == 1 - v, ln)
            eng.oblige(st, 'it is the lock of the table', 'pre', a[0].o == z3.Int('glob_transfer_request_status_mutex'), ln)
            self.setgh(st, 11, z3.IntVal(v))
            return [(st, IV(0))]
        return f

    def asked(self, st):
        return self.id

    def check(self, eng, st, a, ln):
        eng.oblige(st, 'the table is used under its lock', 'pre', self.gh(st, 11) == 1, ln)
        eng.oblige(st, 'the request asked for', 'pre', a[0].t == self.asked(st), ln)
        s = fresh('status')
        st.assume(s >= 0, s <= 2)
        self.bump(st, 5)
        self.setgh(st, 6, self.gh(st, 6) + z3.If(s == 1, 1, 0))
        self.setgh(st, 9, a[0].t)
        self.setgh(st, 10, s)
        return [(st, IV(s))]

    def attach(self, eng, st, a, ln):
        eng.oblige(st, 'the table is used under its lock', 'pre', self.gh(st, 11) == 1, ln)
        eng.oblige(st, 'attached to the request just found pending, once', 'pre', z3.And(a[0].t == self.gh(st, 9), self.gh(st, 10) == 1, self.gh(st, 7) == self.gh(st, 6) - 1), ln)
        eng.oblige(st, 'attached with this handle and kind of answer', 'pre', z3.And(a[1].o == self.handle, a[3].t == self.kind), ln)
        h, row = a[2].o, sel(eng.M(st, 's32'), a[2].o)
        eng.oblige(st, 'attached with a counter of the requests attached before', 'pre', z3.And(a[2].off == 0, h > 0, z3.Select(st.alive, h), z3.Select(row, 0) == self.gh(st, 7), z3.Or(self.gh(st, 7) == 0, self.gh(st, 8) == h)), ln)
        st.mem['s32'] = z3.Store(eng.M(st, 's32'), h, z3.Store(row, 0, z3.Select(row, 0) + 1))
        eng.note_write('s32', h)
        self.bump(st, 7)
        self.setgh(st, 8, h)
        return [(st, IV(2))]

    def respond(self, eng, st, a, ln):
        if self.kind is None:
            off, t = self.c.unit.field('transfer_request_status_out_t', 'status')
            cl, sz = eng.cls(t)
            self.setgh(st, 12, z3.Select(sel(eng.M(st, cl), a[3].o), off // sz))
            off, t = self.c.unit.field('transfer_request_status_out_t', 'ret')
            cl, sz = eng.cls(t)
            r = z3.Select(sel(eng.M(st, cl), a[3].o), off // sz)
        out = Table.respond(self, eng, st, a, ln)
        if self.kind is None:
            self.setgh(st, 2, r)
        return out

    destroy = Table.destroy

    def get_input(self, eng, st, a, ln):
        eng.oblige(st, 'the input of this call', 'pre', a[0].o == self.handle, ln)
        eng.store(st, a[1].o, a[1].off, (INT, 64, False), IV(self.id), check=False)
        self.bump(st, 13)
        return [(st, IV(0))]

    def free_input(self, eng, st, a, ln):
        self.setgh(st, 13, self.gh(st, 13) - 1)
        return [(st, IV(0))]

    def outcome(self, st, wait, inputs=0):
        c, g = self.c, lambda i: self.gh(st, i)
        c.post(st, 'answered now, once, with 1, and released -- or not at all', z3.If(wait, z3.And(g(0) == 0, g(3) == 0), z3.And(g(0) == 1, g(1) == self.handle, g(2) == 1, g(3) == 1, g(4) == self.handle)))
        c.post(st, 'every request found pending is attached', g(7) == g(6))
        c.post(st, 'the counter of the waiter stays', z3.Implies(g(7) > 0, z3.And(z3.Select(st.alive, g(8)), z3.Select(sel(c.eng.M(st, 's32'), g(8)), 0) == g(7))))
        c.post(st, 'the lock is released, the input freed', z3.And(g(11) == 0, g(13) == inputs))


def wait(opts):
    h = Handler('transfer_request_wait_cb', opts, 1)
    h.kind = 0
    for st, ret in h.c.run(h.c.name, PV(h.handle, 0)):
        h.outcome(st, h.gh(st, 6) > 0)
        h.c.post(st, 'asks once', h.gh(st, 5) == 1)
    return h.c


def status(opts):
    h = Handler('transfer_request_status_cb', opts, 1)
    h.kind = None
    for st, ret in h.c.run(h.c.name, PV(h.handle, 0)):
        g = lambda i: h.gh(st, i)
        h.c.post(st, 'answered once with the status of the request', z3.And(g(5) == 1, g(0) == 1, g(1) == h.handle, g(2) == 1, g(12) == g(10), g(7) == 0))
        h.c.post(st, 'the handle is released, the lock and the input too', z3.And(g(3) == 1, g(4) == h.handle, g(11) == 0, g(13) == 0))
    return h.c


def wait_all(opts):
    A = 'struct transfer_request_wait_all_local_bulk_args'
    h = Handler('transfer_request_wait_all_bulk_transfer_cb', opts, 1)
    c, h.kind = h.c, 1
    info, args = c.struct('info', 'struct hg_cb_info'), c.struct('args', A)
    n = z3.Int('n_objs')
    data = c.obj('data_buf', 8 * n)
    c.assume(n >= 0, n < 2 ** 31)
    c.distinct(info, args, data, PV(h.G, 0))
    F = lambda st, f: c.fld(st, args, A, f)
    c.assume(c.fld(c.st, info, 'struct hg_cb_info', 'arg') == args.o, F(c.st, 'handle') == h.handle, F(c.st, 'data_buf') == data.o)
    off = c.unit.field(A, 'in')[0]
    no, nt = c.unit.field('transfer_request_wait_all_in_t', 'n_objs')
    c.assume(c.cell(c.st, args.o, off + no, nt) == n)
    ids = c.row(c.st, 'u64', data.o)
    h.asked = lambda st: z3.Select(ids, h.gh(st, 5))

    def gen(L):
        lst = [('one question per turn', lambda st, it: h.gh(st, 5) == it), ('the pending requests are attached', lambda st, it: h.gh(st, 6) == h.gh(st, 7)), ('counts are not negative', lambda st, it: z3.And(h.gh(st, 7) >= 0, h.gh(st, 7) <= it)),
               ('no answer yet', lambda st, it: z3.And(h.gh(st, 0) == 0, h.gh(st, 3) == 0, h.gh(st, 11) == 1, h.gh(st, 13) == 0)), ('the identifiers stay', lambda st, it: sel(c.eng.M(st, 'u64'), data.o) == ids),
               ('not past the last', lambda st, it: it <= n)]
        for nm, vid, ty in L.vars(INT, mod=True):
            lst.append(('%s counts' % nm, lambda st, it, vid=vid: st.env[vid].t == it))
            lst.append(('%s says that nothing is pending' % nm, lambda st, it, vid=vid: z3.And(z3.Or(st.env[vid].t == 0, st.env[vid].t == 1), (st.env[vid].t == 0) == (h.gh(st, 7) > 0))))
        for nm, vid, ty in L.vars(PTR, mod=True):
            lst.append(('%s walks over the identifiers' % nm, lambda st, it, vid=vid: z3.And(st.env[vid].o == data.o, st.env[vid].off == 8 * it)))
        for nm, vid, ty in L.vars(PTR, mod=False):
            v = L.entry.env[vid]
            if isinstance(v, PV):
                lst.append(('%s is the counter of the waiter' % nm, lambda st, it, v=v: z3.And(z3.Select(sel(c.eng.M(st, 's32'), v.o), 0) == h.gh(st, 7), z3.Or(h.gh(st, 7) == 0, h.gh(st, 8) == v.o))))
        return lst
    c.eng.loopgen.append(gen)
    for st, ret in c.run(c.name, info):
        g = lambda i: h.gh(st, i)
        h.outcome(st, g(6) > 0, -1)
        c.post(st, 'asks for every request', g(5) == n)
        c.post(st, 'the buffer and the argument are released', z3.And(z3.Not(z3.Select(st.alive, data.o)), z3.Not(z3.Select(st.alive, args.o))))
    return c


PROOFS = [('PDC_commit_request', commit), ('PDC_finish_request', finish), ('PDC_check_request', check), ('PDC_try_finish_request', attach), ('PDC_transfer_request_id_register', register),
          ('transfer_request_wait_cb', wait), ('transfer_request_status_cb', status), ('transfer_request_wait_all_bulk_transfer_cb', wait_all)]
NATIVE = dict(src='native/p15_requests.c', server=True, stub=True, flags=['-fcommon', '-DSRC_T="%s/%s"' % (REPO, T), '-DSRC_C="%s/%s"' % (REPO, TU)], time=8)
LEVEL = 'proof'
RULE = 'random histories of commits, completions, status questions and waits through the RPC handlers, against a table; distinct = distinct histories by hash'
ASSUMPTIONS = ['one handler at a time holds the lock of the table (the handlers take it: proved; thread schedules themselves are not explored)', 'request identifiers are distinct (each comes from PDC_transfer_request_id_register) and fewer than 2^64',
               'a waiter\'s counter counts the requests attached to it (at least 1 while one is attached)', 'malloc succeeds']
TRUSTED = ['HG_Respond, HG_Destroy, HG_Get_input, HG_Free_input, HG_Bulk_free: recorded in ghost cells', 'stub Mercury headers in /verif/stub (Mercury is not installed)']

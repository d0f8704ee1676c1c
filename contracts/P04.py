"""P04: the vector is an append-only sequence and the stack is last-in first-out."""
from vf.proof import *

FV_, FS = 'src/commons/collections/pdc_vector.c', 'src/commons/collections/pdc_stack.c'
RV, RI, RS = 'PDC_VECTOR', 'PDC_VECTOR_ITERATOR', 'PDC_stack_t'
MAXB = 2 ** 48
k = z3.Int('k?')


def vview(c, st, v):
    items, n, cap = [c.fld(st, v, RV, f) for f in ('items', 'item_count', 'capacity')]
    row = c.row(st, 'p', items)
    inv = z3.And(items > 0, z3.Select(st.alive, items), z3.Select(st.osize, items) == 8 * cap, items != v.o, n >= 0, n <= cap)
    return dict(items=items, n=n, cap=cap, row=row, at=lambda i: z3.Select(row, i), inv=inv)


def sview(c, st, s):
    d, n, cap = [c.fld(st, s, RS, f) for f in ('data', 'size', 'capacity')]
    row = c.row(st, 'p', d)
    inv = z3.And(d > 0, z3.Select(st.alive, d), z3.Select(st.osize, d) == 8 * cap, d != s.o, n >= 0, n <= cap, cap >= 1)
    return dict(items=d, n=n, cap=cap, row=row, at=lambda i: z3.Select(row, i), inv=inv)


def vec(fn, body, **o):
    def proof(opts):
        c = Ctx(fn, FV_, opts=dict(opts, **o))
        v = c.struct('vector', RV)
        c.field_range(RV, v, 'item_count', 'capacity')
        V = vview(c, c.st, v)
        c.assume(V['inv'], 16 * V['cap'] <= MAXB)
        body(c, fn, v, V)
        return c
    return proof


def same(c, V, W):
    i = fresh('i')
    return z3.And(W['n'] == V['n'], z3.Implies(z3.And(0 <= i, i < V['n']), W['at'](i) == V['at'](i)))


def add(c, fn, v, V):
    it = c.opaque('item')
    c.assume(it.o != v.o)
    st0 = c.st.copy()
    i = fresh('i')
    for st, r in c.run(fn, v, it):
        W = vview(c, st, v)
        c.post(st, 'representation invariant re-established', W['inv'])
        full = z3.And(V['n'] == V['cap'])
        c.post(st, 'the sequence grows by exactly the item, or (NULL item, or no memory to grow) is unchanged', z3.Or(
            z3.And(it.o != 0, W['n'] == V['n'] + 1), z3.And(z3.Or(it.o == 0, full), W['n'] == V['n'])))
        c.post(st, 'earlier items keep value and position', z3.Implies(z3.And(0 <= i, i < V['n']), W['at'](i) == V['at'](i)))
        c.post(st, 'the new item is last', z3.Implies(W['n'] != V['n'], W['at'](V['n']) == it.o))
        c.frame(st0, st, [v.o, V['items']])


def get(c, fn, v, V):
    ix = c.int('index', 'size_t')
    st0 = c.st.copy()
    for st, r in c.run(fn, v, ix):
        c.post(st, 'the item at the index, NULL past the end', r.o == z3.If(ix.t < V['n'], V['at'](ix.t), 0))
        c.post(st, 'sequence unchanged', same(c, V, vview(c, st, v)))
        c.frame(st0, st, [])


def size(c, fn, v, V):
    st0 = c.st.copy()
    for st, r in c.run(fn, v):
        c.post(st, 'the number of items', r.t == V['n'])
        c.frame(st0, st, [])


def nxt(fn):
    def proof(opts):
        c = Ctx(fn, FV_, opts=opts)
        v, itr = c.struct('vector', RV), c.struct('iterator', RI)
        c.field_range(RV, v, 'item_count', 'capacity')
        c.field_range(RI, itr, 'index')
        V = vview(c, c.st, v)
        c.distinct(v, itr)
        ix = c.fld(c.st, itr, RI, 'index')
        c.assume(V['inv'], V['items'] != itr.o, c.fld(c.st, itr, RI, 'vector') == v.o, ix < 2 ** 63)
        st0 = c.st.copy()
        for st, r in c.run(fn, itr):
            if 'has' in fn:
                c.post(st, 'true exactly when an item is left', (r.t != 0) == (ix < V['n']))
                c.frame(st0, st, [])
            else:
                c.post(st, 'the items in order, then NULL', r.o == z3.If(ix < V['n'], V['at'](ix), 0))
                c.post(st, 'the iterator moves on by one', c.fld(st, itr, RI, 'index') == ix + 1)
                c.post(st, 'still iterates the same vector', c.fld(st, itr, RI, 'vector') == v.o)
                c.frame(st0, st, [itr.o])
        return c
    return proof


def itnew(c, fn, v, V):
    st0 = c.st.copy()
    for st, r in c.run(fn, v):
        nz = r.o != 0
        c.post(st, 'a fresh iterator at the first item', z3.Implies(nz, z3.And(z3.Not(z3.Select(st0.alive, r.o)), c.fld(st, r, RI, 'index') == 0,
                                                                               c.fld(st, r, RI, 'vector') == v.o)))
        c.frame(st0, st, [])


def create(opts):
    c = Ctx('pdc_vector_create', FV_, opts=dict(opts, malloc_fail=True))
    n = c.int('initial_capacity', 'size_t')
    c.assume(8 * n.t <= MAXB)
    st0 = c.st.copy()
    f = FV(z3.Const('factor', FLTS))
    for st, r in c.run('pdc_vector_create', n, f):
        nz = r.o != 0
        V = vview(c, st, r)
        c.post(st, 'an empty vector satisfying the invariant, or NULL', z3.Implies(nz, z3.And(V['inv'], V['n'] == 0, z3.Not(z3.Select(st0.alive, r.o)))))
        o = fresh('o')
        c.post(st, 'nothing is leaked on failure', z3.Implies(z3.And(r.o == 0, o > 0), z3.Select(st.alive, o) == z3.Select(st0.alive, o)))
        c.frame(st0, st, [])
    return c


def destroy(c, fn, v, V):
    mem, idx = uf('item_of', 1, z3.BoolSort()), uf('item_index', 1)
    o = z3.Int('o?')
    c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < V['n']), z3.And(V['at'](k) > 0, mem(V['at'](k)), idx(V['at'](k)) == k, z3.Select(c.st.alive, V['at'](k)),
                                                                   V['at'](k) != v.o, V['at'](k) != V['items'])), V['at'](k)),
             qall([o], z3.Implies(mem(o), z3.And(0 <= idx(o), idx(o) < V['n'], V['at'](idx(o)) == o)), mem(o)))
    a0 = c.st.alive

    def gen(L):
        return [('exactly the first it items are released', lambda s, it: qall([o], z3.Implies(
            o > 0, z3.Select(s.alive, o) == z3.And(z3.Select(a0, o), z3.Not(z3.And(mem(o), idx(o) < it)))), z3.Select(s.alive, o))),
            ('it <= count', lambda s, it: it <= V['n'])]
    c.eng.loopgen.append(gen)
    st0 = c.st.copy()
    for st, r in c.run(fn, v):
        w = fresh('o')
        c.post(st, 'the vector, its array and its items are released once each, nothing else', z3.Implies(
            w > 0, z3.Select(st.alive, w) == z3.And(z3.Select(a0, w), w != v.o, w != V['items'], z3.Not(mem(w)))))
        c.frame(st0, st, [v.o, V['items']])


def stk(fn):
    def proof(opts):
        c = Ctx(fn, FS, opts=opts)
        s = c.struct('stack', RS)
        c.field_range(RS, s, 'size', 'capacity')
        V = sview(c, c.st, s)
        c.assume(V['inv'], 16 * V['cap'] <= MAXB)
        i = fresh('i')
        inr = z3.And(0 <= i, i < V['n'])
        if fn == 'stack_push':
            x = c.opaque('value')
            st0 = c.st.copy()
            for st, r in c.run(fn, s, x):
                W = sview(c, st, s)
                c.post(st, 'representation invariant re-established', W['inv'])
                c.post(st, 'one more element, the pushed one on top', z3.And(W['n'] == V['n'] + 1, W['at'](V['n']) == x.o))
                c.post(st, 'the elements below are unchanged', z3.Implies(inr, W['at'](i) == V['at'](i)))
                c.frame(st0, st, [s.o, V['items']])
        elif fn == 'stack_pop':
            st0 = c.st.copy()
            for st, r in c.run(fn, s):
                W = sview(c, st, s)
                c.post(st, 'returns only when an element was there', V['n'] > 0)
                c.post(st, 'representation invariant re-established', W['inv'])
                c.post(st, 'returns the top element and removes it', z3.And(W['n'] == V['n'] - 1, r.o == V['at'](V['n'] - 1)))
                c.post(st, 'the elements below are unchanged', z3.Implies(z3.And(inr, i < W['n']), W['at'](i) == V['at'](i)))
                c.frame(st0, st, [s.o])
        else:
            st0 = c.st.copy()
            for st, r in c.run(fn, s):
                w = fresh('o')
                c.post(st, 'releases the storage and nothing else', z3.Implies(w > 0, z3.Select(st.alive, w) == z3.And(z3.Select(st0.alive, w), w != V['items'])))
                c.frame(st0, st, [s.o])
        return c
    return proof


def sinit(opts):
    c = Ctx('stack_init', FS, opts=opts)
    s = c.struct('stack', RS)
    st0 = c.st.copy()
    for st, r in c.run('stack_init', s):
        V = sview(c, st, s)
        c.post(st, 'an empty stack satisfying the invariant', z3.And(V['inv'], V['n'] == 0))
        c.frame(st0, st, [s.o])
    return c


PROOFS = [('pdc_vector_create', create), ('pdc_vector_add', vec('pdc_vector_add', add, malloc_fail=True, f2i_max=2 ** 60)), ('pdc_vector_get', vec('pdc_vector_get', get)),
          ('pdc_vector_size', vec('pdc_vector_size', size)), ('pdc_vector_destroy', vec('pdc_vector_destroy', destroy)),
          ('pdc_vector_iterator_new', vec('pdc_vector_iterator_new', itnew, malloc_fail=True)), ('pdc_vector_iterator_next', nxt('pdc_vector_iterator_next')),
          ('pdc_vector_iterator_has_next', nxt('pdc_vector_iterator_has_next')),
          ('stack_init', sinit), ('stack_push', stk('stack_push')), ('stack_pop', stk('stack_pop')), ('stack_free', stk('stack_free'))]
from vf.cast import REPO
NATIVE = dict(src='native/p04_vec.c', flags=['-DSRC_C="%s/%s"' % (REPO, FV_), '-DSRC_C2="%s/%s"' % (REPO, FS)], time=6)
RULE = 'random add/get/iterate/destroy histories of vectors (any capacity and expansion factor, with allocation failures) and push/pop histories of stacks'
ASSUMPTIONS = ['fewer than 2^44 elements', 'capacity times expansion factor is below 2^60 (beyond it the byte count wraps)', 'malloc succeeds in stack_init (push exits the process when it fails)',
               'pdc_vector_destroy is given items that are distinct heap objects (its documented ownership)']

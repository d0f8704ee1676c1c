"""P03: the double-ended queue is an abstract sequence."""
from vf.proof import *

F = 'src/commons/collections/pdc_deque.c'
R = 'PDC_deque_t'
MAXB = 2 ** 48
k = z3.Int('k?')


def view(c, st, dq):
    g = lambda f: c.fld(st, dq, R, f)
    data, size, cap, head, tail = [g(x) for x in ('data', 'size', 'capacity', 'head', 'tail')]
    row = c.row(st, 'p', data)

    def at(i):
        return z3.Select(row, z3.If(head + i < cap, head + i, head + i - cap))
    inv = z3.And(data > 0, z3.Select(st.alive, data), z3.Select(st.osize, data) == 8 * cap, data != dq.o,
                 cap >= 1, head >= 0, head < cap, size >= 0, size <= cap, tail >= 0,
                 z3.Or(z3.And(head + size < cap, tail == head + size), z3.And(head + size >= cap, tail == head + size - cap)))
    return dict(data=data, size=size, cap=cap, head=head, tail=tail, at=at, inv=inv, row=row)


def loops(c, dq):
    def gen(L):
        E = L.entry
        V = view(c, E, dq)
        out = []
        for f in ('data', 'size', 'capacity', 'tail', 'head'):
            x = c.fld(E, dq, R, f)
            out.append(('deque.%s unchanged' % f, lambda s, it, f=f, x=x: c.fld(s, dq, R, f) == x))
        for f in ('head', 'tail'):
            x = c.fld(E, dq, R, f)
            out.append(('deque.%s advanced it (mod capacity)' % f, lambda s, it, f=f, x=x: c.fld(s, dq, R, f) == z3.If(x + it < V['cap'], x + it, x + it - V['cap'])))
        out.append(('it <= size', lambda s, it: it <= V['size']))
        out.append(('old storage unchanged', lambda s, it: c.row(s, 'p', V['data']) == V['row']))
        for nm, vid, t in L.vars(INT):
            v = E.env[vid]
            if isinstance(v, IV):
                out.append(('%s walks from head (mod capacity)' % nm, lambda s, it, vid=vid: s.env[vid].t == z3.If(V['head'] + it < V['cap'], V['head'] + it, V['head'] + it - V['cap'])))
                out.append(('%s counts down from size' % nm, lambda s, it, vid=vid: s.env[vid].t == V['size'] - it))
        objs = [(nm, E.env[vid].o) for nm, vid, t in L.vars(PTR) if isinstance(E.env[vid], PV)] + [('storage', V['data'])]
        for nm, o in objs:
            out.append(('%s holds the first it elements' % nm, lambda s, it, o=o: z3.ForAll(
                [k], z3.Implies(z3.And(0 <= k, k < it), z3.Select(c.row(s, 'p', o), k) == V['at'](k)), patterns=[z3.Select(c.row(s, 'p', o), k)])))
            out.append(('%s holds the last it elements' % nm, lambda s, it, o=o: z3.ForAll(
                [k], z3.Implies(z3.And(V['size'] - it <= k, k < V['size']), z3.Select(c.row(s, 'p', o), k) == V['at'](k)), patterns=[z3.Select(c.row(s, 'p', o), k)])))
        return out
    return gen


def mk(fn, kind):
    def proof(opts):
        c = Ctx(fn, F, opts=opts)
        dq = c.struct('deque', R)
        v = c.opaque('value')
        c.field_range(R, dq, 'size', 'capacity', 'head', 'tail')
        V = view(c, c.st, dq)
        c.assume(V['inv'], 16 * V['cap'] <= MAXB)
        st0 = c.st.copy()
        c.eng.loopgen.append(loops(c, dq))
        i = fresh('i')
        n = V['size']
        for st, r in c.run(fn, dq, *([v] if 'push' in kind else [])):
            W = view(c, st, dq)
            c.post(st, 'representation invariant re-established', W['inv'])
            inr = z3.And(0 <= i, i < W['size'])
            if kind == 'push_back':
                c.post(st, 'size grows by one', W['size'] == n + 1)
                c.post(st, 'sequence = old ++ [value]', z3.Implies(inr, W['at'](i) == z3.If(i < n, V['at'](i), v.o)))
            if kind == 'push_front':
                c.post(st, 'size grows by one', W['size'] == n + 1)
                c.post(st, 'sequence = [value] ++ old', z3.Implies(inr, W['at'](i) == z3.If(i == 0, v.o, V['at'](i - 1))))
            if kind == 'pop_front':
                c.post(st, 'returns the first element, NULL when empty', r.o == z3.If(n == 0, 0, V['at'](z3.IntVal(0))))
                c.post(st, 'size shrinks by one', W['size'] == z3.If(n == 0, 0, n - 1))
                c.post(st, 'sequence = tail of old', z3.Implies(inr, W['at'](i) == V['at'](i + 1)))
            if kind == 'pop_back':
                c.post(st, 'returns the last element, NULL when empty', r.o == z3.If(n == 0, 0, V['at'](n - 1)))
                c.post(st, 'size shrinks by one', W['size'] == z3.If(n == 0, 0, n - 1))
                c.post(st, 'sequence = old without its last', z3.Implies(inr, W['at'](i) == V['at'](i)))
            c.frame(st0, st, [dq.o, V['data']])
        return c
    return proof


def init(opts):
    c = Ctx('PDC_deque_init', F, opts=opts)
    dq = c.struct('deque', R)
    st0 = c.st.copy()
    for st, r in c.run('PDC_deque_init', dq):
        W = view(c, st, dq)
        c.post(st, 'representation invariant established', W['inv'])
        c.post(st, 'empty sequence', W['size'] == 0)
        c.frame(st0, st, [dq.o])
    return c


def free(opts):
    c = Ctx('PDC_deque_free', F, opts=opts)
    dq = c.struct('deque', R)
    V = view(c, c.st, dq)
    c.assume(V['inv'])
    st0 = c.st.copy()
    for st, r in c.run('PDC_deque_free', dq):
        o = fresh('o')
        c.post(st, 'releases the storage and nothing else', z3.Implies(o > 0, z3.Select(st.alive, o) == z3.And(z3.Select(st0.alive, o), o != V['data'])))
        c.frame(st0, st, [dq.o])
    return c


PROOFS = [('init', init), ('push_back', mk('PDC_deque_push_back', 'push_back')), ('push_front', mk('PDC_deque_push_front', 'push_front')),
          ('pop_front', mk('PDC_deque_pop_front', 'pop_front')), ('pop_back', mk('PDC_deque_pop_back', 'pop_back')), ('free', free)]
NATIVE = dict(src='native/p03_deque.c', repo=[F], time=8)
RULE = 'random and phase-structured push/pop histories against an array model; distinct = distinct (operation, size, phase) histories by hash of the op sequence'
TRUSTED = []
ASSUMPTIONS = ['a deque never holds more than 2^43 elements (twice its capacity in bytes stays below 2^48)', 'malloc succeeds in init (resize exits the process when it fails)']

"""P13: the metadata index is an exact relation (word of key, word of value, object id).

Ghost state: class 'at' is the map word -> value of each radix tree, 'st' the ids of each set, 'ow' who owns an object
(the set an id was put into, the tree a value was put into).  Strings are abstract words; the operations on trees, sets and
strings are used through their contracts (decided by P08, P06 and P12)."""
from vf.proof import *
from vf.cast import REPO, server_flags
from vf import rpc
F = 'src/server/pdc_server_metadata_index.c'
SU = 'src/commons/utils/string_utils.c'
EX = rpc.FLAGS + server_flags()
k, w_, i_ = z3.Int('k?'), z3.Int('w?'), z3.Int('i?')
SID, LENW, CUT = uf('word', 1), uf('length', 1), uf('part', 3)
ZROW = z3.K(I, z3.IntVal(0))


class Index:
    def __init__(self, fn, opts):
        self.c = c = Ctx(fn, F, extra=EX, opts=dict(opts), more_units=[(SU, EX)])
        e = c.eng
        e.externs.update(strlen=self.strlen)
        e.contracts.update(substring=self.substring, art_search=self.art_search, art_insert=self.art_insert, art_delete=self.art_delete, art_tree_init=self.art_init,
                           set_new=self.set_new, set_register_free_function=self.noop, set_insert=self.set_insert, set_remove=self.set_remove, set_query=self.set_query,
                           set_num_entries=self.set_num, set_free=self.set_free, free=self.free, timer_start=self.noop, timer_pause=self.noop, art_size=self.art_size, art_tree_destroy=self.art_destroy)
        # nothing owns what is not allocated yet
        c.assume(qall([k], z3.Implies(z3.Not(z3.Select(c.st.alive, k)), self.own(c.st, k) == 0), self.g(c.st, 'ow', k)))

    # ghost accessors
    def g(self, st, cl, o):
        return sel(self.c.eng.M(st, cl), o)

    def put(self, st, cl, o, row):
        st.mem[cl] = z3.Store(self.c.eng.M(st, cl), o, row)
        self.c.eng.note_write(cl, o)

    def at(self, st, t, w):
        return z3.Select(self.g(st, 'at', t), w)

    def has(self, st, s, i):
        return z3.Select(self.g(st, 'st', s), i) != 0

    def own(self, st, o):
        return z3.Select(self.g(st, 'ow', o), 0)

    def rel(self, st, t, w, i):
        return z3.And(self.at(st, t, w) != 0, self.has(st, self.at(st, t, w), i))

    def idof(self, st, p):
        return self.c.cell(st, p.o, 0, (INT, 64, False))

    def inv(self, st, t):
        """the sets of a tree are its own"""
        s = self.at(st, t, w_)
        return qall([w_], z3.Implies(s != 0, z3.And(s > 0, z3.Select(st.alive, s), self.own(st, s) == t, z3.Select(self.g(st, 'ow', s), 1) == w_)), s)

    def tree(self, name):
        t = self.c.struct(name, 'art_tree')
        self.c.assume(self.inv(self.c.st, t.o), self.own(self.c.st, t.o) == 0)
        return t

    def str(self, name):
        s = self.c.opaque(name)
        self.c.assume(s.o > 0, z3.Select(self.c.st.alive, s.o), LENW(SID(s.o)) >= 0, LENW(SID(s.o)) < 2 ** 31 - 8)
        return s

    # strings
    def strlen(self, eng, st, a, ln):
        eng.oblige(st, 'strlen: of a live string', 'mem', z3.And(a[0].o != 0, z3.Select(st.alive, a[0].o), a[0].off == 0), ln)
        st.assume(LENW(SID(a[0].o)) >= 0)
        return [(st, IV(LENW(SID(a[0].o))))]

    def substring(self, eng, st, a, ln):
        w, s, e = SID(a[0].o), a[1].t, a[2].t
        n = LENW(w)
        eng.oblige(st, 'substring: of a live string', 'mem', z3.And(a[0].o != 0, z3.Select(st.alive, a[0].o), a[0].off == 0), ln)
        good = z3.And(0 <= s, s <= e, s <= n)
        e = z3.If(e < n, e, n)
        out = []
        s1 = st.copy()
        if eng.feasible(s1, z3.Not(good)):
            s1.assume(z3.Not(good))
            out.append((s1, NULL))
        st.assume(good)
        o = eng.new_object(st, e - s + 1, 'substring')
        st.assume(SID(o) == z3.If(z3.And(s == 0, e == n), w, CUT(w, s, e)), LENW(SID(o)) == e - s)
        return out + [(st, PV(o, 0))]

    # trees
    def key(self, eng, st, a, ln, what):
        eng.oblige(st, '%s: a live tree, and the whole key' % what, 'pre', z3.And(a[0].o != 0, z3.Select(st.alive, a[0].o), a[0].off == 0, a[1].o != 0, z3.Select(st.alive, a[1].o), a[1].off == 0, a[2].t == LENW(SID(a[1].o))), ln)
        return a[0].o, SID(a[1].o)

    def art_search(self, eng, st, a, ln):
        t, w = self.key(eng, st, a, ln, 'art_search')
        return [(st, PV(self.at(st, t, w), 0))]

    def art_insert(self, eng, st, a, ln):
        t, w = self.key(eng, st, a, ln, 'art_insert')
        v = a[3].o
        eng.oblige(st, 'art_insert: a value that no tree or set holds yet', 'pre', z3.And(v > 0, z3.Select(st.alive, v), a[3].off == 0, self.own(st, v) == 0), ln)
        old = self.at(st, t, w)
        self.put(st, 'ow', v, z3.Store(z3.Store(self.g(st, 'ow', v), 0, t), 1, w))
        self.put(st, 'at', t, z3.Store(self.g(st, 'at', t), w, v))
        return [(st, PV(old, 0))]

    def art_delete(self, eng, st, a, ln):
        t, w = self.key(eng, st, a, ln, 'art_delete')
        old = self.at(st, t, w)
        s = st.copy()
        self.put(st, 'ow', old, z3.If(old != 0, z3.Store(z3.Store(self.g(st, 'ow', old), 0, 0), 1, 0), self.g(st, 'ow', old)))
        self.put(st, 'at', t, z3.Store(self.g(st, 'at', t), w, 0))
        return [(st, PV(old, 0))]

    def art_init(self, eng, st, a, ln):
        eng.oblige(st, 'art_tree_init: of a new tree', 'pre', z3.And(z3.Select(st.alive, a[0].o), a[0].off == 0, self.own(st, a[0].o) == 0, z3.Not(z3.Select(self.st0.alive, a[0].o))), ln)
        self.put(st, 'at', a[0].o, ZROW)
        return [(st, IV(0))]

    def art_size(self, eng, st, a, ln):
        r = fresh('size')
        t = a[0].o
        st.assume(r >= 0, z3.Implies(r == 0, qall([w_], self.at(st, t, w_) == 0, self.at(st, t, w_))))
        return [(st, IV(r))]

    def art_destroy(self, eng, st, a, ln):
        q = fresh('w')
        eng.oblige(st, 'art_tree_destroy: of an empty tree', 'pre', self.at(st, a[0].o, q) == 0, ln)
        return [(st, IV(0))]

    # sets
    def noop(self, eng, st, a, ln):
        return [(st, None)]

    def set_new(self, eng, st, a, ln):
        o = eng.new_object(st, fresh('sz'), 'set')
        self.put(st, 'st', o, ZROW)
        self.put(st, 'ow', o, ZROW)
        return [(st, PV(o, 0))]

    def live(self, eng, st, s, ln, what):
        eng.oblige(st, '%s: a live set' % what, 'pre', z3.And(s.o != 0, z3.Select(st.alive, s.o), s.off == 0), ln)

    def set_insert(self, eng, st, a, ln):
        s, d = a
        self.live(eng, st, s, ln, 'set_insert')
        eng.oblige(st, 'set_insert: an id that no set holds yet (each set frees its ids)', 'pre', z3.And(d.o > 0, z3.Select(st.alive, d.o), d.off == 0, self.own(st, d.o) == 0), ln)
        i = self.idof(st, d)
        had = self.has(st, s.o, i)
        s1 = st.copy()
        s1.assume(had)
        s1.trace.append('already in the set')
        st.assume(z3.Not(had))
        self.put(st, 'ow', d.o, z3.Store(self.g(st, 'ow', d.o), 0, s.o))
        self.put(st, 'st', s.o, z3.Store(self.g(st, 'st', s.o), i, 1))
        r = fresh('ins')
        st.assume(r != 0)
        return [(st, IV(r)), (s1, IV(0))]

    def set_remove(self, eng, st, a, ln):
        self.live(eng, st, a[0], ln, 'set_remove')
        i = self.idof(st, a[1])
        r = fresh('rem')
        st.assume((r != 0) == self.has(st, a[0].o, i))
        self.put(st, 'st', a[0].o, z3.Store(self.g(st, 'st', a[0].o), i, 0))
        return [(st, IV(r))]

    def set_query(self, eng, st, a, ln):
        self.live(eng, st, a[0], ln, 'set_query')
        r = fresh('q')
        st.assume((r != 0) == self.has(st, a[0].o, self.idof(st, a[1])))
        return [(st, IV(r))]

    def set_num(self, eng, st, a, ln):
        self.live(eng, st, a[0], ln, 'set_num_entries')
        r, x = fresh('n'), fresh('x')
        st.assume(r >= 0, z3.Implies(r == 0, qall([i_], z3.Not(self.has(st, a[0].o, i_)), z3.Select(self.g(st, 'st', a[0].o), i_))), z3.Implies(r > 0, self.has(st, a[0].o, x)))
        return [(st, IV(r))]

    def set_free(self, eng, st, a, ln):
        self.live(eng, st, a[0], ln, 'set_free')
        eng.oblige(st, 'set_free: a set that no tree holds', 'pre', self.own(st, a[0].o) == 0, ln)
        st.alive = z3.Store(st.alive, a[0].o, z3.BoolVal(False))
        return [(st, None)]

    def free(self, eng, st, a, ln):
        eng.oblige(st, 'free: not what a set or tree holds', 'pre', z3.Implies(a[0].o != 0, self.own(st, a[0].o) == 0), ln)
        return eng.b_free(st, a, ln, [None])


def value_update(kind):
    def proof(opts):
        X = Index({'add': 'create_prefix_index_for_attr_value', 'del': 'delete_prefix_index_for_attr_value'}[kind], opts)
        c = X.c
        t = X.tree('tree')
        cell = c.obj('cell', 8)
        c.assume(c.cell(c.st, cell.o, 0, (PTR, (VOID,))) == t.o)
        s, d = X.str('attr_value'), c.obj('data', 8)
        c.field_range  # noqa
        c.assume(X.own(c.st, d.o) == 0, X.idof(c.st, d) >= 0, X.idof(c.st, d) < 2 ** 64)
        c.distinct(cell, d, t, s)
        c.assume(qall([w_], z3.And(*[X.at(c.st, t.o, w_) != x.o for x in (cell, d, t, s)]), X.at(c.st, t.o, w_)))
        X.st0 = st0 = c.st.copy()
        w, i, t2 = fresh('w'), fresh('i'), fresh('t')
        me = z3.And(w == SID(s.o), i == X.idof(st0, d))
        for st, r in c.run(c.name, cell, s, d):
            old, new = X.rel(st0, t.o, w, i), X.rel(st, t.o, w, i)
            c.post(st, 'succeeds', r.t >= 0)
            if kind == 'add':
                c.post(st, 'exactly the pair (value, object) is added', new == z3.Or(old, me))
            else:
                c.post(st, 'exactly the pair (value, object) is removed', new == z3.And(old, z3.Not(me)))
            c.post(st, 'the sets of the tree stay its own', z3.Implies(X.at(st, t.o, w) != 0, z3.And(z3.Select(st.alive, X.at(st, t.o, w)), X.own(st, X.at(st, t.o, w)) == t.o, z3.Select(X.g(st, 'ow', X.at(st, t.o, w)), 1) == w)))
            c.post(st, 'other trees keep their words', z3.Implies(z3.And(t2 != t.o, z3.Select(st0.alive, t2)), X.at(st, t2, w) == X.at(st0, t2, w)))
            u = fresh('s')
            c.post(st, 'sets of other trees keep their ids', z3.Implies(z3.And(z3.Select(st0.alive, u), X.own(st0, u) != t.o), X.g(st, 'st', u) == X.g(st0, 'st', u)))
            c.post(st, 'the id given stays the caller\'s', z3.And(z3.Select(st.alive, d.o), X.own(st, d.o) == 0, X.idof(st, d) == X.idof(st0, d)))
            c.post(st, 'the tree is the same', c.cell(st, cell.o, 0, (PTR, (VOID,))) == t.o)
        return c
    return proof


CNT, ITEM, IDX = uf('count', 1), uf('item', 2), uf('position', 2)
CONT = uf('contains', 2)


def iteration(X, src):
    """contract of the set iterator over `src`: items 0..CNT-1, one for each id"""
    c = X.c
    n = CNT(src)

    def cursor(st):
        return z3.Select(X.g(st, 'it', src), 0)

    def iterate(eng, st, a, ln):
        eng.oblige(st, 'set_iterate: the set at hand', 'pre', a[0].o == src, ln)
        X.put(st, 'it', src, z3.Store(X.g(st, 'it', src), 0, 0))
        return [(st, None)]

    def more(eng, st, a, ln):
        return [(st, IV(z3.If(cursor(st) < n, 1, 0)))]

    def nxt(eng, st, a, ln):
        eng.oblige(st, 'set_iter_next: there is a next item', 'pre', z3.And(cursor(st) >= 0, cursor(st) < n), ln)
        r = ITEM(src, cursor(st))
        X.put(st, 'it', src, z3.Store(X.g(st, 'it', src), 0, cursor(st) + 1))
        return [(st, PV(r, 0))]
    c.eng.contracts.update(set_iterate=iterate, set_iter_has_more=more, set_iter_next=nxt)
    i = lambda j: X.idof(c.st, PV(ITEM(src, j), 0))
    c.assume(n >= 0, qall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(ITEM(src, k) > 0, z3.Select(c.st.alive, ITEM(src, k)), z3.Select(c.st.osize, ITEM(src, k)) == 8, X.own(c.st, ITEM(src, k)) == src,
                                                                     i(k) >= 0, i(k) < 2 ** 64)), ITEM(src, k)))
    return n, i, cursor


def level_two(opts):
    X = Index('level_two_art_callback', opts)
    c = X.c
    P = 'pdc_art_iterator_param_t'
    prm = c.struct('param', P)
    key = X.str('key')
    src = c.opaque('value')
    out = c.fld(c.st, prm, P, 'out')
    inf = c.fld(c.st, prm, P, 'level_two_infix')
    c.assume(src.o >= 0, z3.Implies(src.o != 0, z3.Select(c.st.alive, src.o)), out > 0, z3.Select(c.st.alive, out), out != src.o, out != prm.o, src.o != prm.o, inf >= 0)
    c.assume(z3.Implies(inf != 0, z3.Select(c.st.alive, inf)))
    n, idn, cur = iteration(X, src.o)
    c.assume(qall([k], z3.And(ITEM(src.o, k) != prm.o, ITEM(src.o, k) != out), ITEM(src.o, k)))
    c.assume(qall([i_], z3.Implies(X.has(c.st, src.o, i_), z3.And(0 <= IDX(src.o, i_), IDX(src.o, i_) < n, idn(IDX(src.o, i_)) == i_)), IDX(src.o, i_)))
    c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < n), X.has(c.st, src.o, idn(k))), ITEM(src.o, k)))

    def contains(eng, st, a, ln):
        eng.oblige(st, 'contains: the infix in the key', 'pre', z3.And(a[0].o == key.o, a[1].o == inf, a[1].o != 0), ln)
        r = fresh('c')
        st.assume((r != 0) == (CONT(SID(key.o), SID(inf)) != 0))
        return [(st, IV(r))]
    c.eng.contracts['contains'] = contains
    X.st0 = st0 = c.st.copy()
    O = lambda st: X.g(st, 'st', out)

    def gen(L):
        return [('cursor = it', lambda st, it: cur(st) == it), ('it <= count', lambda st, it: it <= n),
                ('the first it ids are in the result', lambda st, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), X.has(st, out, idn(k))), ITEM(src.o, k))),
                ('no id is lost', lambda st, it: qall([i_], z3.Implies(X.has(st0, out, i_), X.has(st, out, i_)), z3.Select(O(st), i_))),
                ('no other id is in the result', lambda st, it: qall([i_], z3.Implies(X.has(st, out, i_), z3.Or(X.has(st0, out, i_), X.has(st0, src.o, i_))), z3.Select(O(st), i_))),
                ('nothing new owns an id of before', lambda st, it: qall([k], z3.Implies(z3.And(k > 0, z3.Select(st0.alive, k)), X.own(st, k) == X.own(st0, k)), X.g(st, 'ow', k))),
                ('nothing owns what is not allocated yet', lambda st, it: qall([k], z3.Implies(z3.Not(z3.Select(st.alive, k)), X.own(st, k) == 0), X.g(st, 'ow', k))),
                ('other sets are unchanged', lambda st, it: qall([k], z3.Implies(k != out, X.g(st, 'st', k) == X.g(st0, 'st', k)), X.g(st, 'st', k)))]
    c.eng.loopgen.append(gen)
    i, u = fresh('i'), fresh('u')
    hit = z3.And(src.o != 0, z3.Or(inf == 0, CONT(SID(key.o), SID(inf)) != 0))
    for st, r in c.run(c.name, prm, key, IV(LENW(SID(key.o))), src):
        s1 = st.copy()
        s1.assume(IDX(src.o, i) == IDX(src.o, i), ITEM(src.o, IDX(src.o, i)) == ITEM(src.o, IDX(src.o, i)))
        j = fresh('j')
        s1.assume(j == ITEM(src.o, IDX(src.o, i)))
        px = IDX(src.o, i)
        # instances of what was assumed of the source set, at id i
        s1.assume(z3.Implies(X.has(st0, src.o, i), z3.And(0 <= px, px < n, idn(px) == i)))
        c.post(s1, 'the ids of the set are added to the result, if the word passes the infix filter', z3.Implies(z3.And(X.has(st0, src.o, i), hit), X.has(st, out, i)))
        c.post(st, 'nothing is lost from the result', z3.Implies(X.has(st0, out, i), X.has(st, out, i)))
        c.post(st, 'nothing else is added', z3.Implies(X.has(st, out, i), z3.Or(X.has(st0, out, i), z3.And(hit, X.has(st0, src.o, i)))))
        c.post(st, 'goes on', r.t == 0)
        c.post(st, 'other sets are unchanged', z3.Implies(z3.And(z3.Select(st0.alive, u), u != out), X.g(st, 'st', u) == X.g(st0, 'st', u)))
        c.frame(st0, st, [], [x for x in st.mem if x in ('p', 'u64', 'b')])
    return c


PT = uf('pattern_type', 1)
ADDS, ADDP, ADDA = uf('add_set', 2), uf('add_words_with_prefix', 3), uf('add_all_words', 3)
HASCH = uf('has_character', 2)
KEYW, VALW = uf('key_part', 1), uf('value_part', 1)


def level_one(opts):
    """the result is a ghost value; adding a set, or the sets of all words with a prefix, to it are functions of it"""
    X = Index('level_one_art_callback', opts)
    c = X.c
    P, LF = 'pdc_art_iterator_param_t', 'key_index_leaf_content'
    prm, leaf = c.struct('param', P), c.struct('leaf', LF)
    key = X.str('key')
    q = PV(c.fld(c.st, prm, P, 'query_str'), 0)
    inf = c.fld(c.st, prm, P, 'level_one_infix')
    tree = c.fld(c.st, leaf, LF, 'extra_prefix_index')
    c.assume(q.o > 0, z3.Select(c.st.alive, q.o), LENW(SID(q.o)) >= 0, LENW(SID(q.o)) < 2 ** 31 - 8, inf >= 0, tree >= 0, z3.Implies(tree != 0, z3.Select(c.st.alive, tree)))
    c.distinct(prm, leaf, key, q)
    c.assume(z3.Implies(tree != 0, z3.And(*[tree != x.o for x in (prm, leaf, key, q)])))
    g = z3.Int('result')
    OUT = lambda st: z3.Select(X.g(st, 'out', g), 0)
    setout = lambda st, v: X.put(st, 'out', g, z3.Store(X.g(st, 'out', g), 0, v))
    w, n = SID(q.o), LENW(SID(q.o))
    E = c.unit.enums
    EXACT, PRE, SUF, MID = [E['PATTERN_' + x] for x in ('EXACT', 'PREFIX', 'SUFFIX', 'MIDDLE')]
    c.assume(z3.Or(PT(w) == EXACT, z3.And(PT(w) == PRE, n >= 1), z3.And(PT(w) == SUF, n >= 2), z3.And(PT(w) == MID, n >= 2)))

    def contains(eng, st, a, ln):
        eng.oblige(st, 'contains: the infix in the key', 'pre', z3.And(a[0].o == key.o, a[1].o == inf, a[1].o != 0), ln)
        r = fresh('c')
        st.assume((r != 0) == (CONT(SID(key.o), SID(inf)) != 0))
        return [(st, IV(r))]

    def strchr(eng, st, a, ln):
        r, o = fresh('at'), fresh('off')
        st.assume(o >= 0, r == z3.If(HASCH(SID(a[0].o), a[1].t) != 0, a[0].o, 0))
        return [(st, PV(r, o))]

    def ptype(eng, st, a, ln):
        eng.oblige(st, 'determine_pattern_type: of a live string', 'mem', z3.And(a[0].o != 0, z3.Select(st.alive, a[0].o)), ln)
        return [(st, IV(PT(SID(a[0].o))))]

    def two(eng, st, a, ln):
        eng.oblige(st, 'level_two_art_callback: for this search', 'pre', z3.And(a[0].o == prm.o, a[1].o != 0, a[2].t == LENW(SID(a[1].o))), ln)
        eng.oblige(st, 'level_two_art_callback: no infix filter', 'pre', c.fld(st, prm, P, 'level_two_infix') == c.fld(c.st, prm, P, 'level_two_infix'), ln)
        setout(st, ADDS(OUT(st), a[3].o))
        return [(st, IV(0))]

    def iterp(eng, st, a, ln):
        X.key(eng, st, a, ln, 'art_iter_prefix')
        eng.oblige(st, 'art_iter_prefix: visits the words with the level two callback, for this search', 'pre', z3.And(a[3].o == c.eng.fn_const('level_two_art_callback'), a[4].o == prm.o), ln)
        setout(st, ADDP(OUT(st), a[0].o, SID(a[1].o)))
        return [(st, IV(0))]
    c.eng.contracts.update(contains=contains, determine_pattern_type=ptype, level_two_art_callback=two, art_iter_prefix=iterp)
    c.eng.externs['strchr'] = strchr
    X.st0 = st0 = c.st.copy()
    part = lambda a, b: z3.If(z3.And(a == 0, b == n), w, CUT(w, a, b))
    ex = lambda o, v: z3.If(X.at(st0, tree, v) != 0, ADDS(o, X.at(st0, tree, v)), o)
    o0 = OUT(st0)
    new = z3.If(PT(w) == EXACT, ex(o0, w), z3.If(PT(w) == PRE, ADDP(o0, tree, part(z3.IntVal(0), n - 1)), z3.If(PT(w) == SUF, ex(o0, part(z3.IntVal(1), n)), ADDP(o0, tree, part(z3.IntVal(1), n - 1)))))
    pas = z3.Or(inf == 0, CONT(SID(key.o), SID(inf)) != 0)
    for st, r in c.run(c.name, prm, key, IV(LENW(SID(key.o))), leaf):
        c.post(st, 'adds the sets of exactly the words the value pattern denotes', OUT(st) == z3.If(z3.And(pas, tree != 0, HASCH(w, 126) == 0), new, o0))
        c.post(st, 'goes on', r.t == 0)
        c.frame(st0, st, [], [x for x in st.mem if x in ('p', 'u64', 'at', 'st')])
    return c


def search(opts):
    X = Index('metadata_index_search', opts)
    c = X.c
    q = X.str('query')
    np_, bp = c.obj('n_obj_ids_ptr', 8), c.obj('buf_ptrs', 8)
    c.distinct(q, np_, bp)
    gl = z3.Int('glob_art_key_prefix_tree_g')
    tree = c.cell(c.st, gl, 0, (PTR, (VOID,)))
    rc = c.cell(c.st, z3.Int('glob_server_request_count_g'), 0, (INT, 64, True))
    c.assume(gl > 0, rc >= 0, rc < 2 ** 62, tree > 0, z3.Select(c.st.alive, tree), z3.Select(c.st.alive, gl), *[x.o != gl for x in (q, np_, bp)], *[x.o != tree for x in (q, np_, bp)])
    w = SID(q.o)
    kw, vw = KEYW(w), VALW(w)
    n = LENW(kw)
    E = c.unit.enums
    EXACT, PRE, SUF, MID = [E['PATTERN_' + x] for x in ('EXACT', 'PREFIX', 'SUFFIX', 'MIDDLE')]
    c.assume(n >= 0, n < 2 ** 31 - 8, z3.Or(PT(kw) == EXACT, z3.And(PT(kw) == PRE, n >= 1), z3.And(PT(kw) == SUF, n >= 2), z3.And(PT(kw) == MID, n >= 2)))
    g = z3.Int('result')
    OUT = lambda st: z3.Select(X.g(st, 'out', g), 0)
    setout = lambda st, v: X.put(st, 'out', g, z3.Store(X.g(st, 'out', g), 0, v))
    P = 'pdc_art_iterator_param_t'
    eq = HASCH(w, 61) != 0

    def strchr(eng, st, a, ln):
        r, o = fresh('at'), fresh('off')
        st.assume(o >= 0, r == z3.If(HASCH(SID(a[0].o), a[1].t) != 0, a[0].o, 0))
        return [(st, PV(r, o))]

    def part(f):
        def h(eng, st, a, ln):
            eng.oblige(st, 'get_key/get_value: of the query, at =', 'pre', z3.And(a[0].o == q.o, a[1].t == 61), ln)
            s1 = st.copy()
            s1.assume(z3.Not(eq))
            st.assume(eq)
            o = eng.new_object(st, fresh('sz'), 'part')
            st.assume(SID(o) == f(w))
            return [(st, PV(o, 0)), (s1, NULL)]
        return h

    def ptype(eng, st, a, ln):
        eng.oblige(st, 'determine_pattern_type: of a live string', 'mem', z3.And(a[0].o != 0, z3.Select(st.alive, a[0].o)), ln)
        return [(st, IV(PT(SID(a[0].o))))]

    def param(eng, st, p, ln):
        f = lambda x: c.fld(st, p, P, x)
        eng.oblige(st, 'the search parameters: value pattern, no filters, the result set', 'pre', z3.And(z3.Select(st.alive, p.o), SID(f('query_str')) == vw, f('level_one_infix') == 0, f('level_two_infix') == 0, f('out') != 0, z3.Select(st.alive, f('out'))), ln)
        s1 = st.env.get('#out')

    def one(eng, st, a, ln):
        param(eng, st, a[0], ln)
        eng.oblige(st, 'level_one_art_callback: key and its length', 'pre', z3.And(a[1].o != 0, a[2].t == LENW(SID(a[1].o))), ln)
        setout(st, ADDS(OUT(st), a[3].o))
        return [(st, IV(0))]

    def iterp(eng, st, a, ln):
        X.key(eng, st, a, ln, 'art_iter_prefix')
        param(eng, st, a[4], ln)
        eng.oblige(st, 'art_iter_prefix: visits the keys with the level one callback', 'pre', a[3].o == c.eng.fn_const('level_one_art_callback'), ln)
        setout(st, ADDP(OUT(st), a[0].o, SID(a[1].o)))
        return [(st, IV(0))]
    OID = uf('result_set', 1)

    def set_new(eng, st, a, ln):
        r = X.set_new(eng, st, a, ln)
        setout(st, z3.IntVal(0))
        X.out = r[0][1].o
        return r

    # the ids in the final result, as an enumeration of the ghost value
    RN, RID = uf('ids_in_result', 1), uf('id_in_result', 2)
    cur = lambda st: z3.Select(X.g(st, 'it', g), 0)

    def num(eng, st, a, ln):
        X.live(eng, st, a[0], ln, 'set_num_entries')
        eng.oblige(st, 'set_num_entries: of the result set', 'pre', a[0].o == X.out, ln)
        st.assume(RN(OUT(st)) >= 0, RN(OUT(st)) < 2 ** 31)
        return [(st, IV(RN(OUT(st))))]

    def iterate(eng, st, a, ln):
        eng.oblige(st, 'set_iterate: over the result set', 'pre', a[0].o == X.out, ln)
        X.put(st, 'it', g, z3.Store(X.g(st, 'it', g), 0, 0))
        return [(st, None)]

    def more(eng, st, a, ln):
        return [(st, IV(z3.If(cur(st) < RN(OUT(st)), 1, 0)))]

    def nxt(eng, st, a, ln):
        eng.oblige(st, 'set_iter_next: there is a next item', 'pre', z3.And(cur(st) >= 0, cur(st) < RN(OUT(st))), ln)
        o = fresh('item')
        st.assume(o > 0, z3.Select(st.alive, o), z3.Select(st.osize, o) == 8, X.own(st, o) != 0, X.idof(st, PV(o, 0)) == RID(OUT(st), cur(st)), RID(OUT(st), cur(st)) >= 0, RID(OUT(st), cur(st)) < 2 ** 64)
        X.put(st, 'it', g, z3.Store(X.g(st, 'it', g), 0, cur(st) + 1))
        return [(st, PV(o, 0))]
    c.eng.contracts.update(determine_pattern_type=ptype, level_one_art_callback=one, art_iter_prefix=iterp, get_key=part(KEYW), get_value=part(VALW), set_new=set_new, set_num_entries=num,
                           set_iterate=iterate, set_iter_has_more=more, set_iter_next=nxt)
    c.eng.externs['strchr'] = strchr
    buf = lambda st: c.cell(st, bp.o, 0, (PTR, (VOID,)))

    def gen(L):
        b, o1 = buf(L.entry), OUT(L.entry)
        out = [('cursor = it', lambda st, it: cur(st) == it), ('it <= count', lambda st, it: it <= RN(o1)),
               ('the first it ids are copied', lambda st, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), z3.Select(c.row(st, 'u64', b), k) == RID(o1, k)), z3.Select(c.row(st, 'u64', b), k)))]
        for nm, vid, t in L.vars(INT):
            out.append(('%s = it' % nm, lambda st, it, vid=vid: st.env[vid].t == it))
        return out
    c.eng.loopgen.append(gen)
    X.st0 = st0 = c.st.copy()
    part_ = lambda a, b: z3.If(z3.And(a == 0, b == n), kw, CUT(kw, a, b))
    Z = z3.IntVal(0)
    ex = lambda v: z3.If(X.at(st0, tree, v) != 0, ADDS(Z, X.at(st0, tree, v)), Z)
    want = z3.If(PT(kw) == EXACT, ex(kw), z3.If(PT(kw) == PRE, ADDP(Z, tree, part_(Z, n - 1)), z3.If(PT(kw) == SUF, ex(part_(z3.IntVal(1), n)), ADDP(Z, tree, part_(z3.IntVal(1), n - 1)))))
    i = fresh('i')
    for st, r in c.run(c.name, q, c.int('index_type', 'int'), np_, bp):
        cnt = c.cell(st, np_.o, 0, (INT, 64, False))
        c.post(st, 'a query without = finds nothing', z3.Implies(z3.Not(eq), cnt == 0))
        c.post(st, 'collects exactly the keys the key pattern denotes', z3.Implies(eq, OUT(st) == want))
        c.post(st, 'reports the number of ids', z3.Implies(eq, cnt == RN(want)))
        c.post(st, 'and each id', z3.Implies(z3.And(eq, 0 <= i, i < cnt), z3.Select(c.row(st, 'u64', buf(st)), i) == RID(want, i)))
        c.frame(st0, st, [bp.o], ['p'])
        c.frame(st0, st, [np_.o], ['u64'])
    return c


C_ = 'src/commons/'
SRCS = [C_ + 'utils/string_utils.c', C_ + 'utils/query_utils.c', C_ + 'collections/art.c', C_ + 'collections/pdc_set.c', C_ + 'collections/pdc_hash.c', C_ + 'collections/pdc_compare.c', C_ + 'utils/timer_utils.c', C_ + 'utils/pdc_malloc.c']
NATIVE = [dict(src='native/p13_index.c', server=True, stub=True, flags=['-DSRC_C="%s/%s"' % (REPO, F)] + x, repo=SRCS, time=6) for x in ([], ['-DNO_SFX'])]
PROOFS = [('create_prefix_index_for_attr_value', value_update('add')), ('delete_prefix_index_for_attr_value', value_update('del')),
          ('level_two_art_callback', level_two), ('level_one_art_callback', level_one), ('metadata_index_search', search)]
RULE = 'random histories of inserts, deletes and searches through the server entry points, against a relation; distinct = distinct histories by hash'
ASSUMPTIONS = ['malloc succeeds in the searches', 'attribute names and values are shorter than 2^31 - 8 characters', 'fewer than 2^62 requests',
               'the loops over the suffixes of key and value (create_index_for_attr_name, delete_index_for_attr_name) are decided natively only']
TRUSTED = ['contracts of the radix tree, the set, substring and determine_pattern_type (P08, P06, P12) used for the calls']

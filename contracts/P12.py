"""P12: wildcard matching and tag lists."""
from vf.proof import *
from vf.cstr import Strings

F = 'src/commons/utils/string_utils.c'
Q = 'src/commons/utils/query_utils.c'
k = z3.Int('k?')
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def ch(S, st, p, i):
    return z3.Select(S.row(st, p.o), i)


def occurs(S, st, a, la, p, b, off, n):
    """the n characters of b from off occur in a at p"""
    ra, rb = S.row(st, a.o), S.row(st, b.o)
    return z3.And(0 <= p, p + n <= la, z3.ForAll([k], z3.Implies(z3.And(off <= k, k < off + n), z3.Select(ra, p + k - off) == z3.Select(rb, k)), patterns=[z3.Select(rb, k)]))


def only_if(c, S, st, what, r, guard, a, la, p, b, off, n):
    """r != 0 (under guard) only if the characters occur in a at p; and if they do, r != 0"""
    i = fresh('i')
    c.post(st, 'accepts only %s' % what, z3.Implies(z3.And(r != 0, guard), z3.And(0 <= p, p + n <= la, z3.Implies(z3.And(off <= i, i < off + n), ch(S, st, a, p + i - off) == ch(S, st, b, i)))))
    c.post(st, 'accepts every %s' % what, z3.Implies(z3.And(guard, occurs(S, st, a, la, p, b, off, n)), r != 0))


def infix(c, S, st, r, guard, a, la, b, off, n):
    q, i, p = z3.Int('q?'), fresh('i'), fresh('p')
    c.post(st, 'accepts every string that contains the characters', z3.Implies(z3.And(guard, occurs(S, st, a, la, p, b, off, n), ch(S, st, a, p) >= 0), r != 0))
    alts = [z3.And(0 <= f, f + n <= la, z3.Implies(z3.And(off <= i, i < off + n), ch(S, st, a, f + i - off) == ch(S, st, b, i))) for f in S.found for i in [fresh('i')]]
    c.post(st, 'accepts only a string that contains the characters', z3.Implies(z3.And(r != 0, guard), z3.Or(alts) if alts else FALSE))


def two(fn, kind):
    def proof(opts):
        c = Ctx(fn, F, opts=opts)
        S = Strings(c)
        nul = kind in ('prefix', 'suffix')
        a, la = S.new('str', maybe_null=nul)
        b, lb = S.new('tok', maybe_null=nul)
        st0 = c.st.copy()
        for st, r in c.run(fn, a, b):
            g = z3.And(a.o != 0, b.o != 0)
            c.post(st, 'no match with a missing string', z3.Implies(z3.Not(g), r.t == 0))
            if kind == 'prefix':
                only_if(c, S, st, 'string that starts with the characters', r.t, g, a, la, z3.IntVal(0), b, 0, lb)
            elif kind == 'suffix':
                only_if(c, S, st, 'string that ends with the characters', r.t, g, a, la, la - lb, b, 0, lb)
            elif kind == 'equal':
                only_if(c, S, st, 'equal string', r.t, la == lb, a, la, z3.IntVal(0), b, 0, lb)
                c.post(st, 'accepts no string of another length', z3.Implies(r.t != 0, la == lb))
            else:
                infix(c, S, st, r.t, g, a, la, b, 0, lb)
            c.frame(st0, st, [])
        return c
    return proof


def shape(S, st, p, lp):
    star = lambda i: ch(S, st, p, i) == 42
    lead = z3.And(lp >= 2, star(0))
    trail = z3.And(lp >= 1, star(lp - 1))
    return lead, trail


def ptype(opts):
    c = Ctx('determine_pattern_type', F, opts=opts)
    S = Strings(c)
    p, lp = S.new('pattern')
    E = c.unit.enums
    lead, trail = shape(S, c.st, p, lp)
    st0 = c.st.copy()
    for st, r in c.run('determine_pattern_type', p):
        c.post(st, 'exact, prefix*, *suffix or *infix*', r.t == z3.If(lead, z3.If(trail, E['PATTERN_MIDDLE'], E['PATTERN_SUFFIX']), z3.If(trail, E['PATTERN_PREFIX'], E['PATTERN_EXACT'])))
        c.frame(st0, st, [])
    return c


def matches(kind):
    def proof(opts):
        c = Ctx('simple_matches', F, opts=opts)
        S = Strings(c)
        a, la = S.new('str', maybe_null=kind == 'null')
        p, lp = S.new('pattern', maybe_null=kind == 'null')
        lead, trail = shape(S, c.st, p, lp)
        if kind == 'null':
            c.assume(z3.Or(a.o == 0, p.o == 0))
        else:
            c.assume({'exact': z3.Not(z3.Or(lead, trail)), 'prefix': z3.And(z3.Not(lead), trail), 'suffix': z3.And(lead, z3.Not(trail)), 'infix': z3.And(lead, trail)}[kind])
        st0 = c.st.copy()
        for st, r in c.run('simple_matches', a, p):
            if kind == 'null':
                c.post(st, 'nothing matches a missing string or pattern', r.t == 0)
            if kind == 'exact':
                only_if(c, S, st, 'equal string', r.t, la == lp, a, la, z3.IntVal(0), p, 0, lp)
                c.post(st, 'accepts no string of another length', z3.Implies(r.t != 0, la == lp))
            if kind == 'prefix':
                only_if(c, S, st, 'string that starts with the characters', r.t, TRUE, a, la, z3.IntVal(0), p, 0, lp - 1)
            if kind == 'suffix':
                only_if(c, S, st, 'string that ends with the characters', r.t, TRUE, a, la, la - (lp - 1), p, 1, lp - 1)
            if kind == 'infix':
                infix(c, S, st, r.t, TRUE, a, la, p, 1, lp - 2)
            o = fresh('o')
            c.post(st, 'nothing is leaked or released', z3.Implies(z3.Or(z3.Select(st0.alive, o), z3.Select(st.alive, o)), z3.And(z3.Select(st0.alive, o), z3.Select(st.alive, o))))
            c.frame(st0, st, [])
        return c
    return proof


def is_copy(c, S, st, st0, r, a, off, n, what):
    i = fresh('i')
    c.post(st, what + ': is a new string', z3.And(r.o != 0, z3.Select(st.alive, r.o), z3.Not(z3.Select(st0.alive, r.o)), r.off == 0))
    c.post(st, what + ': has the characters', z3.Implies(z3.And(0 <= i, i < n), ch(S, st, r, i) == ch(S, st0, a, off + i)))
    c.post(st, what + ': ends there', z3.And(ch(S, st, r, n) == 0, z3.Select(st.osize, r.o) > n))


def sub(fn):
    def proof(opts):
        c = Ctx(fn, F, opts=opts)
        S = Strings(c)
        a, la = S.new('str', maybe_null=fn == 'substring')
        s = c.int('start', 'int') if fn != 'subrstr' else IV(z3.IntVal(0))
        e = c.int('end', 'int') if fn != 'substr' else IV(la + 1)
        st0 = c.st.copy()
        args = [a] + ([s] if fn != 'subrstr' else []) + ([e] if fn != 'substr' else [])
        good = z3.And(a.o != 0, 0 <= s.t, s.t <= e.t, s.t <= la)
        for st, r in c.run(fn, *args):
            n = z3.If(e.t < la, e.t, la) - s.t
            if c.eng.feasible(st, good):
                s1 = st.copy()
                s1.assume(good)
                is_copy(c, S, s1, st0, r, a, s.t, n, 'characters start..end')
            c.post(st, 'NULL for an invalid range', z3.Implies(z3.Not(good), r.o == 0))
            c.frame(st0, st, [])
        return c
    return proof


def index(opts):
    c = Ctx('indexOf', F, opts=opts)
    S = Strings(c)
    a, la = S.new('str')
    x = c.int('c', 'char')
    c.assume(x.t > 0)
    i = fresh('i')
    st0 = c.st.copy()
    for st, r in c.run('indexOf', a, x):
        c.post(st, 'position of the character', z3.Implies(r.t >= 0, z3.And(r.t < la, ch(S, st, a, r.t) == x.t)))
        c.post(st, 'of its first occurrence', z3.Implies(z3.And(0 <= i, i < r.t), ch(S, st, a, i) != x.t))
        c.post(st, '-1 only if it does not occur', z3.Implies(z3.And(r.t < 0, 0 <= i, i < la), ch(S, st, a, i) != x.t))
        c.post(st, 'no other negative number', r.t >= -1)
        c.frame(st0, st, [])
    return c


def index_str(opts):
    c = Ctx('indexOfStr', F, opts=opts)
    S = Strings(c)
    a, la = S.new('str')
    b, lb = S.new('tok')
    i, p = fresh('i'), fresh('p')
    st0 = c.st.copy()
    for st, r in c.run('indexOfStr', a, b):
        c.post(st, 'an occurrence', z3.Implies(r.t >= 0, z3.And(r.t + lb <= la, z3.Implies(z3.And(0 <= i, i < lb), ch(S, st, a, r.t + i) == ch(S, st, b, i)))))
        c.post(st, '-1 only if there is none', z3.Implies(z3.And(r.t < 0, occurs(S, st, a, la, p, b, 0, lb), ch(S, st, a, p) >= 0), FALSE))
        c.post(st, 'no other negative number', r.t >= -1)
        c.frame(st0, st, [])
    return c


def keyval(fn):
    def proof(opts):
        c = Ctx(fn, Q, opts=opts, more_units=[(F, ())])
        S = Strings(c)
        a, la = S.new('kv')
        d = c.int('delim', 'char')
        c.assume(d.t > 0)
        i, at = fresh('i'), z3.Int('at')
        st0 = c.st.copy()
        first = lambda q: z3.And(0 <= q, q < la, ch(S, c.st, a, q) == d.t, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < q), ch(S, c.st, a, k) != d.t), patterns=[ch(S, c.st, a, k)]))
        none = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < la), ch(S, c.st, a, k) != d.t), patterns=[ch(S, c.st, a, k)])
        for st, r in c.run(fn, a, d):
            s1 = st.copy()
            s1.assume(first(at))
            if fn == 'get_key':
                is_copy(c, S, s1, st0, r, a, 0, at, 'text before the first delimiter')
            else:
                is_copy(c, S, s1, st0, r, a, at + 1, la - at - 1, 'text after the first delimiter')
            s2 = st.copy()
            s2.assume(none)
            c.post(s2, 'NULL without delimiter', r.o == 0)
            c.frame(st0, st, [])
        return c
    return proof


def reverse(opts):
    c = Ctx('reverse_str', F, opts=opts)
    S = Strings(c)
    a, la = S.new('str')
    st0 = c.st.copy()

    def gen(L):
        g = [('it <= length', lambda st, it: it <= la)]
        for nm, vid, t in L.vars(INT):
            g.append(('%s = it' % nm, lambda st, it, vid=vid: st.env[vid].t == it))
        for nm, vid, t in L.vars(PTR):
            v = L.entry.env[vid]
            if isinstance(v, PV) and not v.o.eq(a.o):
                g.append(('%s holds the last it characters reversed' % nm, lambda st, it, o=v.o: qall([k], z3.Implies(z3.And(0 <= k, k < it), z3.Select(S.row(st, o), k) == ch(S, st0, a, la - 1 - k)), z3.Select(S.row(st, o), k))))
        return g
    c.eng.loopgen.append(gen)
    i = fresh('i')
    for st, r in c.run('reverse_str', a):
        c.post(st, 'is a new string', z3.And(r.o != 0, z3.Select(st.alive, r.o), z3.Not(z3.Select(st0.alive, r.o)), z3.Select(st.osize, r.o) > la))
        c.post(st, 'character i is character length-1-i', z3.Implies(z3.And(0 <= i, i < la), ch(S, st, r, i) == ch(S, st0, a, la - 1 - i)))
        c.post(st, 'ends there', ch(S, st, r, la) == 0)
        c.frame(st0, st, [])
    return c


def affix(kind):
    def proof(opts):
        c = Ctx('_gen_affix_for_token', Q, opts=opts, more_units=[(F, ())])
        S = Strings(c)
        t, n = S.new('token')
        al = c.int('affix_len', 'size_t')
        out = c.obj('out', 8)
        c.distinct(t, out)
        L = z3.If(al.t < n, al.t, n)      # characters kept
        base = {0: 0, 1: 0}.get(kind, n - L)
        src = lambda j: ch(S, st0, t, base + j)
        ptr = lambda st: c.cell(st, out.o, 0, (PTR, (INT, 8, True)))

        def gen(X):
            o = ptr(X.entry)
            R = lambda st: S.row(st, o)
            g = [('it <= kept', lambda st, it: it <= L),
                 ('the last it are shifted', lambda st, it: qall([k], z3.Implies(z3.And(L - it < k, k <= L), z3.Select(R(st), k) == src(k - 1)), z3.Select(R(st), k))),
                 ('the rest is in place', lambda st, it: qall([k], z3.Implies(z3.And(0 <= k, k < L, k <= L - it), z3.Select(R(st), k) == src(k)), z3.Select(R(st), k)))]
            for nm, vid, ty in X.vars(INT):
                g.append(('%s = kept - it' % nm, lambda st, it, vid=vid: st.env[vid].t == L - it))
            return g
        c.eng.loopgen.append(gen)
        st0 = c.st.copy()
        i = fresh('i')
        lead, trail = int(kind >= 2), int(kind in (1, 3))
        keep = n if kind == 0 else L
        for st, r in c.run('_gen_affix_for_token', t, IV(z3.IntVal(kind)), al, out):
            q = PV(ptr(st), 0)
            c.post(st, 'a new string', z3.And(q.o != 0, z3.Select(st.alive, q.o), z3.Not(z3.Select(st0.alive, q.o))))
            if lead:
                c.post(st, 'starts with *', ch(S, st, q, 0) == 42)
            c.post(st, 'the characters of the token', z3.Implies(z3.And(0 <= i, i < keep), ch(S, st, q, i + lead) == src(i)))
            if trail:
                c.post(st, 'ends with *', ch(S, st, q, keep + lead) == 42)
            c.post(st, 'and nothing else', z3.And(ch(S, st, q, keep + lead + trail) == 0, z3.Select(st.osize, q.o) > keep + lead + trail))
            c.post(st, 'returns its length', r.t == keep + lead + trail)
            c.frame(st0, st, [out.o])
        return c
    return proof


SM = uf('simple_matches', 3)
EQ, TOK, TIX, KIND, OWN = uf('has_equal_sign', 1), uf('token', 1), uf('token_index', 1), uf('kind', 1), uf('owner', 1)


def kv(opts):
    """k_v_matches_p against the contracts of strtok, get_key, get_value and simple_matches: token j is the j-th
    non-empty piece of the copied list between commas"""
    c = Ctx('k_v_matches_p', Q, opts=opts, more_units=[(F, ())])
    tl, kp, vp = c.opaque('tagslist'), c.opaque('key_pattern'), c.opaque('value_pattern')
    c.assume(tl.o >= 0, kp.o >= 0, vp.o >= 0)
    m = z3.Int('tokens')
    g = c.obj('ghost', 8)
    c.assume(m >= 0, qall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(TOK(k) > 0, TIX(TOK(k)) == k, z3.Select(c.st.alive, TOK(k)))), TOK(k)))
    nth = lambda st: z3.Select(c.row(st, 'gh', g.o), 0)
    c.assume(nth(c.st) == -1)
    MATCH = lambda j: z3.And(EQ(j) != 0, SM(1, j, kp.o) != 0, z3.Or(vp.o == 0, SM(2, j, vp.o) != 0))

    def setn(eng, st, v):
        st.mem['gh'] = z3.Store(eng.M(st, 'gh'), g.o, z3.Store(c.row(st, 'gh', g.o), 0, v))
        eng.note_write('gh', g.o)

    def strdup(eng, st, a, line):
        eng.oblige(st, 'the list is what is copied', 'pre', z3.And(a[0].o == tl.o, a[0].off == 0), line)
        return [(st, PV(eng.new_object(st, fresh('sz'), 'copy'), 0))]

    def strtok(eng, st, a, line):
        at = c.eng.strobj.get('","')
        eng.oblige(st, 'tokens are separated by commas', 'pre', a[1].o == (at[0] if at else -1), line)
        eng.oblige(st, 'the first call starts on the copy, later ones go on', 'pre', z3.If(nth(st) < 0, z3.And(a[0].o != 0, z3.Not(z3.Select(st0.alive, a[0].o))), a[0].o == 0), line)
        n = nth(st) + 1
        eng.oblige(st, 'not called after the end', 'pre', n <= m, line)
        r = fresh('tok')
        st.assume(r == z3.If(n < m, TOK(n), 0))
        setn(eng, st, n)
        return [(st, PV(r, 0))]

    def strchr(eng, st, a, line):
        eng.oblige(st, 'looks for = in the current token', 'pre', z3.And(a[0].o == TOK(nth(st)), a[0].off == 0, a[1].t == 61), line)
        r, o = fresh('found'), fresh('off')
        st.assume(o >= 0, r == z3.If(EQ(nth(st)) != 0, a[0].o, 0))
        return [(st, PV(r, o))]

    def part(kind):
        def h(eng, st, a, line):
            eng.oblige(st, 'splits the current token at =', 'pre', z3.And(a[0].o == TOK(nth(st)), a[0].off == 0, a[1].t == 61), line)
            s1 = st.copy()
            s1.assume(EQ(nth(st)) == 0)
            st.assume(EQ(nth(st)) != 0)
            o = eng.new_object(st, fresh('sz'), 'part')
            st.assume(KIND(o) == kind, OWN(o) == nth(st))
            return [(st, PV(o, 0)), (s1, NULL)]
        return h

    def sm(eng, st, a, line):
        eng.oblige(st, 'compares a live string with a pattern', 'pre', z3.And(z3.Or(a[0].o == 0, z3.Select(st.alive, a[0].o)), a[0].off == 0, a[1].off == 0), line)
        r = fresh('m')
        st.assume((r != 0) == z3.And(a[0].o != 0, a[1].o != 0, SM(KIND(a[0].o), OWN(a[0].o), a[1].o) != 0))
        return [(st, IV(r))]
    c.eng.contracts.update(get_key=part(1), get_value=part(2), simple_matches=sm)
    c.eng.externs.update(strdup=strdup, strtok=strtok, strchr=strchr)

    def gen(L):
        out = [('ghost counter = it', lambda st, it: nth(st) == it), ('it <= tokens', lambda st, it: it <= m),
               ('no earlier token matches', lambda st, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), z3.Not(MATCH(k))), EQ(k)))]
        for nm, vid, t in L.vars(PTR):
            out.append(('%s is token it' % nm, lambda st, it, vid=vid: st.env[vid].o == z3.If(it < m, TOK(it), 0)))
            out.append(('%s is NULL' % nm, lambda st, it, vid=vid: st.env[vid].o == 0))
        return out
    c.eng.loopgen.append(gen)
    st0 = c.st.copy()
    i = fresh('i')
    for st, r in c.run('k_v_matches_p', tl, kp, vp):
        g0 = z3.And(tl.o != 0, kp.o != 0)
        j = TIX(r.o)
        c.post(st, 'NULL when the list or the key pattern is missing', z3.Implies(z3.Not(g0), r.o == 0))
        c.post(st, 'what is returned is a pair of the list that matches', z3.Implies(r.o != 0, z3.And(g0, 0 <= j, j < m, r.o == TOK(j), MATCH(j))))
        c.post(st, 'the first one', z3.Implies(z3.And(r.o != 0, 0 <= i, i < j), z3.Not(MATCH(i))))
        c.post(st, 'NULL only if no pair matches', z3.Implies(z3.And(g0, r.o == 0, 0 <= i, i < m), z3.Not(MATCH(i))))
        c.frame(st0, st, [], [x for x in st.mem if x != 'gh'])
    return c


def wrapper(fn):
    def proof(opts):
        c = Ctx(fn, Q, opts=opts, more_units=[(F, ())])
        a, n, v = c.opaque('tagslist'), c.opaque('tagname'), c.opaque('val')
        FND = uf('first_match', 3)
        lo, hi = c.int('from', 'int'), c.int('to', 'int')
        c.assume(a.o >= 0, n.o > 0, v.o > 0)
        want = v.o if 'match' in fn else z3.IntVal(0)

        def kvm(eng, st, x, line):
            eng.oblige(st, 'asked of this list and these patterns', 'pre', z3.And(x[0].o == a.o, x[1].o == n.o, x[2].o == want), line)
            st.assume(FND(a.o, n.o, want) >= 0)
            return [(st, PV(FND(a.o, n.o, want), 0))]

        def gv(eng, st, x, line):
            eng.oblige(st, 'the value of the pair found', 'pre', z3.And(x[0].o == FND(a.o, n.o, want), x[0].o != 0, x[1].t == 61), line)
            o = eng.new_object(st, fresh('sz'), 'value')
            st.env['#v'] = PV(o, 0)
            st.assume(KIND(o) == 2)
            return [(st, PV(o, 0))]
        NUM = z3.Int('number')

        def atoi(eng, st, x, line):
            eng.oblige(st, 'the value is what is converted', 'pre', z3.And(KIND(x[0].o) == 2, x[0].off == 0, z3.Select(st.alive, x[0].o)), line)
            st.assume(NUM >= -2 ** 31, NUM < 2 ** 31)
            return [(st, IV(NUM))]
        c.eng.contracts.update(k_v_matches_p=kvm, get_value=gv)
        c.eng.externs['atoi'] = atoi
        st0 = c.st.copy()
        rng_ = fn == 'is_value_in_range'
        for st, r in c.run(fn, *([a, n] + ([v] if 'match' in fn else []) + ([lo, hi] if rng_ else []))):
            hit = FND(a.o, n.o, want) != 0
            c.post(st, 'true exactly when a pair matches', (r.t != 0) == (z3.And(hit, lo.t <= NUM, NUM <= hi.t) if rng_ else hit))
            o = fresh('o')
            c.post(st, 'nothing is leaked or released', z3.Select(st.alive, o) == z3.Select(st0.alive, o)) if not rng_ else None
            c.frame(st0, st, [])
        return c
    return proof


PROOFS = [('startsWith', two('startsWith', 'prefix')), ('endsWith', two('endsWith', 'suffix')), ('contains', two('contains', 'infix')), ('equals', two('equals', 'equal')),
          ('determine_pattern_type', ptype)] + [('simple_matches: %s' % x, matches(x)) for x in ('exact', 'prefix', 'suffix', 'infix', 'null')] + \
         [(f, sub(f)) for f in ('substring', 'substr', 'subrstr')] + [('indexOf', index), ('indexOfStr', index_str), ('get_key', keyval('get_key')), ('get_value', keyval('get_value')), ('reverse_str', reverse)] + [('_gen_affix_for_token: %s' % x, affix(i)) for i, x in enumerate(('exact', 'prefix', 'suffix', 'infix'))] + \
         [('k_v_matches_p', kv)] + [(f, wrapper(f)) for f in ('has_tag', 'has_tag_p', 'is_value_match', 'is_value_match_p', 'is_value_in_range')]
NATIVE = dict(src='native/p12_wild.c', repo=[F, Q], time=8)
RULE = 'random strings and patterns over small alphabets, random tag lists, splits and generated queries against reference models; distinct = distinct inputs by hash'
ASSUMPTIONS = ['malloc succeeds', 'strings are shorter than 2^31 - 8 characters', 'strtok delivers the non-empty pieces of the copied list in order, and no other thread uses strtok',
               'split_string (regular expressions) and the assembly of generated queries are decided natively only']
TRUSTED = ['models of strlen, strcmp, strncmp, strchr, strstr, strncpy over byte memory (vf/cstr.py)', 'in k_v_matches_p: contracts of get_key, get_value and simple_matches (proved separately)']

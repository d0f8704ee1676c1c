"""C strings in contracts: a string is (object, position of its NUL); the models of the C string functions below are their
C-standard semantics over the byte memory of the engine (class 'b')."""
import z3
from .sym import *
from . import solve

k = z3.Int('k?')


class Strings:
    def __init__(self, c):
        self.c = c
        self.known = []      # (object term, position of the NUL)
        self.found = []      # positions strstr may report
        e = c.eng
        e.externs.update(strlen=self.strlen, strcmp=self.strcmp, strncmp=self.strncmp, strchr=self.strchr, strstr=self.strstr, strncpy=self.strncpy, strcpy=self.strcpy, strdup=self.strdup)

    def row(self, st, o):
        return sel(self.c.eng.M(st, 'b'), o)

    def at(self, st, p, i):
        return z3.Select(self.row(st, p.o), simp(p.off + i) if not (isinstance(p.off, int) and p.off == 0) else i)

    def new(self, name, maxlen=2 ** 31 - 8, maybe_null=False):
        """an arbitrary valid string given by the caller: -> (pointer, length)"""
        c = self.c
        n = z3.Int('strlen_' + name)
        o = z3.Int(name)
        size = z3.Int('size_' + name)
        ok = z3.And(o > 0, z3.Select(c.st.alive, o), z3.Select(c.st.osize, o) == size)
        c.assume(n >= 0, n < maxlen, size > n, z3.Or(o == 0, ok) if maybe_null else ok)
        self.valid(c.st, o, n)
        c.inputs += [o, n]
        self.known.append((o, n, self.row(c.st, o)))
        return PV(o, 0), n

    def valid(self, st, o, n):
        row = self.row(st, o)
        st.assume(z3.Select(row, n) == 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(row, k) > 0, z3.Select(row, k) <= 255)), patterns=[z3.Select(row, k)]))

    def fresh(self, st, n, name='str'):
        """a new heap string of length n (content unconstrained but for validity) -> object"""
        o = self.c.eng.new_object(st, n + 1, name)
        row = fresh('row_' + name, ROW)
        st.mem['b'] = z3.Store(self.c.eng.M(st, 'b'), o, row)
        self.valid(st, o, n)
        self.known.append((o, n, self.row(st, o)))
        return o

    def length(self, eng, st, p, line, what):
        """p points into a valid string (obligations) -> its length from there on"""
        m = eng.M(st, 'b')
        if not z3.is_const(m):   # name the memory, so that its rows can occur in patterns
            m2 = fresh('mem_b', m.sort())
            st.assume(m2 == m)
            st.mem['b'] = m2
        row = self.row(st, p.o)
        lits = [(o, z3.IntVal(len(bs)), self.row(st, o)) for o, bs in eng.strobj.values()]
        same = [(o, n, r) for o, n, r in self.known if o.eq(p.o)] + [x for x in lits if x[0].eq(p.o)]
        if not same:
            same = [x for x in self.known if not z3.is_false(z3.simplify(x[0] == p.o)) and solve.quick([f for f in st.pc if not solve.has_quant(f)], x[0] == p.o)]
        for o, n, r in same:
            if simp(r).eq(simp(row)) or o in [x[0] for x in lits] or solve.prove(st.pc, r == row, 2.0)[0] == 'proved':
                eng.oblige(st, '%s: the argument points into a string' % what, 'mem', z3.And(p.o != 0, z3.Select(st.alive, p.o), p.off >= 0, p.off <= n), line)
                return simp(n - p.off)
        # a string built here: some NUL within the object ends it; its length is the first one
        size = z3.Select(st.osize, p.o)
        for z in [size - 1] + [n for o, n, r in same] + [size - 2]:
            if solve.prove(st.pc, z3.And(z >= p.off, z < size, z3.Select(row, z) == 0), 3.0)[0] == 'proved':
                break
        else:
            z = size - 1
        eng.oblige(st, '%s: the argument is NUL-terminated within its object' % what, 'mem',
                   z3.And(p.o != 0, z3.Select(st.alive, p.o), p.off >= 0, p.off < size, z3.Select(row, z) == 0), line)
        n = fresh('len')
        st.assume(n >= p.off, n <= z, z3.Select(row, n) == 0, z3.ForAll([k], z3.Implies(z3.And(p.off <= k, k < n), z3.Select(row, k) != 0), patterns=[z3.Select(row, k)]))
        if isinstance(p.off, int) and p.off == 0 or z3.is_int_value(p.off) and p.off.as_long() == 0:
            self.known.append((p.o, n, row))
        return simp(n - p.off)

    def strlen(self, eng, st, a, line):
        return [(st, IV(z3.simplify(self.length(eng, st, a[0], line, 'strlen'))))]

    def cmp(self, eng, st, a, b, lim, line, what):
        la, lb = self.length(eng, st, a, line, what), self.length(eng, st, b, line, what)
        r, w = fresh(what), fresh('w')
        inr = lambda i: z3.And(0 <= i, i <= la, i <= lb, *( [i < lim] if lim is not None else []))
        x, y = (lambda i: self.at(st, a, i)), (lambda i: self.at(st, b, i))
        st.assume(r >= -2 ** 31, r < 2 ** 31, z3.Implies(r == 0, z3.ForAll([k], z3.Implies(inr(k), x(k) == y(k)), patterns=[x(k)])),
                  z3.Implies(r == 0, z3.ForAll([k], z3.Implies(inr(k), x(k) == y(k)), patterns=[y(k)])),
                  z3.Implies(r != 0, z3.And(inr(w), x(w) != y(w))))
        return [(st, IV(r))]

    def strcmp(self, eng, st, a, line):
        return self.cmp(eng, st, a[0], a[1], None, line, 'strcmp')

    def strncmp(self, eng, st, a, line):
        return self.cmp(eng, st, a[0], a[1], a[2].t, line, 'strncmp')

    def strchr(self, eng, st, a, line):
        n = self.length(eng, st, a[0], line, 'strchr')
        i, found, ch = fresh('ix'), fresh('found', z3.BoolSort()), a[1].t
        x = lambda j: self.at(st, a[0], j)
        s1 = st.copy()
        s1.trace.append('strchr finds')
        s1.assume(0 <= i, i <= n, x(i) == ch, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), x(k) != ch), patterns=[x(k)]))
        st.trace.append('strchr finds nothing')
        st.assume(ch != 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), x(k) != ch), patterns=[x(k)]))
        return [(s1, PV(a[0].o, z3.simplify(a[0].off + i))), (st, NULL)]

    def match(self, st, a, b, lb, p, i):
        """character i of b is where an occurrence at p of a needs it"""
        return self.at(st, a, p + i) == self.at(st, b, i)

    def strstr(self, eng, st, a, line):
        la, lb = self.length(eng, st, a[0], line, 'strstr'), self.length(eng, st, a[1], line, 'strstr')
        p = fresh('pos')
        W = z3.Function('mis!%d' % len(self.known) + str(p), I, I)
        x, y = (lambda j: self.at(st, a[0], j)), (lambda j: self.at(st, a[1], j))
        s1 = st.copy()
        s1.trace.append('strstr finds')
        s1.assume(0 <= p, p + lb <= la, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < lb), x(p + k) == y(k)), patterns=[y(k)]))
        q = z3.Int('q?')
        st.trace.append('strstr finds nothing')
        no = lambda q: z3.Implies(z3.And(0 <= q, q + lb <= la), z3.And(0 <= W(q), W(q) < lb, x(q + W(q)) != y(W(q))))
        st.assume(z3.ForAll([q], no(q), patterns=[W(q)]))
        self.found.append(p)
        return [(s1, PV(a[0].o, z3.simplify(a[0].off + p))), (st, NULL)]

    def put(self, eng, st, d, src, cnt, upto, line):
        """d[0..cnt) = the first upto bytes of src, then zeros"""
        rs, rd = self.row(st, src.o), self.row(st, d.o)
        A = fresh('cpy', ROW)
        st.assume(qall([k], z3.Select(A, k) == z3.If(z3.And(d.off <= k, k < d.off + cnt), z3.If(k - d.off < upto, z3.Select(rs, k - d.off + src.off), 0), z3.Select(rd, k)), z3.Select(A, k)),
                  qall([k], z3.Implies(z3.And(src.off <= k, k < src.off + upto, k - src.off < cnt), z3.Select(A, k - src.off + d.off) == z3.Select(rs, k)), z3.Select(rs, k)))
        st.mem['b'] = z3.Store(eng.M(st, 'b'), d.o, A)
        eng.note_write('b', d.o)

    def room(self, eng, st, d, n, line, what):
        eng.oblige(st, '%s: room in the destination' % what, 'mem', z3.Implies(n > 0, z3.And(d.o != 0, z3.Select(st.alive, d.o), d.off >= 0, d.off + n <= z3.Select(st.osize, d.o))), line)

    def strncpy(self, eng, st, a, line):
        n = self.length(eng, st, a[1], line, 'strncpy')
        self.room(eng, st, a[0], a[2].t, line, 'strncpy')
        self.put(eng, st, a[0], a[1], a[2].t, n, line)
        return [(st, a[0])]

    def strcpy(self, eng, st, a, line):
        n = self.length(eng, st, a[1], line, 'strcpy')
        self.room(eng, st, a[0], n + 1, line, 'strcpy')
        self.put(eng, st, a[0], a[1], n + 1, n, line)
        return [(st, a[0])]

    def strdup(self, eng, st, a, line):
        n = self.length(eng, st, a[0], line, 'strdup')
        out = []
        if eng.o['malloc_fail']:
            s0 = st.copy()
            s0.trace.append('strdup fails')
            out.append((s0, NULL))
        o = eng.new_object(st, n + 1, 'strdup')
        self.put(eng, st, PV(o, 0), a[0], n + 1, n, line)
        self.known.append((o, n, self.row(st, o)))
        return out + [(st, PV(o, 0))]

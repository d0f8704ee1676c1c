"""The verification-condition generator.

Symbolic execution of clang's AST with
  * integers as mathematical integers constrained to the C type's range, wrap-around
    of unsigned arithmetic modelled, absence of signed overflow an obligation;
  * pointers as (object, byte offset), memory as one map per access class
    object -> index -> value, every access an in-bounds/liveness obligation;
  * loops cut at the head by invariants.  Invariants are not written against local
    names: they are candidate formulas over the loop's ghost iteration counter, the
    locals in scope (by type) and the memory, and the Houdini fixpoint keeps the
    inductive ones.  What Houdini keeps is proved, never assumed.
  * calls to functions of the repository: by contract when one is registered,
    otherwise by executing the callee's body (so extracted helpers need nothing).
"""
import z3, itertools, time, sys
from .cast import *
from . import solve

I = z3.IntSort()
ROW = z3.ArraySort(I, I)
MEM = z3.ArraySort(I, ROW)
FLTS = z3.DeclareSort('Flt')
FROW = z3.ArraySort(I, FLTS)
FMEM = z3.ArraySort(I, FROW)
BOOLMAP = z3.ArraySort(I, z3.BoolSort())
INTMAP = ROW
_ctr = itertools.count()
DEBUG_H = __import__('os').environ.get('VF_H')


def qall(vs, body, *pats):
    """ForAll with patterns where they are legal (goals do not need them: they are negated)"""
    if pats:
        try:
            return z3.ForAll(vs, body, patterns=list(pats))
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def _dump(pc, g):
    s = z3.Solver()
    s.add(*pc)
    s.add(z3.Not(g))
    return s.to_smt2()


def fresh(name, sort=I):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


def rng(t):
    w, s = t[1], t[2]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def num(t):
    t = z3.simplify(t) if not isinstance(t, int) else z3.IntVal(t)
    return t.as_long() if z3.is_int_value(t) else None


class IV:
    __slots__ = ('t', 'b')

    def __init__(self, t, b=None):
        self.t = z3.IntVal(t) if isinstance(t, int) else t
        self.b = b

    def bool(self):
        if self.b is not None:
            return self.b
        return self.t != 0


def ivb(b):
    b = z3.simplify(b) if not isinstance(b, bool) else z3.BoolVal(b)
    return IV(z3.If(b, z3.IntVal(1), z3.IntVal(0)), b)


class PV:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = z3.IntVal(o) if isinstance(o, int) else o
        self.off = z3.IntVal(off) if isinstance(off, int) else off

    def bool(self):
        return self.o != 0


class FV:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def bool(self):
        return z3.Function('fnonzero', FLTS, z3.BoolSort())(self.t)


class SV:
    """struct rvalue: reference to a memory region snapshot (obj, off, state-mem)"""
    __slots__ = ('o', 'off', 't', 'mem')

    def __init__(self, o, off, t, mem):
        self.o, self.off, self.t, self.mem = o, off, t, mem


NULL = PV(0, 0)


class State:
    __slots__ = ('env', 'mem', 'alive', 'osize', 'pc', 'qf', 'guards', 'ghost', 'trace', 'log')

    def __init__(self):
        self.env, self.mem, self.pc, self.qf, self.guards = {}, {}, [], [], []
        self.alive = z3.Const('alive0', BOOLMAP)
        self.osize = z3.Const('osize0', INTMAP)
        self.ghost, self.trace, self.log = {}, [], []

    def copy(self):
        s = State.__new__(State)
        s.env, s.mem, s.pc, s.qf = dict(self.env), dict(self.mem), list(self.pc), list(self.qf)
        s.guards, s.alive, s.osize = list(self.guards), self.alive, self.osize
        s.ghost, s.trace, s.log = dict(self.ghost), list(self.trace), list(self.log)
        return s

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if z3.is_true(f):
                continue
            self.pc.append(f)
            if not solve.has_quant(f):
                self.qf.append(f)


class Obl:
    __slots__ = ('name', 'cat', 'pc', 'goal', 'trace', 'fn', 'line')

    def __init__(self, name, cat, pc, goal, trace, fn, line):
        self.name, self.cat, self.pc, self.goal, self.trace, self.fn, self.line = name, cat, pc, goal, trace, fn, line


class Loop:
    """What a candidate generator sees."""

    def __init__(self, eng, entry, node, fn, idx, itc, modvars, written):
        self.eng, self.entry, self.node, self.fn, self.idx = eng, entry, node, fn, idx
        self.it = itc           # only for the arbitrary iteration; candidates get `it` as an argument
        self.modvars = modvars  # list of decl ids modified in the loop and in scope at entry
        self.written = written  # memory classes written
        self.depth = len(eng.loopstack)

    def name(self, term, nm='nm'):
        """a constant standing for a loop-entry term"""
        term = z3.simplify(term)
        if z3.is_const(term):
            return term
        k = fresh(nm, term.sort())
        self.entry.assume(k == term)
        return k

    def vars(self, kind=None, mod=None, pred=None):
        out = []
        for vid, v in self.entry.env.items():
            info = self.eng.varinfo.get(vid)
            if info is None:
                continue
            nm, t = info
            if kind and t[0] != kind:
                continue
            if mod is not None and (vid in self.modvars) != mod:
                continue
            if pred and not pred(t):
                continue
            if v is None or (isinstance(v, tuple)):
                continue
            out.append((nm, vid, t))
        return out


class Engine:
    def __init__(self, unit, opts=None):
        self.u = unit
        self.units = [unit]
        o = dict(malloc_fail=False, interior=False, unroll=None, wrap_mul='mod', rte=True, overflow=True,
                 max_paths=4000, tmo=6.0, max_inline=12)
        o.update(opts or {})
        self.o = o
        self.obls = []
        self.record = True
        self.varinfo = {}
        self.contracts = {}
        self.taken = {}
        self.callbacks = {}
        self.fnobj = {}
        self.loopgen = []
        self.instances = []    # f(L, state, it) -> instances of lemmas that the contract proves (Ctx.schema)
        self.loopstack = []
        self.ghost_step = None
        self.callstack = []
        self.fn_seen = {}
        self.globobj = {}
        self.strobj = {}
        self.houdini_log = []
        self.unsupported = []
        self.divs = {}
        self.bounded = False
        self.inv_obls = 0
        self.writes = None
        self.frame_extra = None
        self.externs = {}
        self.feas_cache = {}
        self.siteh = {}
        self.dropcache = {}
        self.paths = 0

    # -- memory ---------------------------------------------------------------
    def cls(self, t):
        k = t[0]
        if k == INT:
            if t[1] == 8:
                return 'b', 1
            return ('s' if t[2] else 'u') + str(t[1]), t[1] // 8
        if k == PTR:
            return 'p', 8
        if k == FLT:
            return 'f%d' % t[1], t[1] // 8
        raise Unsupported('memory class of %r' % (t,))

    def M(self, st, c):
        if c not in st.mem:
            st.mem[c] = z3.Const('M0_' + c, FMEM if c[0] == 'f' else MEM)
        return st.mem[c]

    def idx(self, off, sz):
        return divexact(off, sz)

    def load(self, st, o, off, t, check=True, line=None):
        k = t[0]
        if k == REC:
            return SV(o, off, t, dict(st.mem))
        if k == ARR:
            return PV(o, off)
        c, sz = self.cls(t)
        if check:
            self.access(st, o, off, sz, line, 'read')
        row = sel(self.M(st, c), o)
        v = sel(row, self.idx(off, sz))
        if k == INT:
            lo, hi = rng(t)
            if c == 'b':
                self.fact(st, z3.And(v >= 0, v <= 255), v)
                if t[2]:
                    v = z3.If(v >= 128, v - 256, v)
                return IV(v)
            if not z3.is_int_value(v):
                self.fact(st, z3.And(v >= lo, v <= hi), v)
            return IV(v)
        if k == PTR:
            if self.o['interior']:
                oo = sel(sel(self.M(st, 'po'), o), self.idx(off, sz))
                return PV(v, oo)
            return PV(v, 0)
        return FV(v)

    def fact(self, st, f, key=None):
        # axiom of typed memory; holds irrespective of guards
        for g in st.qf[-40:]:
            if g.eq(f):
                return
        st.assume(f)

    def store(self, st, o, off, t, val, check=True, line=None):
        k = t[0]
        if k == REC:
            self.copy_struct(st, o, off, t, val)
            return
        c, sz = self.cls(t)
        if check:
            self.access(st, o, off, sz, line, 'write')
        m = self.M(st, c)
        ix = self.idx(off, sz)
        if k == INT:
            v = val.t
            if c == 'b' and t[2]:
                v = z3.If(v < 0, v + 256, v)
        elif k == PTR:
            v = val.o
            if self.o['interior']:
                m2 = self.M(st, 'po')
                st.mem['po'] = z3.Store(m2, o, z3.Store(sel(m2, o), ix, val.off))
                self.note_write('po', o)
            elif not (z3.is_int_value(val.off) and val.off.as_long() == 0):
                self.oblige(st, 'stored-pointer-is-object-base', 'tool', val.off == 0, line)
        else:
            v = val.t
        st.mem[c] = z3.Store(m, o, z3.Store(sel(m, o), ix, v))
        self.note_write(c, o)

    def note_write(self, c, o):
        if self.writes is not None:
            self.writes.append((c, o))

    def leaves(self, t, off=0):
        k = t[0]
        if k == REC:
            lay = self.layout(t)
            if lay['union']:
                raise Unsupported('union copy')
            for o, ft in zip(lay['offs'], lay['types']):
                yield from self.leaves(ft, off + o)
        elif k == ARR:
            if t[2] is None or t[2] > 64:
                raise Unsupported('large array in struct copy')
            s = self.sizeof(t[1])
            for i in range(t[2]):
                yield from self.leaves(t[1], off + i * s)
        else:
            yield off, t

    def layout(self, t):
        return self.u.layout(t[1])

    def sizeof(self, t):
        return self.u.sizeof(t)

    def copy_struct(self, st, o, off, t, sv):
        saved = st.mem
        vals = []
        for lo, lt in self.leaves(t):
            tmp = st.mem
            st.mem = dict(sv.mem)
            vals.append((lo, lt, self.load(st, sv.o, sv.off + lo, lt)))
            for c in st.mem:
                tmp.setdefault(c, st.mem[c])
            st.mem = tmp
        for lo, lt, v in vals:
            self.store(st, o, off + lo, lt, v)

    def access(self, st, o, off, sz, line, what):
        if not self.o['rte']:
            return
        self.oblige(st, 'valid-%s' % what, 'mem',
                    z3.And(sel(st.alive, o), off >= 0, off + sz <= sel(st.osize, o)), line)

    def new_object(self, st, size, name='obj', zero=False):
        o = fresh(name)
        if APART:
            APART[o.get_id()] = o
        st.assume(o > 0, z3.Not(z3.Select(st.alive, o)))
        st.alive = z3.Store(st.alive, o, z3.BoolVal(True))
        st.osize = z3.Store(st.osize, o, size if not isinstance(size, int) else z3.IntVal(size))
        return o

    # -- obligations ----------------------------------------------------------
    def oblige(self, st, name, cat, goal, line=None):
        if not self.record:
            return
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.obls.append(Obl(name, cat, [], z3.BoolVal(True), list(st.trace), self.cur(), line))
            return
        self.obls.append(Obl(name, cat, list(st.pc) + list(st.guards), g, list(st.trace), self.cur(), line))

    def cur(self):
        return self.callstack[-1] if self.callstack else '?'

    def entails(self, st, f, tmo=0.3):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return solve.quick(st.qf + [g for g in st.guards if not solve.has_quant(g)], f, tmo)

    def feasible(self, st, f):
        f2 = z3.simplify(f)
        if z3.is_true(f2):
            return True
        if z3.is_false(f2):
            return False
        return not solve.quick(st.qf, z3.Not(f2), 0.3)

    # -- arithmetic -----------------------------------------------------------
    def wrap(self, st, r, t, op, line=None, nowrapcheck=True):
        lo, hi = rng(t)
        r = z3.simplify(r)
        if z3.is_int_value(r):
            v = r.as_long()
            if lo <= v <= hi:
                return r
            if not t[2]:
                return z3.IntVal(v % (1 << t[1]))
        inr = z3.And(r >= lo, r <= hi)
        if t[2]:
            if self.o['overflow']:
                if not self.entails(st, inr):
                    self.oblige(st, 'no-signed-overflow', 'rte', inr, line)
            st.assume(z3.Implies(z3.And(*st.guards), inr) if st.guards else inr)
            return r
        m = 1 << t[1]
        if self.o['wrap_mul'] == 'check' and nonlinear(r):
            self.oblige(st, 'no-wrap', 'rte', inr, line)
            st.assume(z3.Implies(z3.And(*st.guards), inr) if st.guards else inr)
            return r
        if self.entails(st, inr):
            return r
        if op == '+':
            return z3.If(r >= m, r - m, r)
        if op == '-':
            return z3.If(r < 0, r + m, r)
        return r % m

    def cast(self, st, v, frm, to, line=None):
        if to[0] == INT and frm[0] == INT:
            lo, hi = rng(to)
            l2, h2 = rng(frm)
            if lo <= l2 and h2 <= hi:
                return v
            if v.b is not None:
                return v
            n = num(v.t)
            if n is not None:
                n2 = n % (1 << to[1])
                if to[2] and n2 > hi:
                    n2 -= 1 << to[1]
                return IV(n2)
            if self.entails(st, z3.And(v.t >= lo, v.t <= hi)):
                return v
            m = 1 << to[1]
            if to[1] == frm[1]:
                if to[2]:
                    return IV(z3.If(v.t > hi, v.t - m, v.t))
                return IV(z3.If(v.t < 0, v.t + m, v.t))
            r = v.t % m
            if to[2]:
                r = z3.If(r > hi, r - m, r)
            elif frm[2] and frm[1] < to[1]:
                r = z3.If(v.t < 0, v.t + m, v.t)
            return IV(r)
        raise Unsupported('cast %r -> %r' % (frm, to))

    def divmod(self, st, a, b, t, line, op):
        bn = num(b)
        if bn is None or bn == 0:
            self.oblige(st, 'division-by-zero', 'rte', b != 0, line)
            st.assume(z3.Implies(z3.And(*st.guards), b != 0) if st.guards else b != 0)
        if t[2]:
            if self.entails(st, z3.And(a >= 0, b > 0)):
                pass
            elif bn is not None and bn > 0:
                q = z3.If(a >= 0, a / b, -((-a) / b))
                return q if op == '/' else a - b * q
            else:
                UQ, UR = uf('sdiv', 2), uf('srem', 2)
                q, r = UQ(a, b), UR(a, b)
                st.assume(a == b * q + r, z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b, q >= 0)),
                          z3.Implies(b > 0, z3.And(r < b, r > -b)), z3.Implies(z3.And(a <= 0, b > 0), z3.And(r <= 0, q <= 0)))
                return q if op == '/' else r
        if bn is not None:
            return a / b if op == '/' else a % b
        q, r = UDIV(a, b), UMOD(a, b)
        key = (a.get_id(), b.get_id())
        fs = [z3.Implies(b > 0, z3.And(r >= 0, r < b, q >= 0, q <= a)),
              z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, r == a)),
              z3.Implies(z3.And(b > 0, a >= b, a - b < b), z3.And(q == 1, r == a - b)),
              z3.Implies(b > 0, a == b * q + r)]
        st.assume(*fs)
        return q if op == '/' else r

    def binop(self, st, op, a, b, t, line=None):
        """integer arithmetic on values already converted to type t"""
        x, y = a.t, b.t
        if op in '+-':
            r = x + y if op == '+' else x - y
            return IV(self.wrap(st, r, t, op, line))
        if op == '*':
            w = self.wrap(st, x * y, t, op, line)
            if self.o.get('name_mul') and nonlinear(w):
                k = fresh('mul')
                st.assume(k == w)
                w = k
            return IV(w)
        if op in '/%':
            return IV(self.divmod(st, x, y, t, line, op))
        if op == '<<':
            n = num(y)
            if n is None:
                f = uf('shl%d' % t[1], 2)
                r = f(x, y)
                lo, hi = rng(t)
                st.assume(r >= lo, r <= hi)
                return IV(r)
            return IV(self.wrap(st, x * (1 << n), t, '*', line) if not t[2] else self.wrap(st, x * (1 << n), t, '*', line))
        if op == '>>':
            n = num(y)
            if n is None:
                f = uf('shr%d' % t[1], 2)
                r = f(x, y)
                lo, hi = rng(t)
                st.assume(r >= lo, r <= hi)
                return IV(r)
            return IV(x / (1 << n))
        if op in '&|^':
            xn, yn = num(x), num(y)
            if xn is not None and yn is not None:
                return IV({'&': xn & yn, '|': xn | yn, '^': xn ^ yn}[op])
            if op == '&':
                for p, qn in ((x, yn), (y, xn)):
                    if qn is not None and qn >= 0 and (qn & (qn + 1)) == 0:
                        return IV(p % (qn + 1))
            f = uf({'&': 'band', '|': 'bor', '^': 'bxor'}[op] + str(t[1]), 2)
            r = f(x, y)
            lo, hi = rng(t)
            st.assume(r >= lo, r <= hi)
            if op == '&':
                st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r <= x)), z3.Implies(y >= 0, z3.And(r >= 0, r <= y)))
            if op == '|':
                st.assume(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= x, r >= y, r <= x + y)))
                st.assume((r == 0) == z3.And(x == 0, y == 0))
                for p, q in ((x, y), (y, x)):
                    m = pow2_factor(p)
                    if m > 1:      # no common bits
                        st.assume(z3.Implies(z3.And(p >= 0, q >= 0, q < m), r == p + q))
            return IV(r)
        raise Unsupported('binary ' + op)

    def compare(self, st, op, a, b):
        if isinstance(a, PV) and isinstance(b, PV):
            if op in ('==', '!='):
                if z3.is_int_value(a.off) and z3.is_int_value(b.off) and a.off.as_long() == b.off.as_long():
                    e = a.o == b.o
                elif z3.is_int_value(b.o) and b.o.as_long() == 0:
                    e = a.o == 0
                elif z3.is_int_value(a.o) and a.o.as_long() == 0:
                    e = b.o == 0
                else:
                    e = z3.And(a.o == b.o, a.off == b.off)
                return ivb(e if op == '==' else z3.Not(e))
            x, y = a.off, b.off
        elif isinstance(a, FV) or isinstance(b, FV):
            f = z3.Function('fcmp_' + op, FLTS, FLTS, z3.BoolSort())
            return ivb(f(a.t, b.t))
        else:
            if op in ('==', '!=') and a.b is not None and num(b.t) == 0:
                return ivb(z3.Not(a.b) if op == '==' else a.b)
            x, y = a.t, b.t
        e = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
             '>': lambda: x > y, '>=': lambda: x >= y}[op]()
        return ivb(e)

    # -- expressions: return [(state, value)] ----------------------------------
    def ev(self, st, e):
        k = e['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (k, line_of(e)))
        return m(st, e)

    def ev1(self, st, e):
        """evaluate an expression that cannot fork"""
        r = self.ev(st, e)
        if len(r) != 1 or r[0][0] is not st:
            raise Unsupported('forking sub-expression')
        return r[0][1]

    def ty(self, e):
        t = e['type']
        return self.u.type(t['qualType'])

    def e_ParenExpr(self, st, e):
        return self.ev(st, e['inner'][0])

    def e_ConstantExpr(self, st, e):
        if 'value' in e:
            return [(st, IV(int(e['value'])))]
        return self.ev(st, e['inner'][0])

    def e_IntegerLiteral(self, st, e):
        return [(st, IV(int(e['value'])))]

    def e_CharacterLiteral(self, st, e):
        return [(st, IV(int(e['value'])))]

    def e_FloatingLiteral(self, st, e):
        return [(st, FV(z3.Const('flt_%s' % e['value'], FLTS)))]

    def e_StringLiteral(self, st, e):
        return [(st, self.string_obj(st, e['value'], self.ty(e)))]

    def e_PredefinedExpr(self, st, e):
        return [(st, self.string_obj(st, '"__func__"', None))]

    def string_obj(self, st, lit, t):
        key = lit
        if key not in self.strobj:
            o = z3.Int('str_%d' % len(self.strobj))
            try:
                bs = eval('b' + lit) if not lit.startswith('L') else b''
            except Exception:
                bs = lit.encode()
            self.strobj[key] = (o, bs)
        o, bs = self.strobj[key]
        row = sel(self.M(st, 'b'), o)
        fs = [o > 0, sel(st.alive, o), sel(st.osize, o) == len(bs) + 1]
        for i, ch in enumerate(bs[:64]):
            fs.append(z3.Select(row, i) == ch)
        fs.append(z3.Select(row, len(bs)) == 0)
        for f in fs:
            self.fact(st, f)
        return PV(o, 0)

    def e_DeclRefExpr(self, st, e):
        d = e['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            v = self.u.enums.get(d['id'], self.u.enums.get(d['name']))
            return [(st, IV(v))]
        if d['kind'] == 'FunctionDecl':
            return [(st, PV(self.fn_const(d['name']), 0))]
        raise Unsupported('rvalue DeclRef')

    def fn_const(self, name):
        if name not in self.fnobj:
            self.fnobj[name] = z3.IntVal(-(len(self.fnobj) + 10))
        return self.fnobj[name]

    # lvalues: ('var', id, t) | ('mem', o, off, t)
    def lv(self, st, e):
        k = e['kind']
        if k == 'ParenExpr':
            return self.lv(st, e['inner'][0])
        if k == 'DeclRefExpr':
            d = e['referencedDecl']
            t = self.ty(e)
            vid = d['id']
            if vid in st.env:
                v = st.env[vid]
                if isinstance(v, tuple) and v[0] == 'obj':
                    return [(st, ('mem', v[1], z3.IntVal(0), t))]
                return [(st, ('var', vid, t))]
            return [(st, self.global_lv(st, d, t))]
        if k == 'MemberExpr':
            out = []
            base = e['inner'][0]
            rid, fi = self.fieldinfo(e)
            lay = self.u.layout(rid)
            fo, ft = lay['offs'][fi], lay['types'][fi]
            if e.get('isArrow'):
                for s, v in self.ev(st, base):
                    out.append((s, ('mem', v.o, addoff(v.off, fo), ft)))
            else:
                if base.get('valueCategory') == 'lvalue':
                    for s, l in self.lv(st, base):
                        if l[0] != 'mem':
                            raise Unsupported('member of register struct')
                        out.append((s, ('mem', l[1], addoff(l[2], fo), ft)))
                else:
                    for s, v in self.ev(st, base):
                        tmp = s.mem
                        out.append((s, ('mem', v.o, addoff(v.off, fo), ft)))
            return out
        if k == 'UnaryOperator' and e['opcode'] == '*':
            t = self.ty(e)
            return [(s, ('mem', v.o, v.off, t)) for s, v in self.ev(st, e['inner'][0])]
        if k == 'ArraySubscriptExpr':
            t = self.ty(e)
            out = []
            a, b = e['inner']
            for s, p in self.ev(st, a):
                for s2, i in self.ev(s, b):
                    if isinstance(i, PV):
                        p, i = i, p
                    out.append((s2, ('mem', p.o, addoff(p.off, mulc(i.t, self.sizeof(t))), t)))
            return out
        if k == 'StringLiteral':
            p = self.string_obj(st, e['value'], None)
            return [(st, ('mem', p.o, p.off, self.ty(e)))]
        if k == 'PredefinedExpr':
            p = self.string_obj(st, '"f"', None)
            return [(st, ('mem', p.o, p.off, self.ty(e)))]
        if k == 'CompoundLiteralExpr':
            t = self.ty(e)
            o = self.new_object(st, self.sizeof(t), 'cl')
            self.init(st, o, 0, t, e['inner'][0])
            return [(st, ('mem', o, z3.IntVal(0), t))]
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and e.get('castKind') in ('NoOp', 'BitCast', 'LValueBitCast'):
            return self.lv(st, e['inner'][0])
        raise Unsupported('lvalue %s line %s' % (k, line_of(e)))

    def fieldinfo(self, e):
        return self.u.fields[e['referencedMemberDecl']]

    def global_lv(self, st, d, t):
        nm = d['name']
        g = self.u.globals.get(nm)
        o = z3.Int('glob_' + nm)
        if nm not in self.globobj:
            self.globobj[nm] = o
        gt = self.u.type(g['type']['qualType']) if g else t
        if gt[0] == ARR and gt[2] is None:
            gt = t
        fs = [o > 0, sel(st.alive, o)]
        try:
            fs.append(sel(st.osize, o) == self.sizeof(gt))
        except Unsupported:
            pass
        for f in fs:
            self.fact(st, f)
        if g and 'const' in g['type']['qualType'] and g.get('init'):
            self.const_init(st, o, 0, gt, [c for c in g['inner'] if 'Comment' not in c['kind'] and 'Attr' not in c['kind']][0])
        return ('mem', o, z3.IntVal(0), t)

    def const_init(self, st, o, off, t, e):
        if e['kind'] == 'InitListExpr' and t[0] == ARR:
            s = self.sizeof(t[1])
            for i, c in enumerate(e.get('inner', [])):
                self.const_init(st, o, off + i * s, t[1], c)
            return
        try:
            v = self.const_value(st, e)
        except Unsupported:
            return
        if v is not None and t[0] == INT:
            c, sz = self.cls(t)
            self.fact(st, sel(sel(self.M(st, c), o), z3.IntVal(off // sz)) == v)

    def const_value(self, st, e):
        s = st.copy()
        try:
            r = self.ev(s, e)
        except Exception:
            raise Unsupported('const init')
        v = r[0][1]
        if isinstance(v, IV):
            n = num(v.t)
            if n is None:
                raise Unsupported('non-constant initialiser')
            return n
        raise Unsupported('const init')

    def rd(self, st, l, line=None):
        if l[0] == 'var':
            v = st.env[l[1]]
            if v is None:
                v = self.havoc_val(l[2], 'uninit')
                st.assume(*self.range_of(v, l[2]))
                if self.record and self.o['rte']:
                    self.oblige(st, 'read-of-initialised-variable', 'rte', z3.BoolVal(False), line)
                st.env[l[1]] = v
            return v
        return self.load(st, l[1], l[2], l[3], line=line)

    def wr(self, st, l, v, line=None):
        if l[0] == 'var':
            if isinstance(v, IV) and v.b is None:
                v = IV(simp(v.t))
            elif isinstance(v, PV):
                v = PV(simp(v.o), simp(v.off))
            st.env[l[1]] = v
        else:
            self.store(st, l[1], l[2], l[3], v, line=line)

    def range_of(self, v, t):
        if isinstance(v, IV) and t[0] == INT:
            lo, hi = rng(t)
            return [v.t >= lo, v.t <= hi]
        if isinstance(v, PV):
            return []
        return []

    def havoc_val(self, t, name):
        if t[0] == INT:
            return IV(fresh(name))
        if t[0] == PTR:
            return PV(fresh(name + '.o'), fresh(name + '.off'))
        if t[0] == FLT:
            return FV(fresh(name, FLTS))
        raise Unsupported('havoc of %r' % (t,))

    def e_ImplicitCastExpr(self, st, e):
        ck = e['castKind']
        sub = e['inner'][0]
        ln = line_of(e)
        if ck == 'LValueToRValue':
            out = []
            for s, l in self.lv(st, sub):
                out.append((s, self.rd(s, l, ln)))
            return out
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, l in self.lv(st, sub):
                out.append((s, PV(l[1], l[2])))
            return out
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            d = sub
            while d['kind'] in ('ParenExpr',):
                d = d['inner'][0]
            if d['kind'] == 'DeclRefExpr' and d['referencedDecl']['kind'] == 'FunctionDecl':
                return [(st, PV(self.fn_const(d['referencedDecl']['name']), 0))]
            if d['kind'] == 'UnaryOperator' and d['opcode'] == '*':
                return self.ev(st, d['inner'][0])
            raise Unsupported('function decay')
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck in ('NoOp', 'BitCast', 'ToVoid'):
            if ck == 'ToVoid':
                return [(s, None) for s, v in self.ev(st, sub)] if sub.get('valueCategory') != 'lvalue' or True else []
            return self.ev(st, sub)
        if ck == 'IntegralCast':
            frm, to = self.ty(sub), self.ty(e)
            return [(s, self.cast(s, v, frm, to, ln)) for s, v in self.ev(st, sub)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return [(s, ivb(v.bool())) for s, v in self.ev(st, sub)]
        if ck == 'IntegralToFloating':
            f = z3.Function('i2f', I, FLTS)
            return [(s, FV(f(v.t))) for s, v in self.ev(st, sub)]
        if ck == 'FloatingToIntegral':
            out = []
            to = self.ty(e)
            lo, hi = rng(to)
            hi = min(hi, self.o.get("f2i_max", hi))
            f = z3.Function('f2i%d%s' % (to[1], to[2]), FLTS, I)
            for s, v in self.ev(st, sub):
                if z3.is_app(v.t) and v.t.decl().name() == 'i2f' and to[1] <= 32:
                    out.append((s, IV(v.t.arg(0))))     # a 32-bit integer converted to double and back (range assumed by the obligation below)
                    self.oblige(s, 'float-to-int in range', 'rte', z3.And(v.t.arg(0) >= lo, v.t.arg(0) <= hi), ln)
                    continue
                r = f(v.t)
                s.assume(r >= lo, r <= hi)
                out.append((s, IV(r)))
            return out
        if ck == 'FloatingCast':
            f = z3.Function('fcast%s' % (self.ty(e)[1]), FLTS, FLTS)
            return [(s, FV(f(v.t))) for s, v in self.ev(st, sub)]
        if ck == 'IntegralToPointer':
            out = []
            for s, v in self.ev(st, sub):
                n = num(v.t)
                if n == 0:
                    out.append((s, NULL))
                else:
                    out.append((s, PV(uf('i2p', 1)(v.t), 0)))
            return out
        if ck == 'PointerToIntegral':
            out = []
            for s, v in self.ev(st, sub):
                r = uf('p2i', 2)(v.o, v.off)
                lo, hi = rng(self.ty(e))
                s.assume(r >= lo, r <= hi)
                out.append((s, IV(r)))
            return out
        raise Unsupported('cast kind %s' % ck)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def e_MemberExpr(self, st, e):
        return [(s, self.rd(s, l, line_of(e))) for s, l in self.lv(st, e)]

    e_ArraySubscriptExpr = e_MemberExpr

    def e_CompoundLiteralExpr(self, st, e):
        return [(s, self.rd(s, l, line_of(e))) for s, l in self.lv(st, e)]

    def e_UnaryExprOrTypeTraitExpr(self, st, e):
        if e['name'] != 'sizeof':
            raise Unsupported(e['name'])
        if 'argType' in e:
            t = self.u.type(e['argType']['qualType'])
        else:
            t = self.ty(e['inner'][0])
        return [(st, IV(self.sizeof(t)))]

    def e_OffsetOfExpr(self, st, e):
        raise Unsupported('offsetof')

    def e_UnaryOperator(self, st, e):
        op = e['opcode']
        sub = e['inner'][0]
        ln = line_of(e)
        t = self.ty(e)
        if op == '&':
            if sub['kind'] == 'DeclRefExpr' and sub['referencedDecl']['kind'] == 'FunctionDecl':
                return [(st, PV(self.fn_const(sub['referencedDecl']['name']), 0))]
            out = []
            for s, l in self.lv(st, sub):
                if l[0] != 'mem':
                    raise Unsupported('address of register variable')
                out.append((s, PV(l[1], l[2])))
            return out
        if op == '*':
            if t[0] == FUNC:
                return self.ev(st, sub)
            return [(s, self.rd(s, l, ln)) for s, l in self.lv(st, e)]
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(st, sub):
                old = self.rd(s, l, ln)
                d = 1 if op == '++' else -1
                new = self.step(s, old, t, d, ln)
                self.wr(s, l, new, ln)
                out.append((s, old if e.get('isPostfix') else new))
            return out
        if op == '__extension__':
            return self.ev(st, sub)
        out = []
        for s, v in self.ev(st, sub):
            if op == '!':
                out.append((s, ivb(z3.Not(v.bool()))))
            elif op == '-':
                if isinstance(v, FV):
                    out.append((s, FV(z3.Function('fneg', FLTS, FLTS)(v.t))))
                elif t[2]:
                    out.append((s, IV(self.wrap(s, -v.t, t, '-', ln))))
                else:
                    out.append((s, IV(z3.If(v.t == 0, z3.IntVal(0), (1 << t[1]) - v.t))))
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                if t[2]:
                    out.append((s, IV(-v.t - 1)))
                else:
                    out.append((s, IV((1 << t[1]) - 1 - v.t)))
            else:
                raise Unsupported('unary ' + op)
        return out

    def step(self, st, v, t, d, ln):
        if isinstance(v, PV):
            return PV(v.o, addoff(v.off, d * self.sizeof(t[1])))
        if isinstance(v, FV):
            raise Unsupported('float ++')
        if d > 0:
            return IV(self.wrap(st, v.t + 1, t, '+', ln) if t[1] >= 32 or not t[2] else v.t + 1)
        return IV(self.wrap(st, v.t - 1, t, '-', ln))

    def e_BinaryOperator(self, st, e):
        op = e['opcode']
        a, b = e['inner']
        ln = line_of(e)
        if op == '=':
            out = []
            for s, l in self.lv(st, a):
                for s2, v in self.ev(s, b):
                    self.wr(s2, l, v, ln)
                    out.append((s2, v))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(st, a):
                out += self.ev(s, b)
            return out
        if op in ('&&', '||'):
            out = []
            for s, x in self.ev(st, a):
                xb = x.bool()
                g = xb if op == '&&' else z3.Not(xb)
                if self.pure(b):
                    sx = z3.simplify(g)
                    if z3.is_false(sx):
                        out.append((s, ivb(xb)))
                        continue
                    s.guards.append(g)
                    r = self.ev(s, b)
                    if len(r) != 1:
                        raise Unsupported('fork in pure operand')
                    s.guards.pop()
                    yb = r[0][1].bool()
                    out.append((s, ivb(z3.And(xb, yb) if op == '&&' else z3.Or(xb, yb))))
                else:
                    s1, s2 = s.copy(), s.copy()
                    if self.feasible(s1, g):
                        s1.assume(g)
                        for s3, y in self.ev(s1, b):
                            out.append((s3, ivb(y.bool())))
                    if self.feasible(s2, z3.Not(g)):
                        s2.assume(z3.Not(g))
                        out.append((s2, ivb(op == '||')))
            return out
        out = []
        ta, tb, t = self.ty(a), self.ty(b), self.ty(e)
        for s, x in self.ev(st, a):
            for s2, y in self.ev(s, b):
                out.append((s2, self.arith(s2, op, x, y, ta, tb, t, ln)))
        return out

    def arith(self, st, op, x, y, ta, tb, t, ln):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(st, op, x, y)
        if isinstance(x, PV) and isinstance(y, PV):
            if op == '-':
                sz = self.sizeof(ta[1])
                return IV(divexact(x.off - y.off, sz))
            raise Unsupported('pointer ' + op)
        if isinstance(x, PV):
            d = mulc(y.t, self.sizeof(ta[1]))
            return PV(x.o, addoff(x.off, d) if op == '+' else simp(x.off - d))
        if isinstance(y, PV):
            return PV(y.o, addoff(y.off, mulc(x.t, self.sizeof(tb[1]))))
        if isinstance(x, FV) or isinstance(y, FV):
            return FV(z3.Function('f' + {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], FLTS, FLTS, FLTS)(x.t, y.t))
        return self.binop(st, op, x, y, t, ln)

    def e_CompoundAssignOperator(self, st, e):
        op = e['opcode'][:-1]
        a, b = e['inner']
        ln = line_of(e)
        t = self.ty(a)
        ct = self.u.type(e['computeResultType']['qualType'])
        clt = self.u.type(e['computeLHSType']['qualType'])
        tb = self.ty(b)
        out = []
        for s0, y in self.ev(st, b):
            for s, l in self.lv(s0, a):
                x = self.rd(s, l, ln)
                if isinstance(x, PV):
                    d = mulc(y.t, self.sizeof(t[1]))
                    r = PV(x.o, addoff(x.off, d) if op == '+' else simp(x.off - d))
                else:
                    if clt[0] == FLT and isinstance(x, IV):
                        x = FV(z3.Function('i2f', I, FLTS)(x.t))
                    elif clt[0] == INT and isinstance(x, IV):
                        x = self.cast(s, x, t, clt, ln)
                    r = self.arith(s, op, x, y, clt, tb, ct, ln)
                    if isinstance(r, FV) and t[0] == INT:
                        f = z3.Function('f2i%d%s' % (t[1], t[2]), FLTS, I)
                        lo, hi = rng(t)
                        r = IV(f(r.t))
                        s.assume(r.t >= lo, r.t <= hi)
                    elif isinstance(r, IV) and t[0] == INT:
                        r = self.cast(s, r, ct, t, ln)
                self.wr(s, l, r, ln)
                out.append((s, r))
        return out

    def e_ConditionalOperator(self, st, e):
        c, a, b = e['inner']
        out = []
        for s, x in self.ev(st, c):
            xb = z3.simplify(x.bool())
            if z3.is_true(xb):
                out += self.ev(s, a)
            elif z3.is_false(xb):
                out += self.ev(s, b)
            elif self.pure(a) and self.pure(b):
                s.guards.append(xb)
                va = self.ev1(s, a)
                s.guards.pop()
                s.guards.append(z3.Not(xb))
                vb = self.ev1(s, b)
                s.guards.pop()
                out.append((s, self.merge(xb, va, vb)))
            else:
                s1, s2 = s.copy(), s.copy()
                if self.feasible(s1, xb):
                    s1.assume(xb)
                    out += self.ev(s1, a)
                if self.feasible(s2, z3.Not(xb)):
                    s2.assume(z3.Not(xb))
                    out += self.ev(s2, b)
        return out

    def merge(self, c, a, b):
        if a is None or b is None:
            return None
        if isinstance(a, IV):
            return IV(z3.If(c, a.t, b.t), z3.If(c, a.b, b.b) if a.b is not None and b.b is not None else None)
        if isinstance(a, PV):
            return PV(simp(z3.If(c, a.o, b.o)), simp(z3.If(c, a.off, b.off)))
        if isinstance(a, FV):
            return FV(z3.If(c, a.t, b.t))
        raise Unsupported('merge')

    def pure(self, e):
        k = e['kind']
        if k in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr', 'CompoundLiteralExpr'):
            return False
        if k == 'BinaryOperator' and e['opcode'] == '=':
            return False
        if k == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            return False
        return all(self.pure(c) for c in e.get('inner', []) if isinstance(c, dict) and 'kind' in c)

    def e_InitListExpr(self, st, e):
        raise Unsupported('init list as value')

    def e_ImplicitValueInitExpr(self, st, e):
        t = self.ty(e)
        return [(st, NULL if t[0] == PTR else IV(0))]

    def e_StmtExpr(self, st, e):
        body = e['inner'][0]
        out = []
        stmts = body.get('inner', [])
        states = [(st, None)]
        last = None
        for i, s_ in enumerate(stmts):
            nxt = []
            for s, v in states:
                if i == len(stmts) - 1 and s_['kind'].endswith(('Expr', 'Operator', 'Literal')):
                    nxt += self.ev(s, s_)
                else:
                    for s2, oc in self.ex(s, s_):
                        if oc is not None:
                            raise Unsupported('control flow out of statement expression')
                        nxt.append((s2, None))
            states = nxt
        return states

    # -- calls ------------------------------------------------------------------
    def e_CallExpr(self, st, e):
        callee = e['inner'][0]
        args = e['inner'][1:]
        name = self.callee_name(callee)
        ln = line_of(e)
        states = [(st, [])]
        if name in IGNORED:
            # output / timing only; arguments are still evaluated for their safety obligations
            for a in args:
                nxt = []
                for s, vs in states:
                    try:
                        for s2, v in self.ev(s, a):
                            nxt.append((s2, vs + [v]))
                    except Unsupported:
                        nxt.append((s, vs + [None]))
                states = nxt
            t = self.ty(e)
            out = []
            for s, vs in states:
                v = None
                if t[0] != VOID:
                    v = self.havoc_val(t, name)
                    s.assume(*self.range_of(v, t))
                out.append((s, v))
            return out
        if name is None:
            fstates = self.ev(st, callee)
            states = [(s, [f]) for s, f in fstates]
            for a in args:
                states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(s, a)]
            out = []
            for s, vs in states:
                out += self.call_ptr(s, vs[0], vs[1:], e)
            return out
        for a in args:
            states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(s, a)]
        out = []
        for s, vs in states:
            out += self.call(s, name, vs, e, [self.deep_ty(a) for a in args])
        return out

    def deep_ty(self, a):
        """static pointee type before implicit conversions to void*"""
        while a['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and a.get('castKind', 'NoOp') in ('BitCast', 'NoOp', 'LValueToRValue') \
                and self.is_voidish(self.ty(a)):
            if a.get('castKind') == 'LValueToRValue':
                break
            a = a['inner'][0]
        return self.ty(a)

    def is_voidish(self, t):
        return t[0] == PTR and (t[1][0] == VOID)

    def callee_name(self, c):
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            if c['kind'] == 'ImplicitCastExpr' and c['castKind'] not in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'NoOp'):
                return None
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] == 'FunctionDecl':
            return c['referencedDecl']['name']
        return None

    def call_ptr(self, st, f, args, e):
        ln = line_of(e)
        for key, (obj, handler) in self.callbacks.items():
            if f.o.eq(obj) or self.entails(st, f.o == obj):
                self.siteh[e['id']] = handler
                return handler(st, args, ln)
        for nm, c in self.fnobj.items():
            if f.o.eq(c) or self.entails(st, f.o == c):
                self.siteh[e['id']] = nm
                return self.call(st, nm, args, e, [None] * len(args))
        if any(x[1] == 'dry' for x in self.loopstack) and e['id'] in self.siteh:
            h = self.siteh[e['id']]
            return self.call(st, h, args, e, [None] * len(args)) if isinstance(h, str) else h(st, args, ln)
        if any(x[1] == 'dry' for x in self.loopstack):
            return []      # learning pass only: what it misses is caught by the check on the real pass
        if self.entails(st, f.o == 0):
            self.oblige(st, 'call-through-null', 'mem', z3.BoolVal(False), ln)
            return []
        raise Unsupported('call through unknown function pointer line %s (%s)' % (ln, z3.simplify(f.o)))

    def call(self, st, name, args, e, atys):
        ln = line_of(e) if e else None
        if name in self.contracts:
            return self.contracts[name](self, st, args, ln)
        if name in self.externs:
            return self.externs[name](self, st, args, ln)
        b = getattr(self, 'b_' + name, None) or BUILTINS.get(name)
        src = self.find_fn(name)
        if b is not None and src is None:
            if hasattr(self, 'b_' + name):
                return b(st, args, ln, atys)
            return b(self, st, args, ln, atys)
        if src is None:
            raise Unsupported('call of %s, which has neither body nor contract' % name)
        if name in self.callstack:
            raise Unsupported('recursion into %s without contract' % name)
        if len(self.callstack) > self.o['max_inline']:
            raise Unsupported('inline depth')
        return self.inline(st, name, args)

    def find_fn(self, name):
        for u in self.units:
            if name in u.funcs:
                return u
        return None

    def inline(self, st, name, args):
        u = self.find_fn(name)
        if u is None:
            raise Unsupported('no definition of %s' % name)
        saved = self.u
        self.u = u
        ps, body = u.body(name)
        self.callstack.append(name)
        self.fn_seen[name] = u.digest(name)
        addr = self.addr_taken(body)
        outer_env = st.env
        st.env = dict(outer_env)
        for p, v in zip(ps, args):
            t = u.type(p['type']['qualType'])
            if t[0] == ARR:
                t = (PTR, t[1])
            self.varinfo[p['id']] = (p.get('name', '?'), t)
            if p['id'] in addr or t[0] == REC:
                o = self.new_object(st, self.sizeof(t), p.get('name', 'p'))
                st.env[p['id']] = ('obj', o)
                self.store(st, o, z3.IntVal(0), t, v, check=False)
            else:
                st.env[p['id']] = v
        res = []
        try:
            for s, oc in self.ex(st, body):
                if oc is None:
                    v = None
                elif oc[0] == 'ret':
                    v = oc[1]
                elif oc[0] == 'exit':
                    continue
                else:
                    raise Unsupported('stray %s' % (oc,))
                s.env = {k: x for k, x in s.env.items() if k in outer_env}
                res.append((s, v))
        finally:
            self.callstack.pop()
            self.u = saved
        self.paths += len(res)
        if len(res) > self.o['max_paths']:
            raise Unsupported('too many paths')
        return res

    def addr_taken(self, n):
        out = set()

        def go(x):
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
                c = x['inner'][0]
                while c['kind'] == 'ParenExpr':
                    c = c['inner'][0]
                if c['kind'] == 'DeclRefExpr':
                    out.add(c['referencedDecl']['id'])
            for c in x.get('inner', []):
                if isinstance(c, dict):
                    go(c)
        go(n)
        return out

    # -- statements ----------------------------------------------------------------
    def ex(self, st, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is None:
            if k.endswith(('Expr', 'Operator', 'Literal')):
                return [(s, None) for s, _ in self.ev(st, n)]
            raise Unsupported('statement %s line %s' % (k, line_of(n)))
        return m(st, n)

    def s_NullStmt(self, st, n):
        return [(st, None)]

    def s_CompoundStmt(self, st, n):
        return self.seq(st, n.get('inner', []))

    def seq(self, st, stmts, start=0):
        work = [(st, start)]
        out = []
        while work:
            s, i = work.pop()
            if i >= len(stmts):
                out.append((s, None))
                continue
            for s2, oc in self.ex(s, stmts[i]):
                if oc is None:
                    work.append((s2, i + 1))
                elif oc[0] == 'goto':
                    tgt = self.find_label(stmts, oc[1])
                    if tgt is None:
                        out.append((s2, oc))
                    elif tgt <= i:
                        raise Unsupported('backward goto')
                    else:
                        work.append((s2, tgt))
                else:
                    out.append((s2, oc))
            if len(work) + len(out) > self.o['max_paths']:
                raise Unsupported('too many paths')
        return out

    def find_label(self, stmts, lid):
        for i, s in enumerate(stmts):
            x = s
            while x.get('kind') == 'LabelStmt':
                if x.get('declId') == lid:
                    return i
                x = x['inner'][0]
        return None

    def s_LabelStmt(self, st, n):
        return self.ex(st, n['inner'][0]) if n.get('inner') else [(st, None)]

    def s_GotoStmt(self, st, n):
        return [(st, ('goto', n['targetLabelDeclId']))]

    def s_BreakStmt(self, st, n):
        return [(st, ('break',))]

    def s_ContinueStmt(self, st, n):
        return [(st, ('cont',))]

    def s_AttributedStmt(self, st, n):
        return self.ex(st, n['inner'][-1])

    def s_ReturnStmt(self, st, n):
        if not n.get('inner'):
            return [(st, ('ret', None))]
        return [(s, ('ret', v)) for s, v in self.ev(st, n['inner'][0])]

    def s_DeclStmt(self, st, n):
        states = [st]
        for d in n['inner']:
            if d['kind'] != 'VarDecl':
                continue
            nxt = []
            for s in states:
                nxt += self.decl(s, d)
            states = nxt
        return [(s, None) for s in states]

    def decl(self, st, d):
        t = self.u.type(d['type']['qualType'])
        vid = d['id']
        self.varinfo[vid] = (d['name'], t)
        inits = [c for c in d.get('inner', []) if c['kind'] not in ('FullComment',) and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            raise Unsupported('static local')
        memvar = t[0] in (ARR, REC) or vid in self.addr_scan()
        if memvar:
            if t[0] == ARR and t[2] is None and not inits:
                raise Unsupported('VLA')
            o = self.new_object(st, self.sizeof(t), d['name'])
            st.env[vid] = ('obj', o)
            if inits and d.get('init'):
                return self.init(st, o, 0, t, inits[0])
            return [st]
        if inits and d.get('init'):
            out = []
            for s, v in self.ev(st, inits[0]):
                self.wr(s, ('var', vid, t), v)
                out.append(s)
            return out
        st.env[vid] = None
        return [st]

    def addr_scan(self):
        fn = self.callstack[-1]
        key = ('addr', fn, id(self.u))
        c = self.feas_cache.get(key)
        if c is None:
            c = self.feas_cache[key] = self.addr_taken(self.u.body(fn)[1])
        return c

    def init(self, st, o, off, t, e):
        if e['kind'] == 'InitListExpr':
            if t[0] == ARR:
                s = self.sizeof(t[1])
                items = e.get('inner')
                filler = 'array_filler' in e
                if items is None:
                    items = [c for c in e.get('array_filler', []) if c['kind'] != 'ImplicitValueInitExpr']
                for i in range(t[2]):
                    if i < len(items):
                        self.init(st, o, off + i * s, t[1], items[i])
                    elif t[2] <= 256:
                        self.zero(st, o, off + i * s, t[1])
                    else:
                        self.zero_range(st, o, t[1])
                        break
                return [st]
            if t[0] == REC:
                lay = self.layout(t)
                for c, fo, ft in zip(e.get('inner', []), lay['offs'], lay['types']):
                    self.init(st, o, off + fo, ft, c)
                return [st]
        if e['kind'] == 'ImplicitValueInitExpr':
            self.zero(st, o, off, t)
            return [st]
        if e['kind'] == 'StringLiteral' and t[0] == ARR:
            p = self.string_obj(st, e['value'], None)
            bs = self.strobj[e['value']][1] + b'\0'
            for i, ch in enumerate(bs[:t[2]]):
                self.store(st, o, z3.IntVal(off + i), (INT, 8, False), IV(ch), check=False)
            return [st]
        out = []
        for s, v in self.ev(st, e):
            self.store(s, o, z3.IntVal(off), t, v, check=False)
            out.append(s)
        return out

    def zero(self, st, o, off, t):
        for lo, lt in self.leaves(t):
            v = NULL if lt[0] == PTR else (IV(0) if lt[0] == INT else FV(z3.Const('flt_0', FLTS)))
            self.store(st, o, z3.IntVal(off + lo), lt, v, check=False)

    def zero_range(self, st, o, t):
        c, _ = self.cls(t)
        m = self.M(st, c)
        st.mem[c] = z3.Store(m, o, z3.K(I, z3.IntVal(0)))
        self.note_write(c, o)

    def s_IfStmt(self, st, n):
        inner = n['inner']
        c, th = inner[0], inner[1]
        el = inner[2] if len(inner) > 2 else None
        out = []
        for s, v in self.ev(st, c):
            b = z3.simplify(v.bool())
            ln = line_of(c)
            self.taken.setdefault(ln, set())
            if not z3.is_false(b) and self.feasible(s, b):
                s1 = s.copy()
                s1.assume(b)
                s1.trace.append('%s:+' % ln)
                self.taken.setdefault(ln, set()).add('+')
                out += self.ex(s1, th)
            nb = z3.simplify(z3.Not(b))
            if not z3.is_false(nb) and self.feasible(s, nb):
                s2 = s.copy()
                s2.assume(nb)
                s2.trace.append('%s:-' % ln)
                self.taken.setdefault(ln, set()).add('-')
                if el is not None:
                    out += self.ex(s2, el)
                else:
                    out.append((s2, None))
        return out

    def s_SwitchStmt(self, st, n):
        c, body = n['inner'][0], n['inner'][1]
        stmts = body.get('inner', [])
        flat = []   # (labels, stmt)
        for s_ in stmts:
            labels = []
            x = s_
            while x['kind'] in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    if len(x['inner']) == 3:
                        raise Unsupported('case range')
                    labels.append(self.case_val(st, x['inner'][0]))
                    x = x['inner'][-1]
                else:
                    labels.append('default')
                    x = x['inner'][0]
            flat.append((labels, x))
        allvals = [l for ls, _ in flat for l in ls if l != 'default']
        out = []
        for s, v in self.ev(st, c):
            for i, (ls, _) in enumerate(flat):
                for l in ls:
                    if l == 'default':
                        cond = z3.And(*[v.t != x for x in allvals]) if allvals else z3.BoolVal(True)
                    else:
                        cond = v.t == l
                    if self.feasible(s, cond):
                        s1 = s.copy()
                        s1.assume(cond)
                        s1.trace.append('case %s' % l)
                        for _, x in flat[:i]:
                            if x['kind'] == 'DeclStmt':   # jumped over: in scope, not initialised
                                for d in x['inner']:
                                    if d['kind'] == 'VarDecl':
                                        self.decl(s1, {a: b for a, b in d.items() if a != 'init'})
                        for s2, oc in self.seq(s1, [x for _, x in flat], i):
                            out.append((s2, None if oc and oc[0] == 'break' else oc))
            if not any('default' in ls for ls, _ in flat):
                cond = z3.And(*[v.t != x for x in allvals])
                if self.feasible(s, cond):
                    s1 = s.copy()
                    s1.assume(cond)
                    out.append((s1, None))
        return out

    def case_val(self, st, e):
        if 'value' in e:
            return int(e['value'])
        return self.const_value(st, e)

    # -- loops ---------------------------------------------------------------------
    def s_WhileStmt(self, st, n):
        c, body = n['inner'][0], n['inner'][-1]
        return self.loop(st, n, c, None, body, False)

    def s_DoStmt(self, st, n):
        body, c = n['inner']
        x = c
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            x = x['inner'][0]
        if x['kind'] == 'IntegerLiteral' and int(x['value']) == 0:    # do { } while (0): once
            return [(s, None if oc and oc[0] in ('break', 'continue') else oc) for s, oc in self.ex(st, body)]
        return self.loop(st, n, c, None, body, True)

    def s_ForStmt(self, st, n):
        init, _cv, c, inc, body = n['inner']
        states = [st]
        if init.get('kind'):
            states = [s for s, _ in self.ex(st, init)]
        out = []
        for s in states:
            out += self.loop(s, n, c if c.get('kind') else None, inc if inc.get('kind') else None, body, False)
        return out

    def iteration(self, st, c, inc, body, do_while, first=False):
        """one pass from the loop head. -> (back-edge states, exit [(state,outcome)])"""
        back, exits = [], []
        if do_while:
            entered = [(st, True)]
        else:
            entered = self.cond(st, c)
        for s, taken in entered:
            if not taken:
                exits.append((s, None))
                continue
            for s2, oc in self.ex(s, body):
                if oc is None or oc[0] == 'cont':
                    if do_while:
                        for s3, tk in self.cond(s2, c):
                            (back if tk else exits).append(s3 if tk else (s3, None))
                    elif inc is not None:
                        for s3, _ in self.ev(s2, inc):
                            back.append(s3)
                    else:
                        back.append(s2)
                elif oc[0] == 'break':
                    exits.append((s2, None))
                else:
                    exits.append((s2, oc))
        return back, exits

    def cond(self, st, c):
        if c is None:
            return [(st, True)]
        out = []
        for s, v in self.ev(st, c):
            b = z3.simplify(v.bool())
            if not z3.is_false(b) and self.feasible(s, b):
                s1 = s.copy()
                s1.assume(b)
                s1.trace.append('%s:loop' % line_of(c))
                out.append((s1, True))
            nb = z3.simplify(z3.Not(b))
            if not z3.is_false(nb) and self.feasible(s, nb):
                s2 = s.copy()
                s2.assume(nb)
                s2.trace.append('%s:done' % line_of(c))
                out.append((s2, False))
        return out

    def modified(self, nodes):
        out = set()

        def base(x):
            while x['kind'] in ('ParenExpr',):
                x = x['inner'][0]
            return x

        def go(x):
            k = x.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and x.get('opcode', '').endswith('=') and \
                    x['opcode'] not in ('==', '!=', '<=', '>='):
                l = base(x['inner'][0])
                if l['kind'] == 'DeclRefExpr':
                    out.add(l['referencedDecl']['id'])
            if k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
                l = base(x['inner'][0])
                if l['kind'] == 'DeclRefExpr':
                    out.add(l['referencedDecl']['id'])
            for ch in x.get('inner', []):
                if isinstance(ch, dict):
                    go(ch)
        for n in nodes:
            if n:
                go(n)
        return out

    def loop(self, st, n, c, inc, body, do_while):
        # concretely decidable loops (constant trip count) are simply executed
        K = self.o['unroll']
        conc = self.try_concrete(st, n, c, inc, body, do_while)
        if conc is not None:
            return conc
        if K is not None:
            return self.unrolled(st, n, c, inc, body, do_while, K)
        return self.cut(st, n, c, inc, body, do_while)

    def try_concrete(self, st, n, c, inc, body, do_while):
        """If the loop condition is decided by constants at every turn, run it out (at most 300 turns)."""
        if do_while or c is None:
            return None
        cv = self.peek_cond(st, c)
        if cv is None:
            return None
        rec, obl0 = self.record, len(self.obls)
        states, out, turns = [st.copy()], [], 0
        saved = dict(self.feas_cache)
        try:
            while states:
                nxt = []
                for s in states:
                    cv = self.peek_cond(s, c)
                    if cv is None:
                        del self.obls[obl0:]
                        return None
                    if cv is False:
                        for s2, tk in self.cond(s, c):
                            out.append((s2, None))
                        continue
                    back, exits = self.iteration(s, c, inc, body, False)
                    out += exits
                    nxt += back
                states = nxt
                turns += 1
                if turns > 300 or len(states) + len(out) > 600:
                    del self.obls[obl0:]
                    return None
            return out
        except Unsupported:
            del self.obls[obl0:]
            raise

    def peek_cond(self, st, c):
        if not self.pure(c):
            return None
        s = st.copy()
        r, self.record = self.record, False
        w, self.writes = self.writes, None
        try:
            v = self.ev(s, c)
            if len(v) != 1:
                return None
            b = z3.simplify(v[0][1].bool())
            if z3.is_true(b):
                return True
            if z3.is_false(b):
                return False
            return None
        except Unsupported:
            return None
        finally:
            self.record = r
            self.writes = w

    def unrolled(self, st, n, c, inc, body, do_while, K):
        self.bounded = True
        states, out = [st], []
        for k in range(K + 1):
            nxt = []
            for s in states:
                back, exits = self.iteration(s, c, inc, body, do_while)
                out += exits
                nxt += back
            states = nxt
            if not states:
                break
            if len(states) + len(out) > self.o['max_paths']:
                raise Unsupported('too many paths (unrolled)')
        return out   # deeper iterations are cut: bounded

    def cut(self, st, n, c, inc, body, do_while):
        entry = st
        modv = [v for v in self.modified([c, inc, body]) if v in entry.env]
        fn = self.cur()
        key = (fn, n['id'], tuple(x[0] for x in self.loopstack))
        rec = self.record
        # 1. dry run with everything havocked, to learn what memory the loop writes
        self.record = False
        wsave, self.writes = self.writes, []
        before_ctr = next(_ctr)
        self.loopstack.append((n['id'], 'dry'))
        gen_save, self.loopgen = self.loopgen, []
        gs_save, self.ghost_step = self.ghost_step, None
        hclasses, halloc = set(), False
        try:
            while True:
                hv = entry.copy()
                self.havoc_vars(hv, entry, modv)
                for cl in hclasses:
                    m = self.M(hv, cl)
                    hv.mem[cl] = fresh('D_' + cl, m.sort())
                if halloc:
                    hv.alive, hv.osize = fresh('Dalive', BOOLMAP), fresh('Dosize', INTMAP)
                al0 = hv.alive
                back, exits = self.iteration(hv, c, inc, body, do_while)
                wcls = self.flow_writes(hv, back)
                ncl = set(wcls) - hclasses
                nal = any(not s.alive.eq(al0) for s in back)
                if not ncl and (halloc or not nal):
                    break
                hclasses |= ncl
                halloc = halloc or nal
        finally:
            self.loopstack.pop()
            self.loopgen = gen_save
            self.ghost_step = gs_save
        allocs = nal
        self.writes = wsave
        self.record = rec
        stable = {}
        for cl, os in wcls.items():
            if all(self.stable(o, before_ctr) for o in os) and not allocs:
                u = []
                for o in os:
                    if not any(o.eq(x) for x in u):
                        u.append(o)
                stable[cl] = u
            else:
                stable[cl] = None
        # the objects of stable writes must be expressible at loop entry: they contain only pre-loop constants
        L = Loop(self, entry, n, fn, len([1 for k in self.houdini_log]), None, modv, set(wcls))
        L.allocs = allocs
        L.stable = stable
        L.writes = wcls
        L.parent = self.loopstack[-1][1] if self.loopstack else None
        L.body, L.cond, L.inc = body, c, inc
        dry = any(x[1] == 'dry' for x in self.loopstack)
        cands = [] if dry else self.candidates(L, entry, c)
        ckey = (n['id'], tuple(x[0] for x in self.loopstack), tuple(x for x in entry.trace if not x.startswith('loop@')))
        bad = self.dropcache.setdefault(ckey, set())
        cands = [(a, b) for a, b in cands if a not in bad]
        # ghost state handled by the contract
        gstep = None if dry else self.ghost_step
        # 2. candidates must hold on entry
        zero = z3.IntVal(0)
        live = []
        if not dry and self.instances:
            entry = entry.copy()
            for f in self.instances:
                entry.assume(*f(L, entry, zero))
        self.loopstack.append((n['id'], L))
        try:
            for nm, f in cands:
                try:
                    g = f(entry, zero)
                except (KeyError, Unsupported, AttributeError, z3.Z3Exception):
                    continue
                if g is None:
                    continue
                v = solve.prove(entry.pc, g, tmo=self.o.get('htmo', 3.0), want_model=False, fast=not self.o.get('hslow'))[0]
                if v == 'proved':
                    live.append((nm, f))
                elif len(self.loopstack) > 1:
                    bad.add(nm)
                if v != 'proved' and DEBUG_H:
                    print('NOT INITIAL', line_of(n), nm, v)
            # 3. Houdini
            rounds = 0
            while True:
                rounds += 1
                it = fresh('it')
                self.record = False
                h = self.head_state(entry, modv, wcls, stable, allocs, live, it, gstep, L)
                wsave2, self.writes = self.writes, None
                back, _ = self.iteration(h, c, inc, body, do_while)
                self.writes = wsave2
                dropped = []
                for s in back:
                    if gstep:
                        gstep(L, h, s, it)
                    ok = []
                    for nm, f in live:
                        try:
                            g = f(s, it + 1)
                            v = solve.prove(s.pc, g, tmo=self.o.get('htmo', 3.0), want_model=False, fast=not self.o.get('hslow'))[0]
                        except (KeyError, z3.Z3Exception) as ex:
                            v, g = 'error %s' % ex, z3.BoolVal(False)
                        if v == 'proved':
                            ok.append((nm, f))
                        else:
                            dropped.append(nm)
                            if len(self.loopstack) > 1:
                                bad.add(nm)
                            if DEBUG_H:
                                print('DROP round', rounds, 'line', line_of(n), nm, v, s.trace[-3:])
                                if DEBUG_H == nm:
                                    self.nq = getattr(self, 'nq', 0) + 1
                                    open('/tmp/q%d.smt2' % self.nq, 'w').write(_dump(s.pc, g))
                    live = ok
                self.record = rec
                if not dropped:
                    break
                if rounds > 60:
                    raise Unsupported('houdini diverges')
            if rec:
                self.houdini_log.append(dict(fn=fn, line=line_of(n), kept=[x for x, _ in live],
                                             dropped=len(cands) - len(live), rounds=rounds))
                self.inv_obls += len(live) * (1 + len(back))
            # 4. real pass
            it = fresh('it')
            h = self.head_state(entry, modv, wcls, stable, allocs, live, it, gstep, L)
            h.trace.append('loop@%s' % line_of(n))
            back, exits = self.iteration(h, c, inc, body, do_while)
            for cl, os in self.flow_writes(h, back).items():
                if cl not in stable or (stable[cl] is not None and not all(any(o.eq(x) for x in stable[cl]) for o in os)):
                    raise Unsupported('loop at line %s: writes not learnt (%s)' % (line_of(n), cl))
            if not allocs and any(not s.alive.eq(h.alive) for s in back):
                raise Unsupported('loop at line %s: allocation not learnt' % line_of(n))
            res = []
            for s, oc in exits:
                s.ghost[('it', n['id'])] = it
                s.ghost['lastit'] = it
                res.append((s, oc))
            if self.o.get('on_backedge') and self.record:
                for s in back:
                    self.o['on_backedge'](L, s, it)
        finally:
            self.loopstack.pop()
        if not res and not back:
            pass
        return res

    def stable(self, o, ctr):
        stack, seen = [o], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm:
                    try:
                        if int(nm.rsplit('!', 1)[1]) > ctr:
                            return False
                    except ValueError:
                        pass
            stack.extend(x.children())
        return True

    def flow_writes(self, hv, back):
        """{class: objects written} between the head state and the states that flow round the loop"""
        wcls = {}
        for s in back:
            for cl in s.mem:
                base = self.M(hv, cl)
                m = s.mem[cl]
                while not m.eq(base):
                    l = wcls.setdefault(cl, [])
                    if z3.is_store(m):
                        o = m.arg(1)
                        if not any(o.eq(x) for x in l):
                            l.append(o)
                        m = m.arg(0)
                    else:
                        l.append(fresh('unknown_target'))
                        break
        return wcls

    def havoc_vars(self, s, entry, modv):
        for vid in modv:
            v = entry.env[vid]
            if isinstance(v, tuple):
                continue
            nm, t = self.varinfo[vid]
            nv = self.havoc_val(t, nm)
            if t[0] == INT:
                s.assume(*self.range_of(nv, t))
            if t[0] == PTR:
                try:
                    sz = self.sizeof(t[1])
                except Unsupported:
                    sz = 1
                if sz > 1 and isinstance(v, PV) and self.o.get('ptr_stride', True):
                    nv = PV(nv.o, simp(nv.off * sz))
            s.env[vid] = nv

    def head_state(self, entry, modv, wcls, stable, allocs, live, it, gstep, L):
        h = entry.copy()
        self.havoc_vars(h, entry, modv)
        for cl, os in wcls.items():
            m = self.M(entry, cl)
            self.M(h, cl)
            if stable.get(cl) is not None:
                nm = m
                for o in stable[cl]:
                    nm = z3.Store(nm, o, fresh('H_' + cl, FROW if cl[0] == 'f' else ROW))
                h.mem[cl] = nm
            else:
                h.mem[cl] = fresh('H_' + cl, m.sort())
        if allocs:
            h.alive, h.osize = fresh('Halive', BOOLMAP), fresh('Hosize', INTMAP)
        h.assume(it >= 0)
        h.ghost[('cur', L.depth)] = it
        if gstep and hasattr(gstep, 'havoc'):
            gstep.havoc(L, h, it)
        for nm, f in live:
            g = f(h, it)
            if g is not None:
                h.assume(g)
            if getattr(f, 'subst', None):
                f.subst(h, it)
        for f in self.instances:
            h.assume(*f(L, h, it))
        return h

    def candidates(self, L, entry, c):
        out = []
        mod = set(L.modvars)
        E = entry
        for nm, vid, t in L.vars():
            if vid not in mod:
                continue
            v0 = E.env[vid]
            if isinstance(v0, IV):
                out.append(('%s = init + it' % nm, lambda s, it, vid=vid, a=v0.t: s.env[vid].t == a + it))
                out.append(('%s = init - it' % nm, lambda s, it, vid=vid, a=v0.t: s.env[vid].t == a - it))
                out.append(('%s >= init' % nm, lambda s, it, vid=vid, a=v0.t: s.env[vid].t >= a))
                out.append(('%s = init' % nm, lambda s, it, vid=vid, a=v0.t: s.env[vid].t == a))
            elif isinstance(v0, PV):
                out.append(('%s.o = init' % nm, lambda s, it, vid=vid, a=v0.o: s.env[vid].o == a))
                out.append(('%s.off = init' % nm, lambda s, it, vid=vid, a=v0.off: s.env[vid].off == a))
                out.append(('%s.off = 0' % nm, lambda s, it, vid=vid: s.env[vid].off == 0))
                try:
                    sz = self.sizeof(t[1])
                except Unsupported:
                    sz = 1
                out.append(('%s.off = init + it*size' % nm,
                            lambda s, it, vid=vid, a=v0.off, sz=sz: s.env[vid].off == a + it * sz))
        # weakened loop condition
        for cmp_ in self.cond_atoms(c):
            for op2 in {'<': ['<='], '>': ['>='], '!=': ['<=', '>='], '<=': [('<=', 1)], '>=': [('>=', 1)]}.get(cmp_['opcode'], []):
                out.append(('cond-bound@%s %s' % (line_of(cmp_), op2), self.atom_cand(cmp_, op2)))
        # objects named by pointers the loop does not move: their cells stay
        for nm, vid, t in L.vars(PTR):
            if vid in mod or not isinstance(E.env[vid], PV):
                continue
            for cl, os in L.stable.items():
                if os is None and cl != 'po':
                    out.append(('*%s unchanged [%s]' % (nm, cl), self.row_cand(cl, entry, E.env[vid].o)))
        # frames for classes with unstable write targets
        for cl, os in L.stable.items():
            if os is not None:
                continue
            ws = []
            for o in L.writes[cl]:
                if self.stable(o, 10 ** 15) and self.in_entry(o, entry):
                    ws.append(o)
            extra = self.frame_extra(L, cl) if self.frame_extra else None
            out.append(('frame ' + cl, self.frame_cand(cl, entry, ws, extra)))
            lo = []
            for nm, vid, t in L.vars(PTR):
                if isinstance(E.env[vid], PV) and vid in mod and not any(E.env[vid].o.eq(x) for x in lo):
                    lo.append(E.env[vid].o)
                    out.append(('frame %s except the object of %s' % (cl, nm), self.frame_cand(cl, entry, ws + lo[-1:], extra)))
            if len(lo) > 1:
                out.append(('frame %s except the objects of moved pointers' % cl, self.frame_cand(cl, entry, ws + lo, extra)))
        if L.allocs:
            out.append(('alive-mono', self.alive_cand(entry)))
            out.append(('object sizes unchanged', lambda s, it, z=entry.osize: s.osize == z))
        if self.o.get('auto'):
            out = [x for x in out if self.o['auto'](x[0])]
        for g in self.loopgen:
            try:
                out += list(g(L) or [])
            except Unsupported:
                pass
        return out

    def in_entry(self, o, entry):
        return False

    def alive_cand(self, entry):
        a0, z0 = entry.alive, entry.osize
        o = z3.Int('o?')

        def f(s, it):
            return z3.ForAll([o], z3.Implies(z3.Select(a0, o), z3.And(z3.Select(s.alive, o), z3.Select(s.osize, o) == z3.Select(z0, o))),
                             patterns=[z3.Select(s.alive, o), z3.Select(s.osize, o), z3.Select(a0, o)] if not s.alive.eq(a0) and z3.is_const(s.alive) else [z3.Select(a0, o)])
        return f

    def row_cand(self, cl, entry, o):
        m0 = self.M(entry, cl)
        return lambda s, it: z3.Select(self.M(s, cl), o) == z3.Select(m0, o)

    def frame_cand(self, cl, entry, ws, extra=None):
        m0 = self.M(entry, cl)
        a0 = entry.alive
        o = z3.Int('o?')

        def f(s, it):
            m = self.M(s, cl)
            cond = [z3.Select(a0, o)] + [o != w for w in ws]
            if extra is not None:
                cond.append(z3.Not(extra(s, o)))
            pats = [z3.Select(m, o)] if z3.is_const(m) else []
            kw = dict(patterns=pats) if pats else {}
            return z3.ForAll([o], z3.Implies(z3.And(*cond), z3.Select(m, o) == z3.Select(m0, o)), **kw)
        return f

    def cond_atoms(self, c):
        if c is None:
            return []
        k = c['kind']
        if k == 'ParenExpr' or k == 'ImplicitCastExpr':
            return self.cond_atoms(c['inner'][0])
        if k == 'BinaryOperator':
            if c['opcode'] == '&&':
                return self.cond_atoms(c['inner'][0]) + self.cond_atoms(c['inner'][1])
            if c['opcode'] in ('<', '>', '!=', '<=', '>=') and self.pure(c):
                return [c]
        return []

    def atom_cand(self, c, op2):
        a, b = c['inner']

        def f(s, it):
            s2 = s.copy()
            r, self.record = self.record, False
            w, self.writes = self.writes, None
            try:
                x, y = self.ev1(s2, a), self.ev1(s2, b)
            finally:
                self.record = r
                self.writes = w
            if isinstance(x, PV):
                if op2 not in ('<=', '>='):
                    return None
                return z3.And(x.o == y.o, (x.off <= y.off) if op2 == '<=' else (x.off >= y.off))
            if not isinstance(x, IV):
                return None
            if op2 == '<=':
                return x.t <= y.t
            if op2 == '>=':
                return x.t >= y.t
            if op2[0] == '<=':
                return x.t <= y.t + 1
            return x.t >= y.t - 1
        return f

    # -- library models ---------------------------------------------------------
    def b_malloc(self, st, args, ln, atys):
        return self.alloc(st, args[0].t, 'malloc')

    def b_PDC_malloc(self, st, args, ln, atys):
        return self.alloc(st, args[0].t, 'malloc')

    def alloc(self, st, size, nm, zero=False):
        out = []
        if self.o['malloc_fail']:
            s0 = st.copy()
            s0.trace.append('%s fails' % nm)
            out.append((s0, NULL))
        o = self.new_object(st, size, nm)
        if zero:
            for c in self.o.get('zero_classes', ['p', 'po', 'u64', 's32', 'u32', 'b', 's64']):
                if c == 'po' and not self.o['interior']:
                    continue
                m = self.M(st, c)
                st.mem[c] = z3.Store(m, o, z3.K(I, z3.IntVal(0)))
                self.note_write(c, o)
        out.append((st, PV(o, 0)))
        return out

    def b_calloc(self, st, args, ln, atys):
        r = args[0].t * args[1].t
        sz = self.wrap(st, r, (INT, 64, False), '*', ln)
        return self.alloc(st, sz, 'calloc', zero=True)

    def b_PDC_calloc(self, st, args, ln, atys):
        return self.b_calloc(st, args, ln, atys)

    def b_free(self, st, args, ln, atys):
        p = args[0]
        out = []
        if self.feasible(st, p.o == 0):
            if self.entails(st, p.o == 0):
                return [(st, None)]
            s0 = st.copy()
            s0.assume(p.o == 0)
            out.append((s0, None))
            st.assume(p.o != 0)
        self.oblige(st, 'valid-free', 'mem', z3.And(sel(st.alive, p.o), p.off == 0), ln)
        st.alive = z3.Store(st.alive, p.o, z3.BoolVal(False))
        st.log.append(('free', p.o))
        out.append((st, None))
        return out

    def b_exit(self, st, args, ln, atys):
        return []

    b_abort = b_exit

    def b___assert_fail(self, st, args, ln, atys):
        self.oblige(st, 'assert', 'rte', z3.BoolVal(False), ln)
        return []

    def b_memcpy(self, st, args, ln, atys):
        d, s, n = args[0], args[1], args[2].t
        if self.o['rte']:
            self.oblige(st, 'memcpy-dst-in-bounds', 'mem', z3.Implies(n > 0, z3.And(sel(st.alive, d.o), d.off >= 0, d.off + n <= sel(st.osize, d.o))), ln)
            self.oblige(st, 'memcpy-src-in-bounds', 'mem', z3.Implies(n > 0, z3.And(sel(st.alive, s.o), s.off >= 0, s.off + n <= sel(st.osize, s.o))), ln)
        if 'memcpy' in self.externs:
            return self.externs['memcpy'](self, st, args, ln)
        classes = self.copy_classes(atys[0], atys[1])
        for c, sz in classes:
            self.copy_cells(st, c, d.o, divexact(d.off, sz), s.o, divexact(s.off, sz), divexact(n, sz))
        return [(st, d)]

    b_memmove = b_memcpy

    def copy_classes(self, *tys):
        for t in tys:
            if t and t[0] in (PTR, ARR) and t[1][0] not in (VOID,) and t[1][:2] != (INT, 8):
                if t[1][0] in (INT, PTR, FLT):
                    return [self.cls(t[1])] + ([('po', 8)] if t[1][0] == PTR and self.o['interior'] else [])
                if t[1][0] == REC:
                    cs = []
                    for off, lt in self.leaves(t[1]):
                        c = self.cls(lt)
                        if c not in cs:
                            cs.append(c)
                    return cs
                if t[1][0] == ARR:
                    return self.copy_classes(t[1])
        return [('b', 1)]

    def copy_cells(self, st, c, do, di, so, si, n):
        m = self.M(st, c)
        nn = num(n)
        if nn is not None and nn <= 8:
            row = sel(m, do)
            src = sel(m, so)
            vals = [sel(src, simp(si + i)) for i in range(nn)]
            for i in range(nn):
                row = z3.Store(row, simp(di + i), vals[i])
            st.mem[c] = z3.Store(m, do, row)
        else:
            A = fresh('cpy_' + c, FROW if c[0] == 'f' else ROW)
            j = z3.Int('j?')
            src, dst = sel(m, so), sel(m, do)
            st.assume(z3.ForAll([j], z3.Select(A, j) == z3.If(z3.And(di <= j, j < di + n), z3.Select(src, j - di + si), z3.Select(dst, j)),
                                patterns=[z3.Select(A, j)]))
            # source-driven instantiation
            if z3.is_const(src) or True:
                st.assume(z3.ForAll([j], z3.Implies(z3.And(si <= j, j < si + n), z3.Select(A, j - si + di) == z3.Select(src, j)),
                                    patterns=[z3.Select(src, j)]))
            st.mem[c] = z3.Store(m, do, A)
        self.note_write(c, do)

    def b_memset(self, st, args, ln, atys):
        d, v, n = args[0], args[1].t, args[2].t
        if self.o['rte']:
            self.oblige(st, 'memset-in-bounds', 'mem', z3.Implies(n > 0, z3.And(sel(st.alive, d.o), d.off >= 0, d.off + n <= sel(st.osize, d.o))), ln)
        classes = self.copy_classes(atys[0])
        if not (num(v) == 0) and classes != [('b', 1)]:
            raise Unsupported('memset of non-byte object with non-zero')
        for c, sz in classes:
            m = self.M(st, c)
            di, k = divexact(d.off, sz), divexact(n, sz)
            row = sel(m, d.o)
            kn = num(k)
            if kn is not None and kn <= 8:
                for i in range(kn):
                    row = z3.Store(row, simp(di + i), v)
            else:
                A = fresh('set_' + c, ROW)
                j = z3.Int('j?')
                st.assume(z3.ForAll([j], z3.Select(A, j) == z3.If(z3.And(di <= j, j < di + k), v % 256 if c == 'b' else v, z3.Select(row, j)),
                                    patterns=[z3.Select(A, j)]))
                row = A
            st.mem[c] = z3.Store(m, d.o, row)
            self.note_write(c, d.o)
        return [(st, d)]

    def b_realloc(self, st, args, ln, atys):
        p, n = args[0], args[1].t
        out = []
        if self.o['malloc_fail']:
            s0 = st.copy()
            s0.trace.append('realloc fails')
            out.append((s0, NULL))
        old_alive, old_size = st.alive, st.osize
        self.oblige(st, 'valid-realloc', 'mem', z3.Or(p.o == 0, z3.And(sel(st.alive, p.o), p.off == 0)), ln)
        o = self.new_object(st, n, 'realloc')
        for c, sz in self.copy_classes(atys[0]):
            m = self.M(st, c)
            A = fresh('re_' + c, FROW if c[0] == 'f' else ROW)
            j = z3.Int('j?')
            src = sel(m, p.o)
            lim = z3.If(sel(old_size, p.o) < n, sel(old_size, p.o), n)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(p.o != 0, 0 <= j, (j + 1) * sz <= lim), z3.Select(A, j) == z3.Select(src, j)),
                                patterns=[z3.Select(A, j)]))
            st.mem[c] = z3.Store(m, o, A)
            self.note_write(c, o)
        st.alive = z3.If(p.o == 0, st.alive, z3.Store(st.alive, p.o, z3.BoolVal(False)))
        st.log.append(('free', p.o))
        out.append((st, PV(o, 0)))
        return out


IGNORED = {'printf', 'fprintf', 'fflush', 'puts', 'putchar', 'perror', 'gettimeofday', 'println', 'PGOTO_ERROR', 'vprintf',
           'clock', 'time', 'usleep'}
BUILTINS = {}

_ufs = {}


def uf(name, n, sort=I):
    key = (name, n)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *([I] * n + [sort]))
    return _ufs[key]


UDIV, UMOD = uf('udiv', 2), uf('umod', 2)


def simp(t):
    return z3.simplify(t) if not z3.is_const(t) else t


APART = {}     # objects that differ from each other and from every object of a family in FAMILY; filled by contracts that ask for it
FAMILY = set()


def apart(a, b):
    """different objects: two declared ones, or a declared one and a member of a family (never two members)"""
    if not APART:
        return False
    fa, fb = (z3.is_app(x) and x.num_args() > 0 and x.decl().name() in FAMILY for x in (a, b))
    ka, kb = APART.get(a.get_id()), APART.get(b.get_id())
    return (ka is not None and kb is not None and not a.eq(b)) or (fa and kb is not None) or (fb and ka is not None)


def sel(m, i):
    """select with read-over-write resolved when indices are syntactically decided"""
    if isinstance(i, int):
        i = z3.IntVal(i)
    while z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
        a, ix, v = m.children()
        if ix.eq(i):
            return v
        d = z3.simplify(ix - i) if ix.sort() == I else None
        if d is not None and z3.is_int_value(d):
            if d.as_long() == 0:
                return v
            m = a
            continue
        if d is not None and apart(ix, i):
            m = a
            continue
        break
    return z3.Select(m, i)


def pow2_factor(e):
    """a power of two that divides e, by its form"""
    m = 1
    if z3.is_mul(e):
        for c in e.children():
            if z3.is_int_value(c) and c.as_long() > 0:
                m *= c.as_long() & -c.as_long()
    return m


def nonlinear(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and sum(not z3.is_int_value(a) for a in x.children()) > 1:
            return True
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE):
            stack.extend(x.children())
    return False


def addoff(off, d):
    if isinstance(d, int):
        if d == 0:
            return off
        d = z3.IntVal(d)
    return simp(off + d)


def mulc(t, c):
    if c == 1:
        return t
    return simp(t * c)


def divexact(t, s):
    """t / s, structurally when the linear form is divisible by s"""
    if s == 1:
        return t
    r = _div(t, s)
    if r is not None:
        return simp(r)
    return t / s


def _div(t, s):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        v = t.as_long()
        return z3.IntVal(v // s) if v % s == 0 else None
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        rs = [_div(c, s) for c in ch]
        if all(r is not None for r in rs):
            return z3.Sum(rs)
        return None
    if k == z3.Z3_OP_MUL:
        if z3.is_int_value(ch[0]) and ch[0].as_long() % s == 0:
            q = ch[0].as_long() // s
            rest = ch[1] if len(ch) == 2 else z3.Product(ch[1:])
            return rest * q if q != 1 else rest
        return None
    if k == z3.Z3_OP_ITE:
        a, b = _div(ch[1], s), _div(ch[2], s)
        if a is not None and b is not None:
            return z3.If(ch[0], a, b)
    if k == z3.Z3_OP_UMINUS:
        a = _div(ch[0], s)
        return -a if a is not None else None
    return None


def line_of(n):
    b = n.get('range', {}).get('begin', {})
    for x in (b, b.get('expansionLoc', {}), b.get('spellingLoc', {})):
        if 'line' in x:
            return x['line']
    return None

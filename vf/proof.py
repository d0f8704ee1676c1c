"""Contract driver: builds the symbolic pre-state, runs the real function, states the postcondition."""
import z3, time, traceback
from . import sym
from .sym import *
from . import solve


class Ctx:
    """One contract being checked against one function of the current source."""

    def __init__(self, name, path, extra=(), opts=None, more_units=()):
        self.name = name
        sym.APART.clear()
        sym.FAMILY.clear()
        solve.EFFORT = (opts or {}).get('effort', 0)
        self.unit = unit(path, tuple(extra))
        self.eng = Engine(self.unit, opts)
        for p, ex in more_units:
            self.eng.units.append(unit(p, tuple(ex)))
        self.st = State()
        self.path = path
        self.inputs = []
        self.reach = []
        self.nposts = 0

    # inputs
    def int(self, name, ctype='uint64_t'):
        t = self.unit.type(ctype)
        v = z3.Int(name)
        lo, hi = rng(t)
        self.st.assume(v >= lo, v <= hi)
        self.inputs.append(v)
        return IV(v)

    def obj(self, name, size, maybe_null=False):
        o = z3.Int(name)
        if maybe_null:
            self.st.assume(z3.Or(o == 0, z3.And(o > 0, z3.Select(self.st.alive, o), z3.Select(self.st.osize, o) == size)))
        else:
            self.st.assume(o > 0, z3.Select(self.st.alive, o), z3.Select(self.st.osize, o) == size)
        self.inputs.append(o)
        return PV(o, 0)

    def opaque(self, name):
        o = z3.Int(name)
        self.inputs.append(o)
        return PV(o, 0)

    def struct(self, name, ctype):
        return self.obj(name, self.unit.sizeof(self.unit.type(ctype)))

    def distinct(self, *ps):
        self.st.assume(z3.Distinct(*[p.o for p in ps]))

    def assume(self, *fs):
        self.st.assume(*fs)

    def apart(self, *ps, family=()):
        """precondition: these objects differ from each other and from the members of the families; reads are resolved accordingly"""
        self.distinct(*ps)
        for p in ps:
            sym.APART[p.o.get_id()] = p.o
        sym.FAMILY.update(family)

    def sizeof(self, ctype):
        return self.unit.sizeof(self.unit.type(ctype))

    # reading the heap in specifications
    def fld(self, st, p, rec, f):
        off, t = self.unit.field(rec, f)
        return self.cell(st, p.o, off, t, p.off)

    def cell(self, st, o, off, t, base=0):
        c, sz = self.eng.cls(t)
        off = simp(z3.IntVal(off) + base) if not isinstance(base, int) else z3.IntVal(off + base)
        return sel(sel(self.eng.M(st, c), o), divexact(off, sz))

    def row(self, st, c, o):
        return sel(self.eng.M(st, c), o)

    def field_range(self, rec, p, *fs):
        for f in fs:
            off, t = self.unit.field(rec, f)
            v = self.cell(self.st, p.o, off, t, p.off)
            if t[0] == INT:
                lo, hi = rng(t)
                self.st.assume(v >= lo, v <= hi)

    def run(self, fn, *args, st=None, cover=True):
        if not self.reach and cover:
            self.reach.append((self.name + ': precondition satisfiable', list(self.st.pc)))
        res = self.eng.inline(st if st is not None else self.st, fn, list(args))
        self.reach += [(self.name + ': some path returns', None)] if res else []
        if not res:
            raise Unsupported('%s: no path of %s returns' % (self.name, fn))
        return res

    def post(self, st, name, goal):
        self.nposts += 1
        g = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        self.eng.obls.append(Obl(name, 'post', list(st.pc), z3.simplify(g), list(st.trace), self.eng.cur(), None))

    def post_alts(self, st, name, groups):
        """groups: (label, definitional assumptions, [(part, goal)]).  Discharged when every part of one group is proved
        (a choice of ghost witness); otherwise the first group's unproved parts are reported."""
        self.nposts += 1
        ob = Obl(name, 'post', list(st.pc), None, list(st.trace), self.eng.cur(), None)
        ob.goal = groups
        self.eng.obls.append(ob)

    def frame(self, st0, st, writable, classes=None, name='frame'):
        """nothing outside `writable` (obj terms) among objects alive at entry changed"""
        o = fresh('o')
        for c in (list(st.mem) if classes is None else classes):
            m0 = self.eng.M(st0, c)
            m1 = self.eng.M(st, c)
            if m0.eq(m1):
                continue
            self.post(st, '%s[%s]' % (name, c),
                      z3.Implies(z3.And(z3.Select(st0.alive, o), *[o != w for w in writable]), z3.Select(m1, o) == z3.Select(m0, o)))

    def discharge(self, tmo=6.0, stop_on_fail=False):
        r = Result(self.name)
        r.functions = dict(self.eng.fn_seen)
        r.houdini = self.eng.houdini_log
        r.inv = self.eng.inv_obls
        r.bounded = self.eng.bounded
        # vacuity guard: the precondition has a model (quantifier-free part, then all of it if the solver can)
        for nm, pc in self.reach:
            if pc is None:
                continue
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*pc)
            k = s.check()
            if k == z3.unsat:
                r.failed.append(dict(name='vacuous precondition', cat='vacuity', fn=self.name, trace=[], verdict='unsat', model=None, line=None))
            r.covers.append((nm, str(k)))
        seen = {}
        for ob in self.eng.obls:
            if isinstance(ob.goal, list):
                self._alts(ob, r, tmo)
                continue
            r.total += 1
            if z3.is_true(ob.goal):
                r.discharged += 1
                r.by['simplifier'] = r.by.get('simplifier', 0) + 1
                continue
            key = (ob.goal.get_id(), tuple(sorted({f.get_id() for f in ob.pc})))
            if key in seen:
                v, be, mod = seen[key]
            else:
                v, be, mod = solve.prove(ob.pc, ob.goal, tmo)
                seen[key] = (v, be, mod)
            if v == 'proved':
                r.discharged += 1
                r.by[be] = r.by.get(be, 0) + 1
            else:
                md = None
                if mod is not None:
                    md = {str(x): str(mod.eval(x, model_completion=True)) for x in self.inputs}
                r.failed.append(dict(name=ob.name, cat=ob.cat, fn=ob.fn, trace=ob.trace, verdict=v, model=md, line=ob.line, goal=str(ob.goal)[:600]))
                if stop_on_fail:
                    break
        return r


    def _alts(self, ob, r, tmo):
        first = None
        for label, defs, parts in ob.goal:
            bad, by = [], {}
            for nm, g in parts:
                v, be, mod = solve.prove(ob.pc + list(defs), g, tmo)
                if v == 'proved':
                    by[be] = by.get(be, 0) + 1
                else:
                    bad.append(dict(name='%s: %s [%s]' % (ob.name, nm, label), cat=ob.cat, fn=ob.fn, trace=ob.trace, verdict=v, model=None,
                                    line=None, goal=str(g)[:400]))
                    if len(ob.goal) > 1 and first is not None:
                        break
            if first is None:
                first = (len(parts), bad, by)
            if not bad:
                first = (len(parts), bad, by)
                break
        n, bad, by = first
        r.total += n
        r.discharged += n - len(bad)
        for k, v in by.items():
            r.by[k] = r.by.get(k, 0) + v
        r.failed += bad


class Result:
    def __init__(self, name):
        self.name = name
        self.total = self.discharged = self.inv = 0
        self.failed, self.covers, self.houdini = [], [], []
        self.by = {}
        self.functions = {}
        self.error = None
        self.bounded = False
        self.wall = 0.0
        self.assumed = []

    def ok(self):
        return self.error is None and not self.failed and self.total > 0

    def dump(self):
        return dict(self.__dict__)


def _lemma(self, name, f):
    """state a consequence of what is assumed so far: an obligation, then available to the later ones"""
    self.eng.obls.append(Obl(name, 'lemma', list(self.st.pc), z3.simplify(f), [], self.name, None))
    self.st.assume(f)


def _schema(self, name, f, n):
    """prove f for n arbitrary integers; its instances may then be assumed anywhere"""
    xs = [z3.Int('any%d' % i) for i in range(n)]
    self.eng.obls.append(Obl(name, 'lemma', [], f(*xs), [], self.name, None))


Ctx.schema = _schema
Ctx.lemma = _lemma


def _point(self, st, p, rec, f, target):
    """the pointer field p->f is `target`"""
    st.assume(self.fld(st, p, rec, f) == target.o)


Ctx.point = _point

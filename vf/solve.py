"""Obligation back ends: z3 (API, 5.3), cvc5 (CLI) and z3 (CLI) as a portfolio."""
import z3, subprocess, time, tempfile, os, itertools, threading

z3.set_option(warning=False)
SLOW = float(os.environ.get('VF_SLOW', '0'))
LINMISS = os.environ.get('VF_LM')
STATS = {'queries': 0, 'time': 0.0, 'by': {}}


def _cvc5(smt2, tmo):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(tmo * 1000), '--full-saturate-quant', p],
                           capture_output=True, text=True, timeout=tmo + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return out if out in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(p)


_MEMO = {}


def _scan(e):
    """(contains a quantifier, contains a product of variables)"""
    got = _MEMO.get(e.get_id())
    if got is not None:
        return got[1]
    stack, seen, q, nl = [e], set(), False, False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        got = _MEMO.get(i)
        if got is not None:
            q, nl = q or got[1][0], nl or got[1][1]
            continue
        if z3.is_quantifier(x):
            q = True
            stack.append(x.body())
            continue
        if not nl and z3.is_mul(x) and sum(not z3.is_int_value(y) and not z3.is_rational_value(y) for y in x.children()) > 1:
            nl = True
        stack.extend(x.children())
    if len(_MEMO) > 100000:
        _MEMO.clear()
    _MEMO[e.get_id()] = (e, (q, nl))
    return q, nl


def has_quant(e):
    return _scan(e)[0]


def _z3(fs, tmo, mbqi=None, extra=None):
    s = z3.Solver()
    s.set('timeout', int(tmo * 1000))
    s.set('random_seed', 7)
    if mbqi is not None:
        s.set('mbqi', mbqi)
        if not mbqi:
            s.set('auto_config', False)
            s.set('array.extensional', False)
    if extra:
        for k, v in extra.items():
            s.set(k, v)
    s.add(*fs)
    r = s.check()
    return str(r), s


def _fresh(s, tmo, opts):
    """the same query parsed into an empty context: what the solver does no longer depends on what ran before"""
    ctx = z3.Context()
    s2 = z3.Solver(ctx=ctx)
    s2.set('timeout', int(tmo * 1000))
    for k, v in opts.items():
        s2.set(k, v)
    s2.from_string(s.to_smt2())
    return str(s2.check())


def _nonlinear(fs):
    return any(_scan(f)[1] for f in fs)


EFFORT = 0      # bound on the steps of a cheap query (independent of the load of the machine), where a contract sets one
BATCH = 400     # instances added per round


class Monos:
    """products as variables.  Formulas keep their meaning when `mono(k)` stands for the product of the terms of k; reading it as a
    free variable only weakens them, so `unsat` carries over."""

    def __init__(self):
        self.names, self.base, self.vars = {}, {}, {}

    def mono(self, ids):
        key = tuple(sorted(ids))
        if len(key) == 1:
            return self.base[key[0]]
        if key not in self.names:
            v = z3.Int('mono!%d' % len(self.names))
            self.names[key] = v
            self.vars[v.get_id()] = key
        return self.names[key]

    def linearise(self, fs):
        out, memo = [], {}
        for f in fs:
            f = z3.simplify(f, som=True, mul_to_power=False)
            todo = [f]
            while todo:
                x = todo[-1]
                i = x.get_id()
                if i in memo:
                    todo.pop()
                    continue
                ch = x.children()
                miss = [y for y in ch if y.get_id() not in memo]
                if miss:
                    todo.extend(miss)
                    continue
                todo.pop()
                new = [memo[y.get_id()][1] for y in ch]
                if z3.is_mul(x):
                    num, ids = 1, []
                    for y in new:
                        if z3.is_int_value(y):
                            num *= y.as_long()
                        else:
                            self.base.setdefault(y.get_id(), y)
                            ids.append(y.get_id())
                    if len(ids) > 1:
                        r = self.mono(ids)
                        memo[i] = (x, r if num == 1 else num * r)
                        continue
                memo[i] = (x, x.decl()(*new) if ch and any(not a.eq(b) for a, b in zip(ch, new)) else x)
            out.append(memo[f.get_id()][1])
        return out

    def poly(self, e, k=1, out=None):
        out = {} if out is None else out
        if z3.is_int_value(e):
            out[()] = out.get((), 0) + k * e.as_long()
        elif z3.is_add(e):
            for y in e.children():
                self.poly(y, k, out)
        elif z3.is_sub(e):
            for n, y in enumerate(e.children()):
                self.poly(y, k if n == 0 else -k, out)
        elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            self.poly(e.arg(1), k * e.arg(0).as_long(), out)
        else:
            i = e.get_id()
            if i in self.vars:
                key = self.vars[i]
            else:
                self.base.setdefault(i, e)
                key = (i,)
            out[key] = out.get(key, 0) + k
        return out

    def atoms(self, fs):
        res, seen, todo = {}, set(), list(fs)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo.extend(x.children())
            if (z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x) or z3.is_eq(x)) and x.arg(0).sort() == z3.IntSort():
                p = self.poly(x.arg(0))
                self.poly(x.arg(1), -1, p)
                p = {k: c for k, c in p.items() if c}
                if p and len(p) <= 8 and all(abs(c) < 2 ** 31 for c in p.values()):
                    # both sides of the boundary: L, and L + 1 when the constant comes from a strict comparison
                    res[tuple(sorted(p.items()))] = p
        return list(res.values())


def _linear(fs, tmo):
    """Linear reasoning over products: each product is a variable; where a model of that breaks `L >= 0 and z >= 0 => L*z >= 0` (or the
    like) for a comparison L of the query and a factor z, that instance is added, until no model is left or nothing is broken."""
    end = time.time() + tmo
    try:
        g = z3.Goal()
        g.add(*fs)
        fs = [f for f in z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'propagate-values', 'solve-eqs'), 1000)(g)[0]]
        m = Monos()
        lf = m.linearise(fs)
        s = z3.Solver()
        s.set('random_seed', 7)
        s.add(*lf)
        s.set('timeout', max(1, int(1000 * (end - time.time()))))
        r = s.check()
        if str(r) != 'sat':
            return r == z3.unsat
        atoms = m.atoms(lf)
        deg = max((len(k) for k in m.names), default=2)
        zs = {}
        for k in list(m.names):
            for n in range(1, len(k)):
                for sub in set(itertools.combinations(k, n)):
                    zs[sub] = 1
        zs = list(zs)
        for k in m.names:
            for i in k:
                atoms.append({(i,): 1})
        known = set(m.names)
        prods = []
        for ai, p in enumerate(atoms):
            dp = max(len(k) for k in p)
            for z in zs:
                if dp + len(z) > deg:
                    continue
                prod = {}
                for k, c in p.items():
                    q = tuple(sorted(k + z))
                    prod[q] = prod.get(q, 0) + c
                new = sum(1 for q in prod if len(q) > 1 and q not in known)
                if new <= 1:
                    prods.append((new, ai, z, prod))
        prods.sort(key=lambda c: (c[0], len(c[3]), len(c[2]), c[1], c[2]))
        rounds = 0
        done = set()
        while str(r) == 'sat' and time.time() < end:
            rounds += 1
            md = s.model()
            val = {(): 1}
            for i, e in m.base.items():
                x = md.eval(e, model_completion=True)
                if z3.is_int_value(x):
                    val[(i,)] = x.as_long()
            for k, v in m.names.items():
                val[k] = md.eval(v, model_completion=True).as_long()
            vals = [sum(val[k] * c for k, c in p.items()) if all(k in val for k in p) else None for p in atoms]
            cand, fresh_ = [], []
            for n, (new, ai, z, prod) in enumerate(prods):
                vL, vz = vals[ai], val.get(z)
                if n in done or vL is None or vz is None:
                    continue
                vP = 0
                for q, c in prod.items():
                    x = val.get(q)
                    if x is None:
                        vP = None
                        break
                    vP += x * c
                if vP is None:
                    if len(fresh_) < BATCH:
                        fresh_.append(n)
                    continue
                true = vL * vz
                if (vP > 0) != (true > 0) or (vP < 0) != (true < 0) or (vz > 0 and vL > 0 and vP < vz) or (vz > 0 and vL < 0 and vP > -vz):
                    cand.append(n)
                    if len(cand) >= BATCH:
                        break
            cand = cand or fresh_
            if not cand:
                break
            for n in cand:
                done.add(n)
                new, ai, z, prod = prods[n]
                L = z3.Sum(*[c * m.mono(k) if k else z3.IntVal(c) for k, c in atoms[ai].items()])
                P = z3.Sum(*[c * m.mono(k) for k, c in prod.items()])
                Z = m.mono(z)
                s.add(z3.Implies(z3.And(L >= 0, Z >= 0), P >= 0), z3.Implies(z3.And(L <= 0, Z >= 0), P <= 0),
                      z3.Implies(z3.And(L >= 1, Z >= 0), P >= Z), z3.Implies(z3.And(L <= -1, Z >= 0), P <= -Z),
                      z3.Implies(z3.And(L >= 0, Z <= 0), P <= 0), z3.Implies(z3.And(L <= 0, Z <= 0), P >= 0))
            s.set('timeout', max(1, int(1000 * (end - time.time()))))
            r = s.check()
        if str(r) != 'unsat' and LINMISS:
            STATS['lm'] = STATS.get('lm', 0) + 1
            zz = z3.Solver(); zz.add(*fs); open('/tmp/lm%d.smt2' % STATS['lm'], 'w').write(zz.to_smt2())
            print('LINMISS', STATS['lm'], r, 'rounds', rounds, '%.1f' % (time.time() - end + tmo), len(done), len(atoms), len(zs), str(fs[-1])[:200].replace('\n', ' '))
        return str(r) == 'unsat'
    except z3.Z3Exception:
        return False


def prove(assumps, goal, tmo=6.0, want_model=True, fast=False):
    """Is /\\assumps => goal valid?  Returns (verdict, backend, model|None), verdict in proved/refuted/unknown."""
    t0 = time.time()
    STATS['queries'] += 1
    fs = list(assumps) + [z3.Not(goal)]
    quant = any(has_quant(f) for f in fs)
    res = ('unknown', None, None)
    try:
        if not quant and _nonlinear(fs):
            r, s = _z3(fs, min(0.3, tmo / 4))
            if r == 'sat':
                res = ('refuted', 'z3', s.model() if want_model else None)
            elif r == 'unsat' or _linear(fs, max(1.0, tmo)):
                res = ('proved', 'z3', None)
        if res[0] != 'unknown':
            pass
        elif not quant:
            arith2 = {'smt.arith.solver': 2}
            plan = [(tmo / 6, None), (tmo / 6, arith2)] + ([] if fast else [(tmo, None), (tmo / 2, arith2)])
            if fast:
                plan = [(tmo, None)]
            for lim, extra in plan:
                r, s = _z3(fs, lim, extra=extra)
                if r == 'unsat':
                    res = ('proved', 'z3', None)
                    break
                if r == 'sat':
                    res = ('refuted', 'z3', s.model() if want_model else None)
                    break
            else:
                if not fast:
                    r = _cvc5(s.to_smt2(), tmo)
                    res = ({'unsat': 'proved', 'sat': 'refuted'}.get(r, 'unknown'), 'cvc5', None)
        else:
            r, s = _z3(fs, tmo / 4, mbqi=False)
            if r != 'unsat':
                r = _fresh(s, tmo / 4, {'mbqi': False, 'auto_config': False, 'array.extensional': False} if fast else dict(mbqi=False))
            if r == 'unsat':
                res = ('proved', 'z3', None)
            elif fast:
                pass
            else:
                r, s2 = _z3(fs, tmo / 2)
                if r == 'unsat':
                    res = ('proved', 'z3', None)
                elif r == 'sat':
                    res = ('refuted', 'z3', s2.model() if want_model else None)
                else:
                    r = _cvc5(s.to_smt2(), tmo)
                    res = ({'unsat': 'proved', 'sat': 'refuted'}.get(r, 'unknown'), 'cvc5', None)
    except z3.Z3Exception as ex:
        res = ('unknown', 'z3-exception:%s' % ex, None)
    dt = time.time() - t0
    STATS['time'] += dt
    if SLOW and dt > SLOW:
        STATS['n'] = STATS.get('n', 0) + 1
        zz = z3.Solver(); zz.add(*fs); open('/tmp/slow%d.smt2' % STATS['n'], 'w').write(zz.to_smt2())
        import traceback
        fr = traceback.extract_stack(limit=3)[0]
        print('SLOW %.1f' % dt, res[0], fr.name, str(goal)[:150].replace('\n', ' '))
    if res[0] == 'proved':
        STATS['by'][res[1]] = STATS['by'].get(res[1], 0) + 1
    return res


def quick(assumps, goal, tmo=0.25):
    """Cheap entailment over quantifier-free facts only."""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(tmo * 1000))
    if EFFORT:
        s.set('rlimit', EFFORT)
    s.add(*assumps)
    s.add(z3.Not(goal))
    r = s.check()
    STATS['time'] += time.time() - t0
    return r == z3.unsat

"""P07: the built-in key functions are consistent (equality is an equivalence, equal keys hash equally, orders agree)."""
from vf.proof import *
from vf import cbmc

FC, FH, FT = 'src/commons/collections/pdc_compare.c', 'src/commons/collections/pdc_hash.c', 'src/commons/collections/pdc_hash_table.c'
k = z3.Int('k?')
low = uf('tolower', 1)


def cstr(c, name):
    """a NUL-terminated string of arbitrary length: first terminator at n"""
    n = z3.Int(name + '_len')
    size = z3.Int(name + '_size')
    c.assume(n >= 0, size > n, size < 2 ** 31)
    p = c.obj(name, size)
    R = c.row(c.st, 'b', p.o)
    c.assume(qall([k], z3.And(z3.Select(R, k) >= 0, z3.Select(R, k) <= 255), z3.Select(R, k)),
             qall([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(R, k) != 0), z3.Select(R, k)), z3.Select(R, n) == 0)
    return p, n, R


def schar(x):
    return z3.If(x >= 128, x - 256, x)


def x_tolower(eng, st, args, ln):
    x = args[0].t
    r = low(x)
    st.assume(z3.Implies(x != 0, r != 0), low(0) == 0, r >= -128, r <= 255)
    return [(st, IV(r))]


def ctr_gens(c, ns):
    def gen(L):
        return [('it <= length of %s' % nm, lambda s, it, n=n: it <= n) for nm, n in ns]
    c.eng.loopgen.append(gen)


def nocase(opts):
    c = Ctx('string_nocase_compare', FC, opts=opts)
    c.eng.externs['tolower'] = x_tolower
    a, na, RA = cstr(c, 's1')
    b, nb, RB = cstr(c, 's2')
    la, lb = (lambda i: low(schar(z3.Select(RA, i)))), (lambda i: low(schar(z3.Select(RB, i))))
    x = z3.Int('x?')
    c.assume(qall([x], (low(x) == 0) == (x == 0), low(x)))
    ctr_gens(c, [('s1', na), ('s2', nb)])
    c.eng.loopgen.append(lambda L: [('equal up to it, ignoring case', lambda s, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), la(k) == lb(k)), z3.Select(RA, k)))])
    st0 = c.st.copy()
    for st, r in c.run('string_nocase_compare', a, b):
        w = fresh('w')
        it = st.ghost.get('lastit', z3.IntVal(0))
        eq_upto = lambda n: z3.Implies(z3.And(0 <= w, w < n), la(w) == lb(w))
        c.post(st, '0 only for strings equal up to case, of the same length', z3.Implies(r.t == 0, z3.And(na == nb, eq_upto(na))))
        c.post(st, 'nonzero is decided at the first difference', z3.Implies(r.t != 0, z3.And(0 <= it, it <= na, it <= nb, eq_upto(it), la(it) != lb(it))))
        c.post(st, 'the sign is the order of the first difference', z3.Implies(r.t != 0, (r.t < 0) == (la(it) < lb(it))))
        c.frame(st0, st, [])
    return c


def hashes(fn, path):
    def proof(opts):
        c = Ctx(fn, path, opts=opts)
        c.eng.externs['tolower'] = x_tolower
        a, na, RA = cstr(c, 's')
        ctr_gens(c, [('s', na)])
        st0 = c.st.copy()
        for st, r in c.run(fn, a):
            c.post(st, 'a 32-bit value computed from the bytes up to the terminator only', z3.And(r.t >= 0, r.t < 2 ** 32))
            c.frame(st0, st, [])
        return c
    return proof


S = [FC, FH, FT]
cb = lambda n, fns, u=0, **kw: (n, cbmc.proof(n, 'p07.c', S, unwind=u, fns=fns, **kw))
B = 'strings of at most 4 characters'
PROOFS = [('string_nocase_compare', nocase), ('string_hash', hashes('string_hash', FH)), ('string_nocase_hash', hashes('string_nocase_hash', FH)),
          ('pdc_default_string_hash_func', hashes('pdc_default_string_hash_func', FT)),
          cb('h_int', ['int_equal', 'int_compare', 'int_hash']), cb('h_ui64', ['ui64_equal', 'ui64_compare', 'ui64_hash']),
          cb('h_def_int', ['pdc_default_integer_equal_func', 'pdc_default_integer_hash_func']),
          cb('h_def_long', ['pdc_default_long_equal_func', 'pdc_default_long_hash_func']), cb('h_def_u64', ['pdc_default_uint64_equal_func', 'pdc_default_uint64_hash_func']),
          cb('h_double', ['pdc_default_double_equal_func', 'pdc_default_double_hash_func']),
          cb('h_pointer', ['pointer_equal', 'pointer_hash', 'pointer_compare'], extra=['--no-pointer-check']),
          cb('h_string', ['string_equal', 'string_compare'], 6, bounded=B), cb('h_string_hash', ['string_hash', 'pdc_default_string_hash_func'], 6, bounded=B),
          cb('h_nocase', ['string_nocase_equal', 'string_nocase_hash'], 6, bounded=B)]
NATIVE = dict(src='native/p07_keys.c', repo=[FC, FH, FT], time=6, flags=['-DNEED_PM'])
RULE = 'random and adversarial pairs and triples of integers, doubles, pointers and strings (any length, equal contents at different addresses, differing case)'
ASSUMPTIONS = ['floating-point keys are finite', 'that equal strings hash equally is decided by cbmc for strings of at most 4 characters and natively beyond (labelled bounded); '
               'string_nocase_compare, int, long, 64-bit, double and pointer keys are decided for all inputs', 'tolower maps only NUL to NUL and is a function of its argument; C locale']
TRUSTED = ['cbmc 6.11 models of strcmp, tolower, fabs; frexp assumed to be a function of its argument with mantissa in [0.5,1)']

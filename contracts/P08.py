"""P08: the adaptive radix tree is an ordered map from strings."""
from vf.proof import *
from vf import cbmc
from vf.cast import REPO
import os, sys
F = 'src/commons/collections/art.c'


def bytes_(c, name, n):
    p = c.obj(name, n)
    return p, lambda st, i: z3.Select(c.row(st, 'b', p.o), i)


def node(c):
    n = c.struct('n', 'art_node')
    pl = c.fld(c.st, n, 'art_node', 'partial_len')
    c.assume(pl >= 0, pl < 2 ** 31)
    return n, pl, lambda st, i: z3.Select(c.row(st, 'b', n.o), i + 6)


def common(c, r, m, d0, A, B, st, st0):
    i = fresh('i')
    c.post(st, 'within both', z3.And(0 <= r.t, r.t <= m))
    c.post(st, 'the bytes before agree', z3.Implies(z3.And(0 <= i, i < r.t), A(st, i) == B(st, d0 + i)))
    c.post(st, 'the first difference, or the end', z3.Implies(r.t < m, A(st, r.t) != B(st, d0 + r.t)))
    c.frame(st0, st, [])


def agree(c, A, B, d0):
    def gen(L):
        g = [('agree so far', lambda s, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), A(s, k) == B(s, d0 + k)), A(s, k))),
             ('agree so far (2)', lambda s, it: qall([k], z3.Implies(z3.And(0 <= k, k < it + MAXP), A(s, k) == B(s, d0 + k)), A(s, k)))]
        return g
    c.eng.loopgen.append(gen)


k = z3.Int('k?')
MAXP = 10
mn = lambda a, b: z3.If(a < b, a, b)


def prefix(fn):
    def proof(opts):
        c = Ctx(fn, F, opts=dict(opts, wrap_mul='check'))
        n, pl, part = node(c)
        kl, depth = c.int('key_len', 'int'), c.int('depth', 'int')
        size = z3.Int('key_size')
        c.assume(kl.t >= 0, kl.t < 2 ** 30, depth.t >= 0, depth.t <= kl.t, size >= kl.t + 1)
        key, kb = bytes_(c, 'key', size)
        c.distinct(n, key)
        m = mn(mn(pl, MAXP), kl.t - depth.t)
        agree(c, part, kb, depth.t)
        st0 = c.st.copy()
        for st, r in c.run(fn, n, key, kl, depth):
            common(c, r, m, depth.t, part, kb, st, st0)
        return c
    return proof


def mismatch(opts):
    """the whole prefix of a node: the inline bytes, then the key of any leaf below (they agree on what both hold)"""
    c = Ctx('prefix_mismatch', F, opts=dict(opts, wrap_mul='check'))
    n, pl, part = node(c)
    kl, depth = c.int('key_len', 'int'), c.int('depth', 'int')
    size = z3.Int('key_size')
    c.assume(kl.t >= 0, kl.t < 2 ** 30, depth.t >= 0, depth.t <= kl.t, size >= kl.t + 1)
    key, kb = bytes_(c, 'key', size)
    lsize = z3.Int('leaf_size')
    l = c.obj('leaf', lsize)
    c.distinct(n, key, l)
    ll = c.fld(c.st, l, 'art_leaf', 'key_len')
    lb = lambda st, i: z3.Select(c.row(st, 'b', l.o), i + 12)
    # a leaf below a node at this depth is longer than the path to it, and its key continues with the prefix
    c.assume(ll >= depth.t + pl, ll < 2 ** 30, lsize >= 12 + ll, lsize >= 16)
    c.assume(qall([k], z3.Implies(z3.And(0 <= k, k < pl, k < MAXP), part(c.st, k) == lb(c.st, depth.t + k)), part(c.st, k)), qall([k], z3.Implies(z3.And(0 <= k, k < pl, k < MAXP), part(c.st, k) == lb(c.st, depth.t + k)), lb(c.st, depth.t + k)))

    def h(eng, st, args, ln):
        eng.oblige(st, 'minimum: of this node', 'pre', z3.And(args[0].o == n.o, args[0].off == n.off), ln)
        return [(st, l)]
    c.eng.contracts['minimum'] = h
    full = lambda st, i: lb(st, depth.t + i)

    def gen(L):
        out = [('agree with the leaf so far', lambda s, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), full(s, k) == kb(s, depth.t + k)), full(s, k))),
               ('inline bytes agree so far', lambda s, it: qall([k], z3.Implies(z3.And(0 <= k, k < it), part(s, k) == kb(s, depth.t + k)), part(s, k)))]
        for nm, vid, t in L.vars(INT):
            e = L.entry.env.get(vid)
            if e is not None and hasattr(e, 't'):
                out.append(('agree with the leaf up to %s' % nm, lambda s, it, vid=vid: qall([k], z3.Implies(z3.And(0 <= k, k < s.env[vid].t), full(s, k) == kb(s, depth.t + k)), full(s, k))))
        return out
    c.eng.loopgen.append(gen)
    st0 = c.st.copy()
    i = fresh('i')
    for st, r in c.run('prefix_mismatch', n, key, kl, depth):
        m = z3.If(pl <= MAXP, mn(pl, kl.t - depth.t), mn(ll, kl.t) - depth.t)
        c.post(st, 'within the key and the path of the leaf', z3.And(0 <= r.t, r.t <= m))
        c.post(st, 'the bytes before agree', z3.Implies(z3.And(0 <= i, i < r.t, i < pl), full(st, i) == kb(st, depth.t + i)))
        c.post(st, 'the first difference, or the end of the prefix or key', z3.Implies(z3.And(r.t < m, r.t < pl), full(st, r.t) != kb(st, depth.t + r.t)))
        c.frame(st0, st, [])
    return c


def lcp(opts):
    c = Ctx('longest_common_prefix', F, opts=dict(opts, wrap_mul='check'))
    depth = c.int('depth', 'int')
    ls = []
    for nm in ('l1', 'l2'):
        lsize = z3.Int(nm + '_size')
        l = c.obj(nm, lsize)
        c.assume(lsize >= 16)
        n = c.fld(c.st, l, 'art_leaf', 'key_len')
        c.assume(n >= 0, n < 2 ** 30, lsize >= 12 + n, depth.t <= n)
        ls.append((l, n, lambda st, i, l=l: z3.Select(c.row(st, 'b', l.o), i + 12)))
    c.assume(depth.t >= 0)
    c.distinct(ls[0][0], ls[1][0])
    A = lambda st, i: ls[0][2](st, depth.t + i)
    agree(c, A, ls[1][2], depth.t)
    st0 = c.st.copy()
    for st, r in c.run('longest_common_prefix', ls[0][0], ls[1][0], depth):
        common(c, r, mn(ls[0][1], ls[1][1]) - depth.t, depth.t, A, ls[1][2], st, st0)
    return c


FL = ['-DSRC_C="%s/%s"' % (REPO, F), '-I' + cbmc.VERIF + '/cbmc/inc']
digits = lambda x: ''.join(ch for ch in x if ch.isdigit())
cb = lambda n, fns, u=257, fl=(), tag='', **kw: (n + tag, cbmc.proof(n, 'p08.c', [], flags=FL + list(fl), unwind=u, fns=fns, extra=['--sat-solver', 'cadical'], **kw))
N = lambda n, i: cb(n, ['add_child', 'remove_child', n.replace('add', 'add_child').replace('rem', 'remove_child')], fl=['-DNUM=%d' % i], tag=' with %d children' % i)
LIM = dict(fl=['-DLIM=64'], bounded='quick run: children under the bytes below 64; the thorough run covers all bytes')
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough' or 'thorough' in sys.argv
L = {} if THOROUGH else LIM
PROOFS = [('check_prefix', prefix('check_prefix')), ('prefix_mismatch', mismatch), ('longest_common_prefix', lcp)] + [
    cb('add48full', ['add_child48', 'add_child256'], **L), cb('add48', ['add_child48'], **L), cb('rem48', ['remove_child48'], **L)] + [N('add16', i) for i in (range(16) if THOROUGH else (0, 7, 15))] + [N('rem16', i) for i in (range(5, 17) if THOROUGH else (5, 16))] + [
    cb('find', ['find_child'], **L), cb('leaf', ['make_leaf', 'leaf_matches', 'leaf_prefix_matches'], 20, fl=['-DREALMEM'], bounded='keys of at most 12 bytes'),
    cb('add4full', ['add_child4', 'add_child16']), cb('add16full', ['add_child16', 'add_child48']), cb('add256', ['add_child256'], **L),
    cb('rem4last', ['remove_child4']), cb('rem16small', ['remove_child16']), cb('rem256', ['remove_child256'], **L),
    cb('rem256small', ['remove_child256'], fl=['-DLIM=42'], bounded='children under the bytes below 42'),
    cb('rem48small', ['remove_child48'], fl=['-DLIM=17'], bounded='children under the bytes below 17')] + [N('add4', i) for i in range(4)] + [N('rem4', i) for i in (3, 4)]
NATIVE = dict(src='native/p08_art.c', flags=['-DSRC_C="%s/%s"' % (REPO, F)], time=10)
RULE = 'native: a case is one history of inserts, deletes, searches, iterations and prefix iterations on one tree, compared with a sorted array after every step; keys over several alphabets, with long common prefixes, and exactly sized so that reading past the terminator is an error; distinct counts different histories'
ASSUMPTIONS = ['keys are strings: the byte after the key is readable and 0, and no byte of the key is 0', 'the node operations (find, add, remove for each node type) are proved; their composition into trees (recursive insert and delete, search, iteration) is decided by the native contract run only',
               'children are opaque to the node operations: 16-bit child values suffice', 'quick run: node16 with 0, 7, 15 (add) and 5, 16 (remove) children, node48/256 with children under bytes below 64; the thorough run has no such limits except the two shrinking cases labelled bounded',
               'allocation does not fail']
TRUSTED = ['C definitions of the SSE2 intrinsics (cbmc/inc/emmintrin.h) and of memmove/memcpy within a node (cbmc/p08.c)', 'cbmc 6.11 with cadical']

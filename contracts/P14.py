"""P14: server storage keeps the last value written to every element.

The file is an object of the byte memory; open, lseek, read, write and pread are used through the contract of POSIX files (all
bytes asked for are transferred).  Every proof watches one arbitrary byte, given by its coordinates: the statement for all bytes."""
from vf.proof import *
from vf.cast import REPO, server_flags
from vf import rpc
F = 'src/server/pdc_server_region/pdc_server_region_transfer.c'
D = 'src/server/pdc_server_region/pdc_server_data.c'
R_ = 'src/utils/pdc_region_utils.c'
EX = rpc.FLAGS + server_flags()
LIM = 2 ** 62
S64 = (INT, 64, True)


def mono(x, y, z):
    return z3.Implies(z3.And(x <= y, z >= 0), x * z <= y * z)


def steps(a, b, z):
    return [mono(a + 1, b, z), mono(b + 1, a, z), mono(a, b, z), mono(b, a, z), mono(0, a, z), mono(0, b, z)]


def lin(full, x, u):
    """position of the first byte of element x in a row-major array"""
    r = x[0]
    for d in range(1, len(full)):
        r = r * full[d] + x[d]
    return r * u


def order(full, x, y, u, n=None):
    """tautologies: rows of array positions x before y (monotonicity of each step of `lin`)"""
    out, a, b = [], x[0], y[0]
    for d in range(1, len(full)):
        out += steps(a, b, full[d])
        a, b = a * full[d] + x[d], b * full[d] + y[d]
    return out + steps(a, b, u)


class Files:
    """POSIX file operations on the ghost object FILE, seen at the watched byte `w` of object `dst` only"""

    def __init__(self, c, w):
        self.c, self.w, self.fd = c, w, z3.Int('fd')
        self.f = z3.Int('FILE')
        c.assume(self.f > 0, z3.Select(c.st.alive, self.f), self.fd >= 0, self.fd < 2 ** 31, self.cur(c.st) >= 0)
        c.eng.externs.update(lseek=self.lseek, write=self.write, read=self.read, pread=self.pread, open=self.open, close=self.close, memcpy=self.memcpy)

    def cur(self, st):
        return z3.Select(sel(self.c.eng.M(st, 'gh'), self.f), 0)

    def setcur(self, st, v):
        st.mem['gh'] = z3.Store(self.c.eng.M(st, 'gh'), self.f, z3.Store(sel(self.c.eng.M(st, 'gh'), self.f), 0, v))
        self.c.eng.note_write('gh', self.f)

    def copy(self, st, do, doff, so, soff, n):
        m = self.c.eng.M(st, 'b')
        A, w = fresh('cpy_b', ROW), self.w
        src, dst = sel(m, so), sel(m, do)
        st.assume(z3.Select(A, w) == z3.If(z3.And(doff <= w, w < doff + n), z3.Select(src, w - doff + soff), z3.Select(dst, w)))
        st.mem['b'] = z3.Store(m, do, A)
        self.c.eng.note_write('b', do)

    def theirs(self, st, what, fd, ln):
        self.c.eng.oblige(st, what + ': the object\'s file', 'pre', fd.t == self.fd, ln)

    def inside(self, st, what, p, n, ln):
        self.c.eng.oblige(st, what + ': bytes of a live buffer', 'mem', z3.And(p.o != 0, z3.Select(st.alive, p.o), p.off >= 0, n >= 0, p.off + n <= z3.Select(st.osize, p.o)), ln)

    def open(self, eng, st, a, ln):
        return [(st, IV(self.fd))]

    def close(self, eng, st, a, ln):
        self.theirs(st, 'close', a[0], ln)
        return [(st, IV(0))]

    def lseek(self, eng, st, a, ln):
        self.theirs(st, 'lseek', a[0], ln)
        eng.oblige(st, 'lseek: to an absolute position', 'pre', z3.And(a[2].t == 0, a[1].t >= 0), ln)
        self.setcur(st, a[1].t)
        return [(st, IV(a[1].t))]

    def write(self, eng, st, a, ln):
        self.theirs(st, 'write', a[0], ln)
        n = a[2].t
        self.inside(st, 'write', a[1], n, ln)
        p = self.cur(st)
        self.copy(st, self.f, p, a[1].o, a[1].off, n)
        self.setcur(st, p + n)
        return [(st, IV(n))]

    def read(self, eng, st, a, ln):
        self.theirs(st, 'read', a[0], ln)
        n = a[2].t
        self.inside(st, 'read', a[1], n, ln)
        p = self.cur(st)
        self.copy(st, a[1].o, a[1].off, self.f, p, n)
        self.setcur(st, p + n)
        return [(st, IV(n))]

    def pread(self, eng, st, a, ln):
        self.theirs(st, 'pread', a[0], ln)
        n = a[2].t
        self.inside(st, 'pread', a[1], n, ln)
        eng.oblige(st, 'pread: from an absolute position', 'pre', a[3].t >= 0, ln)
        self.copy(st, a[1].o, a[1].off, self.f, a[3].t, n)
        return [(st, IV(n))]

    def memcpy(self, eng, st, a, ln):
        self.inside(st, 'memcpy', a[0], a[2].t, ln)
        self.inside(st, 'memcpy', a[1], a[2].t, ln)
        self.copy(st, a[0].o, a[0].off, a[1].o, a[1].off, a[2].t)
        return [(st, a[0])]


def consts(c, p, name, nd, lo=0):
    out = []
    for d in range(nd):
        x = z3.Int('%s_%d' % (name, d))
        c.inputs.append(x)
        c.assume(z3.Select(c.row(c.st, 'u64', p.o), d) == x, x >= lo)
        out.append(x)
    return out


def flat(nd, wr):
    def proof(opts):
        c = Ctx('PDC_Server_transfer_request_io', F, extra=EX, opts=dict(opts, wrap_mul='check', htmo=9.0, hslow=True))
        dims, off, size = c.obj('obj_dims', 8 * nd), c.obj('offset', 8 * nd), c.obj('size', 8 * nd)
        ri = c.struct('region_info', 'struct pdc_region_info')
        R = 'struct pdc_region_info'
        c.assume(c.fld(c.st, ri, R, 'ndim') == nd, c.fld(c.st, ri, R, 'offset') == off.o, c.fld(c.st, ri, R, 'size') == size.o)
        f, p, e = consts(c, dims, 'dim', nd, 1), consts(c, off, 'offset', nd), consts(c, size, 'size', nd, 1)
        u = c.int('unit').t
        c.assume(u >= 1, *[p[d] + e[d] <= f[d] for d in range(nd)])
        tot, W = z3.Product(*f, u), z3.Product(*e, u)
        c.assume(tot < LIM)
        fs, es = list(f) + [u], list(e) + [u]
        prod = lambda xs: z3.Product(*xs) if len(xs) > 1 else xs[0]
        # consequences of "the region lies in the object, which is smaller than LIM"
        for a in range(nd, -1, -1):
            c.lemma('size arithmetic', prod(fs[a:]) >= 1)
            c.lemma('size arithmetic', z3.And(prod(es[a:]) >= 1, prod(es[a:]) <= prod(fs[a:])))
        for a in range(nd + 1):
            c.lemma('size arithmetic', prod(fs[a:]) <= tot)
            for b in range(a, nd + 1):
                c.lemma('size arithmetic', z3.And(prod(fs[a:b + 1]) <= tot, prod(fs[a:b + 1]) >= 1))
                c.lemma('size arithmetic', z3.And(prod(es[a:b + 1]) <= tot, prod(es[a:b + 1]) >= 1))
        buf = c.obj('buf', W)
        w = z3.Int('w')
        fl = Files(c, w)
        c.distinct(buf, dims, off, size, ri, PV(fl.f, 0))
        io = z3.Int('glob_io_by_region_g')
        c.assume(io > 0, z3.Select(c.st.alive, io), c.cell(c.st, io, 0, (INT, 32, True)) == 0)
        # the watched byte: byte t of the element with these coordinates, in the object (write) or in the region (read)
        x = [z3.Int('x%d' % d) for d in range(nd)]
        t = z3.Int('t')
        df, dp = (f, p) if wr else (e, [z3.IntVal(0)] * nd)
        sf, sp = (e, [z3.IntVal(0)] * nd) if wr else (f, p)
        c.assume(*[x[d] >= 0 for d in range(nd)], *[x[d] < df[d] for d in range(0 if not wr else 1, nd)], 0 <= t, t < u, w == lin(df, x, u) + t)
        r = [x[d] - dp[d] for d in range(nd)]
        y = [r[d] + sp[d] for d in range(nd)]
        inside = z3.And(*[z3.And(0 <= r[d], r[d] < e[d]) for d in range(nd)])
        dst, src = (fl.f, buf.o) if wr else (buf.o, fl.f)
        B = lambda s, o: sel(c.eng.M(s, 'b'), o)
        st0 = c.st.copy()
        s0 = B(st0, src)
        srcpos = lin(sf, y, u) + t
        old = z3.Select(B(st0, dst), w)
        want = z3.If(inside, z3.Select(s0, srcpos), old)
        zero = z3.IntVal(0)

        def lexlt(a, b):
            return z3.Or(*[z3.And(*[a[i] == b[i] for i in range(d)], a[d] < b[d]) for d in range(len(b))])

        def gen(L):
            depth = L.depth
            if depth >= nd:
                return []

            def counters(s, it):
                return [s.ghost[('cur', d)] for d in range(depth)] + [it]

            def sane(s, it):
                cs = counters(s, it)
                ok = z3.And(*[z3.And(0 <= i, i <= e[d]) for d, i in enumerate(cs)])
                out = []
                for full, first in ((df, dp), (sf, sp)):
                    at = [first[d] + cs[d] if d <= depth else first[d] for d in range(nd)]
                    out.append(z3.Implies(z3.And(ok, cs[-1] < e[depth]), z3.And(lin(full, at, u) >= 0, lin(full, at, u) < tot)))
                    out.append(z3.Implies(z3.And(ok, cs[-1] < e[depth]), lin(full, at, u) + prod(es[depth + 1:]) <= prod(list(full) + [u])))
                return out
            lst = []
            for n in range(len(sane(L.entry, zero))):
                lst.append(('position arithmetic %d' % n, lambda s, it, n=n: sane(s, it)[n]))
            lst.append(('the source is unchanged', lambda s, it: B(s, src) == s0))
            lst.append(('rows before the counter are copied, the rest is untouched', lambda s, it: z3.Select(B(s, dst), w) == z3.If(z3.And(inside, lexlt(r, counters(s, it))), z3.Select(s0, srcpos), old)))
            for nm, vid, ty in L.vars(PTR, mod=True):
                v = L.entry.env[vid]
                if isinstance(v, PV):
                    def po(s, it, vid=vid, v=v):
                        return z3.And(s.env[vid].o == v.o, s.env[vid].off == v.off + it * prod(es[depth + 1:]))
                    lst.append(('%s advances one row per turn' % nm, po))

                    def p2(s, it, vid=vid, v=v):
                        cs = counters(s, it)
                        return z3.And(s.env[vid].o == v.o, s.env[vid].off == lin(e, cs + [zero] * (nd - len(cs)), u))
                    lst.append(('%s is at the row of the counters' % nm, p2))
            return lst
        c.eng.loopgen.append(gen)
        ig = lambda eng, st, a, ln: [(st, IV(fresh('r')))]
        
        def gp(eng, st, a, ln):
            o = fresh('env')
            st.assume(o > 0)   # PDC_DATA_LOC is set; where the file lies does not matter here
            return [(st, PV(o, 0))]
        c.eng.externs.update(getenv=gp, snprintf=ig)
        c.eng.contracts.update(PDC_mkdir=ig, get_server_rank=ig)
        for st, ret in c.run(c.name, c.int('obj_id'), IV(nd), dims, ri, buf, IV(u), IV(1 if wr else 0)):
            if wr:
                c.post(st, 'a byte of the region in the file holds the byte of the buffer with the same coordinates, any other byte its old value', z3.Select(B(st, dst), w) == want)
            else:
                c.post(st, 'a byte of the buffer holds the byte of the file with the same coordinates', z3.Select(B(st, dst), w) == want)
            c.post(st, 'succeeds', ret.t == 0)
            c.frame(st0, st, [dst], ['b', 'u64', 'p', 's64', 'i'])
        return c
    return proof


NATIVE = dict(src='native/p14_store.c', server=True, stub=True, flags=['-fcommon', '-DSRC_C="%s/%s"' % (REPO, F)], repo=[D, R_, 'src/commons/utils/pdc_malloc.c'], time=8)
PROOFS = [('PDC_Server_transfer_request_io %dD, %s' % (n, 'write' if wr else 'read'), flat(n, wr)) for n in (3, 2, 1) for wr in (True, False)]
from contracts import regstore
PROOFS = [x for x in regstore.PROOFS if 'sieving off' in x[0]] + PROOFS + [x for x in regstore.PROOFS if 'sieving off' not in x[0]]
LIMIT = 400
RULE = 'random histories of region writes and reads over 1 to 3 objects (1-3D, both storage layouts, sieving on and off), every byte read compared with an in-memory array; distinct = distinct histories by hash'
ASSUMPTIONS = ['open, lseek, read, write, pread behave as POSIX files and transfer all bytes asked for', 'the region lies inside the object; the object is smaller than 2^62 bytes',
               'flat layout: the byte positions of one element are watched, for every element (universally quantified)', 'PDC_DATA_LOC is set (the location of the file does not matter to the contract)',
               'region layout: the list of stored regions is well formed (utlist), its extents lie inside the file, and every byte of an extent has row-major element coordinates in its region (existence of quotient and remainder)',
               'region layout, 3D with sieving off: bounded, by the native run only (the row loops of the 3D branches exceed the solver within the time of a check)']
TRUSTED = ['models of open, close, lseek, read, write, pread, memcpy on the watched byte (contracts/P14.py: Files)', 'snprintf, PDC_mkdir, fflush: no effect on the data',
           'contracts used: PDC_region_overlap_detect, detect_region_contained (proved in P01), memcpy_overlap_subregion (proved in P02), PDC_Server_posix_write (proved here); assumed: PDC_Server_get_obj_region, PDC_Server_register_obj_region_by_pointer, PDC_Server_unregister_obj_region_by_pointer (open and close of the file)',
           'object identities are not reused after free (a freed temporary block and a later one count as one object)']

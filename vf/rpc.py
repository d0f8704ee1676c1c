"""Generates, from /repo's current source, one round-trip contract per RPC message: every hg_proc_<T> found in the parsed
translation unit, every field of T found in its definition."""
import os
from .cast import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TU = 'src/server/pdc_client_server_common.c'
FLAGS = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I' + VERIF + '/stub']
# variable-length parts: type -> [(pointer field, number of bytes, condition)]
PAYLOAD = {
    'pdc_kvtag_t': [('value', 'x->size', 'x->size > 0')],
    'pdc_histogram_t': [('range', 'x->nbin * sizeof(double) * 2', 'x->nbin > 0'), ('bin', 'x->nbin * sizeof(uint64_t)', 'x->nbin > 0')],
    'pdc_query_xfer_t': [('combine_ops', 'x->n_combine_ops * sizeof(int)', 'x->n_constraints > 0'), ('constraints', 'x->n_constraints * sizeof(pdc_query_constraint_t)', 'x->n_constraints > 0')],
}
# parts that are sent only under a condition on the rest of the message
COND = {('bulk_rpc_in_t', 'bulk_handle'): 'x->cnt > 0', ('update_region_loc_in_t', 'hist.'): 'x->has_hist == 1', ('query_storage_region_transfer_t', 'hist.'): 'x->has_hist == 1'}
COUNTS = {'pdc_kvtag_t': ['size'], 'pdc_histogram_t': ['nbin'], 'pdc_query_xfer_t': ['n_combine_ops', 'n_constraints']}


def load():
    return Unit(os.path.join(REPO, TU), tuple(FLAGS + server_flags()))


def messages(u):
    out = []
    for fn in sorted(u.funcs):
        if fn.startswith('hg_proc_') and u.funcs[fn].get('loc'):
            t = fn[len('hg_proc_'):]
            if t in u.typedefs:
                out.append(t)
    return out


def leaves(u, t, path=''):
    """[(C path, type)] of every scalar, pointer and array-of-scalar field"""
    lay = u.layout(t[1])
    out = []
    for nm, ft in zip(lay['names'], lay['types']):
        p = path + ('.' if path and nm else '') + nm
        if ft[0] == REC:
            out += leaves(u, ft, p)
        elif ft[0] == ARR and ft[1][0] == REC:
            for i in range(ft[2]):
                out += leaves(u, ft[1], '%s[%d]' % (p, i))
        else:
            out.append((p, ft))
    return out


def owner(u, t, prefix=''):
    """[(prefix, record type name)] of the records with a variable-length part inside t"""
    out = []
    lay = u.layout(t[1])
    r = u.rec(t[1])
    for nm, ft, f in zip(lay['names'], lay['types'], r['fields']):
        if ft[0] == REC:
            q = f['qt'].replace('struct ', '')
            if q in PAYLOAD:
                out.append((prefix + nm + '.', q))
            out += owner(u, ft, prefix + nm + '.')
    return out


def generate(u, path):
    ms = [m for m in messages(u) if u.type(m)[0] == REC]
    o = ['/* generated from the current source by vf/rpc.py */', '#include "%s/cbmc/rpc.h"' % VERIF, '#ifndef NATIVE\n#define malloc vf_malloc\n#endif', '#include "%s"' % os.path.join(REPO, TU), '#ifndef NATIVE\n#undef malloc\n#endif', '#include "%s/cbmc/rpc_prim.h"' % VERIF]
    for m in ms:
        t = u.type(m)
        lv = leaves(u, t)
        own = ([('', m)] if m in PAYLOAD else []) + owner(u, t)
        o.append('void rt_%s(void)\n{\n    %s *x = NEW(%s), *x0 = NEW(%s), *y = NEW(%s);\n    BEGIN("%s");\n    FILL(x, sizeof *x);' % (m, m, m, m, m, m))
        strs, pays = [], {}
        for p, q in own:
            for f, n, c in PAYLOAD[q]:
                fix = lambda s: s.replace('x->', 'x->' + p)
                pays[p + f] = (fix(n), fix(c))
            for c in COUNTS[q]:
                o.append('    COUNT(x->%s%s);' % (p, c))
        if any(mm == m and 'has_hist' in c for (mm, q), c in COND.items()):
            o.append('    FLAG(x->has_hist);')
        for p, ft in lv:
            if ft[0] != PTR:
                continue
            if p in pays:
                o.append('    x->%s = (%s) ? PAYLOAD(%s) : NULL;' % (p, pays[p][1], pays[p][0]))
            elif ft[1][:2] == (INT, 8):
                o.append('    x->%s = STRING();' % p)
                strs.append(p)
            else:
                o.append('    x->%s = HANDLE();' % p)
        o.append('    COPY(x0, x); FILL(y, sizeof *y);')
        o.append('    op = HG_ENCODE;\n    OK(hg_proc_%s((hg_proc_t)0, x) == HG_SUCCESS, "encoding succeeds");' % m)
        for p, ft in lv:
            if ft[0] == FLT:
                o.append('    OK(BITS(x->%s) == BITS(x0->%s), "encoding leaves %s as it is");' % (p, p, p))
            elif ft[0] != ARR:
                o.append('    OK(x->%s == x0->%s, "encoding leaves %s as it is");' % (p, p, p))
        cond = lambda p: ''.join('if (%s) ' % c for (mm, q), c in COND.items() if mm == m and p.startswith(q))
        for p, (n, c) in pays.items():
            o.append('    ' + cond(p) + 'if (%s) OK(SENT(x->%s, %s), "all of %s is sent");' % (c, p, n, p))
        o.append('    op = HG_DECODE;\n    OK(hg_proc_%s((hg_proc_t)0, y) == HG_SUCCESS, "decoding succeeds");\n    OK(rd == wr, "decoding consumes exactly what encoding produced");' % m)
        for p, ft in lv:
            o.append('    ' + cond(p))
            if ft[0] == ARR:
                loop = 'for (int i = 0; i < %d; i++) e = e && y->%s[i] == x0->%s[i];' % (ft[2], p, p) if ft[2] <= 64 else 'e = 0;'
                o.append('    { int e = 1; %s OK(e || GOT(y->%s, x->%s, sizeof x->%s), "%s arrives as sent"); }' % (loop, p, p, p, p))
            elif ft[0] == FLT:
                o.append('    OK(BITS(y->%s) == BITS(x0->%s), "%s arrives as sent");' % (p, p, p))
            elif p in strs:
                o.append('    OK(STREQ(y->%s, x0->%s), "%s arrives as sent");' % (p, p, p))
            elif p in pays:
                o.append('    if (%s) OK(GOT(y->%s, x0->%s, %s), "%s arrives as sent");' % (pays[p][1], p, p, pays[p][0], p))
            else:
                o.append('    OK(y->%s == x0->%s, "%s arrives as sent");' % (p, p, p))
        o.append('    op = HG_FREE;\n    OK(hg_proc_%s((hg_proc_t)0, y) == HG_SUCCESS, "releasing succeeds");\n    END;\n}' % m)
    groups = [ms[i:i + 9] for i in range(0, len(ms), 9)]
    for i, g in enumerate(groups):
        o.append('void group%d(void)\n{\n%s\n}' % (i, '\n'.join('    rt_%s();' % m for m in g)))
    o.append('static void (*all_rt[])(void) = {%s};\n#define N_RT %d' % (', '.join('rt_' + m for m in ms), len(ms)))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, 'w').write('\n'.join(o) + '\n')
    return groups


if __name__ == '__main__':
    from . import main
    main.make_config()
    u = load()
    print(generate(u, '/tmp/rp/rpc_gen.c'))

"""CBMC back end for loop-free or operand-width-bounded bit-level functions.

A contract is a C harness: symbolic inputs (nondet), the precondition as __CPROVER_assume, a call of the real function
(the real source file is compiled in, unmodified) and the postcondition as assertions.  With unwinding assertions on,
a loop whose bound is an operand width or a stated constant is covered completely; `bounded` says when the constant
limits the inputs.
"""
import json, os, re, subprocess, time, hashlib
from .cast import REPO, include_flags, server_flags, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(name, harness, srcs, flags=(), unwind=0, unwindset=(), bounded=None, limit=200, server=False, fns=(), checks=True, extra=(), removed=(), object_bits=10, slice=True):
    build = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
    d = os.path.join(build, 'cbmc')
    os.makedirs(d, exist_ok=True)
    hf = os.path.join(VERIF, 'cbmc', harness)
    cmd = ['cbmc', hf] + [os.path.join(REPO, s) for s in srcs] + ['-DREPO_DIR="%s"' % REPO, '-I' + REPO + '/src'] + list(flags) + (server_flags() if server else []) + include_flags()
    cmd += ['--function', name, '--json-ui', '--no-malloc-may-fail', '--unwinding-assertions', '--object-bits', str(object_bits)] + (['--slice-formula'] if slice else []) + ['--drop-unused-functions']
    if checks:
        cmd += ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check', '--pointer-overflow-check', '--undefined-shift-check']
    if unwind:
        cmd += ['--unwind', str(unwind)]
    if unwindset:
        cmd += ['--unwindset', ','.join(unwindset)]
    cmd += list(extra)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise Unsupported('cbmc: %s exceeds %d s' % (name, limit))
    try:
        out = json.loads(r.stdout)
    except ValueError:
        raise Unsupported('cbmc output: %s' % (r.stdout[-300:] + r.stderr[-300:]))
    res, status, msgs = None, None, []
    for x in out:
        if 'result' in x:
            res = x['result']
        if 'cProverStatus' in x:
            status = x['cProverStatus']
        if x.get('messageType') == 'ERROR':
            msgs.append(x.get('messageText', ''))
    if res is None:
        raise Unsupported('cbmc: %s' % ' '.join(msgs)[:300])
    total = done = 0
    failed = []
    unwindfail = [p for p in res if p['status'] == 'FAILURE' and '.unwind.' in p['property']]
    if unwindfail:
        raise Unsupported('cbmc: loop bound exceeded at %s' % unwindfail[0]['property'])
    lim = [p for p in res if p['status'] == 'FAILURE' and 'TOOL LIMIT' in p.get('description', '')]
    if lim:
        raise Unsupported('cbmc: %s' % lim[0]['description'])
    for p in res:
        total += 1
        if p['status'] == 'SUCCESS':
            done += 1
        else:
            tr = []
            for s in p.get('trace', []):
                if s.get('stepType') == 'assignment' and not s.get('hidden') and s.get('lhs') and 'value' in s:
                    v = s['value']
                    tr.append('%s = %s' % (s['lhs'], v.get('data', v.get('name'))))
            failed.append(dict(name='%s: %s' % (p['property'], p.get('description', '')), cat='cbmc', fn=name, trace=tr[-40:], verdict='refuted', model=None,
                               line=(p.get('sourceLocation') or {}).get('line')))
    if total == 0:
        raise Unsupported('cbmc: no assertion')
    return dict(kind='cbmc', total=total, discharged=done, failed=failed, by={'cbmc': done}, bounded=bool(bounded), note=bounded,
                functions={f: hashlib.sha256(('%s' % srcs).encode()).hexdigest()[:8] for f in fns}, definite=True, error=None)


def proof(*a, **k):
    return lambda opts: run(*a, **k)

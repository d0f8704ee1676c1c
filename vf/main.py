"""check driver:  python3-vt -m vf.main <property> [--tier quick|thorough]

1. proof stage: contracts of the property's functions against /repo's current source
2. native stage: the same contracts executed against the compiled real code
   (validates the specification, and searches for a concrete failing input)
3. verdict, evidence file, replay file
"""
import sys, os, json, time, signal, importlib, subprocess, re, traceback, resource, shutil
from concurrent.futures import ProcessPoolExecutor, as_completed, wait, FIRST_COMPLETED

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
REPO = os.environ.get('VF_REPO', '/repo')
os.environ['VF_CFG'] = os.path.join(BUILD, 'cfg')
sys.path.insert(0, VERIF)


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    tmp = path + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        f.write(text)
    os.replace(tmp, path)


def make_config():
    """pdc_config.h / pdc_config_sys.h from the templates in /repo (what cmake's configure_file does)."""
    d = os.path.join(BUILD, 'cfg')
    os.makedirs(d, exist_ok=True)
    v = dict(PDC_VERSION_MAJOR='0', PDC_VERSION_MINOR='1', PDC_VERSION_PATCH='0', PDC_DART_SFX_TREE='1', ENABLE_MPI='1',
             PDC_SERVER_CACHE='1', PDC_ENABLE_CHECKPOINT='1', HAVE_ATTRIBUTE='1',
             VAR_SIZE_FLOAT='4', VAR_SIZE_DOUBLE='8', VAR_SIZE_CHAR='1', VAR_SIZE_SINT='2', VAR_SIZE_INT='4', VAR_SIZE_LINT='8',
             VAR_SIZE_LLINT='8', VAR_SIZE_UINT='4', VAR_SIZE_ULINT='8', VAR_SIZE_ULLINT='8', VAR_SIZE_64INT='8', VAR_SIZE_U64INT='8')
    for src, dst in (('pdc_config_sys.h.cmake', 'pdc_config_sys.h'), ('pdc_config.h.in', 'pdc_config.h')):
        out = []
        for line in open(os.path.join(REPO, src)):
            m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', line)
            if m:
                if m.group(1) in v:
                    rest = re.sub(r'@(\w+)@', lambda x: v.get(x.group(1), ''), m.group(2))
                    line = '#define %s%s\n' % (m.group(1), rest)
                else:
                    line = '/* #undef %s */\n' % m.group(1)
            out.append(line)
        write_if_changed(os.path.join(d, dst), ''.join(out))


def run_proof(mod, idx, opts, limit):
    """in a worker process"""
    import z3
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    m = importlib.import_module('contracts.' + mod)
    from vf import solve
    from vf.cast import Unsupported
    name, fn = m.PROOFS[idx]
    t0 = time.time()
    base = dict(name=name, total=0, discharged=0, inv=0, failed=[], covers=[], houdini=[], by={}, functions={}, error=None,
                bounded=False, kind='vcg')

    def onalarm(*_):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm)
    opts = dict(opts)
    deadline = opts.pop('deadline', None)
    signal.alarm(int(max(2, min(limit, deadline - t0))) if deadline else limit)
    try:
        r = fn(dict(opts))
        if not isinstance(r, dict):
            c = r
            r = c.discharge(tmo=opts.get('tmo', 8.0)).dump()
            r['kind'] = 'vcg'
            if r['failed'] or r['error'] or opts.get('identity'):
                r['units'] = {os.path.relpath(u.path, REPO) + ' ' + ' '.join(x for x in u.extra if x.startswith('-D')): u.identity() for u in c.eng.units}
        base.update(r)
        base['name'] = name
        if base['total'] == 0:
            base['error'] = 'no obligation generated'
    except Unsupported as e:
        base['error'] = 'tool-limit: %s' % e
    except TimeoutError:
        base['error'] = 'tool-limit: time limit of %d s' % limit
    except RecursionError:
        base['error'] = 'tool-limit: recursion'
    except z3.Z3Exception as e:
        base['error'] = 'tool-limit: z3 %s' % e
    except MemoryError:
        base['error'] = 'tool-limit: memory'
    except Exception as e:
        base['error'] = 'tool-limit: %s: %s' % (type(e).__name__, traceback.format_exc()[-900:])
    finally:
        signal.alarm(0)
    base['wall'] = time.time() - t0
    base['solver'] = dict(solve.STATS)
    return base


def native(pid, tier, seed):
    """build and run the native contract harness; -> dict"""
    from vf import cast
    m = importlib.import_module('contracts.' + pid)
    res = dict(ran=False, cases=0, distinct=0, fail=None, samples=[], known=[])
    cfgs = getattr(m, 'NATIVE', None)
    if not cfgs:
        return res
    if isinstance(cfgs, dict):
        cfgs = [cfgs]
    for ci, cfg in enumerate(cfgs):
        exe = os.path.join(BUILD, pid, 'native%d' % ci)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        flags = list(cfg.get('flags', []))
        if cfg.get('server'):
            flags += cast.server_flags()
        if cfg.get('stub'):
            flags = ['-I' + os.path.join(VERIF, 'stub'), '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-ffunction-sections', '-fdata-sections', '-no-pie', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'] + flags
        srcs = [os.path.join(VERIF, cfg['src'])] + [os.path.join(REPO, s) for s in cfg.get('repo', [])]
        cmd = (['clang', '-std=gnu11', '-g', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-o', exe,
                '-DREPO_DIR="%s"' % REPO, '-I' + os.path.join(VERIF, 'native'), '-I' + REPO + '/src'] + flags + cast.include_flags() + srcs +
               cfg.get('libs', []) + ['-lm', '-lpthread'])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            res['build_error'] = r.stderr[:1500]
            continue
        budget = cfg.get('time_thorough' if tier == 'thorough' else 'time', 120 if tier == 'thorough' else 20)
        env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:malloc_context_size=8:detect_stack_use_after_return=0')
        work = os.path.join(BUILD, pid, 'work%d' % ci)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        try:
            r = subprocess.run([exe, '--seed', str(seed), '--time', str(budget)], capture_output=True, env=env, cwd=work,
                               timeout=budget * 3 + 120, errors='replace', text=True)
            rc, so, se = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            rc = -9
            so = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
            se = 'harness did not finish within %d s' % (budget * 3 + 120)
            res['timeout'] = True
        shutil.rmtree(work, ignore_errors=True)
        res['ran'] = True
        for line in so.split('\n'):
            if line.startswith('STATS '):
                d = json.loads(line[6:])
                res['cases'] += d.get('cases', 0)
                res['distinct'] += d.get('distinct', 0)
            elif line.startswith('SAMPLE '):
                if len(res['samples']) < 6:
                    res['samples'].append(line[7:][:400])
            elif line.startswith('KNOWN '):
                res['known'].append(line[6:])
        if rc != 0 and not res.get('timeout'):
            if not res['fail']:
                res['fail'] = dict(rc=rc, stdout=so[-6000:], stderr=se[-6000:], cmd=' '.join([exe, '--seed', str(seed)]), harness=cfg['src'])
    return res


def listed_findings(pid):
    pre = 'finding: property=%s ' % pid
    return [l[len(pre):].strip() for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) if l.startswith(pre)]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    t0 = time.time()
    make_config()
    out = []
    m = importlib.import_module('contracts.' + pid)
    limit = 700 if tier == 'thorough' else getattr(m, 'LIMIT', 240)
    total_limit = 3000 if tier == 'thorough' else 600
    opts = dict(tmo=30.0 if tier == 'thorough' else 8.0)
    bfile = os.path.join(VERIF, 'baseline.json')
    baseline = json.load(open(bfile)) if os.path.exists(bfile) else {}
    if '--baseline' in sys.argv:
        opts['identity'] = True
    results = [None] * len(m.PROOFS)
    natres = None
    def blank(i):
        return dict(name=m.PROOFS[i][0], total=0, discharged=0, inv=0, failed=[], covers=[], houdini=[], by={}, functions={},
                    error=None, bounded=False, kind='?', wall=0.0, solver={})
    opts['deadline'] = t0 + total_limit - 80
    with ProcessPoolExecutor(max_workers=8) as ex:
        natf = ex.submit(native, pid, tier, seed)
        futs = {ex.submit(run_proof, pid, i, opts, limit): i for i in range(len(m.PROOFS))}
        pending, grace, nat_failed = set(futs) | {natf}, t0 + (60 if tier == 'quick' else 600), False
        while pending:
            done, pending = wait(pending, timeout=5, return_when=FIRST_COMPLETED)
            for f in done:
                if f is natf:
                    try:
                        natres = natf.result()
                    except Exception as e:
                        natres = dict(ran=False, cases=0, distinct=0, fail=None, samples=[], known=[], build_error='%s' % e)
                    nat_failed = bool(natres['fail'])
                    continue
                i = futs[f]
                try:
                    results[i] = f.result()
                except Exception as e:
                    results[i] = dict(blank(i), error='tool-limit: worker died: %s' % e)
            if nat_failed and pending and time.time() > grace:
                # a failing input is known: the remaining proofs of the changed code are not waited for
                for pr in list(ex._processes.values()):
                    pr.kill()
                break
        for i in range(len(results)):
            if results[i] is None:
                results[i] = dict(blank(i), error='not examined: the native run had found a failing input')
        # bounded stand-in / triage for contracts whose unbounded proof did not go through
        retry = [i for i, r in enumerate(results) if r['error'] or r['failed']]
        bounded = {}
        if retry and not nat_failed and time.time() - t0 < total_limit - 60:
            lim2 = int(min(200, max(30, total_limit - (time.time() - t0))))
            bf = {ex.submit(run_proof, pid, i, dict(opts, deadline=t0 + total_limit + 140, unroll=getattr(m, 'UNROLL', 3)), lim2): i for i in retry
                  if results[i].get('kind') == 'vcg'}
            for f in as_completed(bf):
                try:
                    bounded[bf[f]] = f.result()
                except Exception as e:
                    bounded[bf[f]] = dict(error=str(e), failed=[], total=0, discharged=0)
    if '--baseline' in sys.argv:
        baseline['#' + pid] = {r['name']: not r['failed'] and not r['error'] for r in results}
        for r in results:
            baseline.update(r.get('units') or {})
        with open(bfile, 'w') as f:
            json.dump(baseline, f, indent=1, sort_keys=True)
    # verdict
    listed = listed_findings(pid)
    new = [k for k in natres['known'] if k not in listed]
    if new and not natres['fail']:
        natres['fail'] = dict(rc=1, stdout='\n'.join('FAIL: ' + k for k in new), stderr='', cmd='', harness='')
    viol = None
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s.txt' % pid)
    failing = []
    undecided = []
    for i, r in enumerate(results):
        if r['failed']:
            b = bounded.get(i)
            hard = [f for f in r['failed'] if f.get('cat') not in ('tool', 'vacuity')]
            clean = b is not None and not b.get('error') and not b.get('failed') and b.get('total', 0) > 0
            if r.get('units') and all(baseline.get(k) == v for k, v in r['units'].items()) and baseline.get('#' + pid, {}).get(r['name']):
                # the very source (token for token) on which this contract was discharged when the baseline was recorded:
                # the failure is the solver's (time, load), not the code's
                undecided.append(r)
            elif r.get('definite') and hard:
                failing.append((r, hard))
            elif clean or not hard or r['error'] or (b is not None and b.get('error') and not b.get('failed')):
                undecided.append(r)
            elif b is not None and natres['ran'] and not any(f.get('verdict') == 'refuted' for f in b.get('failed', [])):
                # the unbounded failure may be a missing invariant; with the loops unrolled the solvers refute nothing (time-outs only)
                undecided.append(r)
            else:
                failing.append((r, hard))
        elif r['error']:
            b = bounded.get(i)
            hard = [f for f in (b or {}).get('failed', []) if f.get('cat') not in ('tool', 'vacuity') and f.get('verdict') == 'refuted']
            same = b is not None and b.get('units') and all(baseline.get(k) == v for k, v in b['units'].items()) and baseline.get('#' + pid, {}).get(r['name'])
            if b is not None and not b.get('error') and hard and not same:
                rr = dict(b)
                failing.append((rr, hard))
            else:
                undecided.append(r)
    if natres['fail']:
        viol = 'native'
        with open(rpath, 'w') as f:
            f.write('property %s: failing input found on the compiled real code\n' % pid)
            f.write('command: %s\nexit status: %s\n\n--- harness output\n%s\n--- stderr\n%s\n' %
                    (natres['fail']['cmd'], natres['fail']['rc'], natres['fail']['stdout'], natres['fail']['stderr']))
            for r, hard in failing:
                f.write('\n--- failed obligations of %s\n%s\n' % (r['name'], json.dumps(hard[:6], indent=1)))
    elif failing:
        viol = 'proof'
        with open(rpath, 'w') as f:
            f.write('property %s: obligation not discharged, no failing input found natively\n' % pid)
            for r, hard in failing:
                f.write('\n--- contract %s (functions %s)\n%s\n' % (r['name'], ', '.join(r.get('functions', {})), json.dumps(hard[:8], indent=1)))
    tot = sum(r['total'] + r['inv'] for r in results)
    dis = sum(r['discharged'] + r['inv'] for r in results)
    if undecided or (not natres['ran'] and getattr(m, 'NATIVE', None)):
        tot = max(tot, dis + len(undecided))
    by = {}
    fns = {}
    stime = 0.0
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        fns.update(r['functions'])
        stime += (r.get('solver') or {}).get('time', 0.0)
    level = getattr(m, 'LEVEL', 'proof')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + ['undecided on this run, only the bounded stand-in and the native contract run apply: %s (%s)' %
                                                                   (r['name'], r['error'] or 'unbounded proof failed, bounded check clean') for r in undecided],
              coverage=dict(obligations=tot, discharged=dis,
                            checker_cmd='python3-vt -m vf.main %s (own VC generator over clang AST; back ends z3 5.3.2 API, cvc5 1.1.2%s)' %
                                        (pid, ', cbmc 6.11' if any(r.get('kind') == 'cbmc' for r in results) else ''),
                            trusted_base=list(getattr(m, 'TRUSTED', [])) + COMMON_TRUST,
                            functions_under_contract=sorted(fns), source_digests=fns,
                            contracts=[dict(name=r['name'], engine=r.get('kind'), obligations=r['total'], discharged=r['discharged'],
                                            invariant_checks=r['inv'], wall_s=round(r.get('wall', 0), 2), error=r['error'],
                                            covers=r['covers'], bounded=r.get('bounded', False), note=r.get('note')) for r in results],
                            back_ends=by, solver_s=round(stime, 2),
                            houdini=[h for r in results for h in r['houdini']][:60],
                            bounded_contracts=[r['name'] for r in results if r.get('bounded')],
                            native_contract_run_built=natres['ran'],
                            evaluations=natres['cases'], distinct_nontrivial=natres['distinct'], samples=natres['samples'],
                            rule=getattr(m, 'RULE', 'native contract run: see native harness')))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if natres.get('build_error'):
        print('%-4s native harness did not build: %s' % (pid, natres['build_error'][:600]))
    for r in results:
        print('%-4s contract %-42s %-5s %4d/%-4d obligations, %3d invariant checks, %.1fs%s%s' %
              (pid, r['name'][:42], r.get('kind'), r['discharged'], r['total'], r['inv'], r.get('wall', 0),
               ' [bounded]' if r.get('bounded') else '', ('  ' + r['error'][:160].replace('\n', ' ')) if r['error'] else ''))
        if verbose or os.environ.get('VF_V'):
            for f in r['failed'][:6]:
                print('      FAILED', json.dumps(f)[:700])
            if r['error']:
                print(r['error'])
    for i, b in bounded.items():
        print('%-4s stand-in %-40s bounded unrolling: %s/%s %s' % (pid, results[i]['name'][:40], b.get('discharged'), b.get('total'), (b.get('error') or '')[:120]))
    print('%-4s native: %d cases (%d distinct)%s' % (pid, natres['cases'], natres['distinct'], '' if natres['ran'] else ' [not run]'))
    for k in sorted(set(natres['known'] + list(getattr(m, 'KNOWN', [])))):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if undecided:
        print('%-4s undecided contracts (tool limit, not a violation): %s' % (pid, ', '.join(r['name'] for r in undecided)))
    print('%-4s %d/%d obligations discharged, %.1fs' % (pid, dis, tot, time.time() - t0))
    if viol:
        if viol == 'native':
            print('VIOLATION property=%s replay=%s' % (pid, rpath))
        else:
            print('failed obligation: %s: %s' % (failing[0][0]['name'], failing[0][1][0]['name']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath))
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)


COMMON_TRUST = [
    'the VC generator /verif/vf (C semantics over clang\'s AST, memory model, Houdini loop cutting)',
    'clang 18 front end, z3 5.3.2, cvc5 1.1.2, z3 4.8',
    'memory model: pointers are (object, offset); an object cell is accessed through one scalar type only (strict aliasing, no union punning)',
    'models of malloc/calloc/realloc/free/memcpy/memset; printf and friends have no effect on the program state',
    'single thread; termination is not proved',
]

if __name__ == '__main__':
    main()

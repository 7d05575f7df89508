#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]

Extracts the code under contract from the working tree of /repo, generates and discharges every obligation of the
property, and reports.  Exit 0: all obligations discharged (listed known findings aside).  Exit 1: an obligation is not
discharged; the replay driver of the property is then run against the real code to look for a concrete failing run."""
import sys, os, re, json, time, tempfile, shutil, importlib, subprocess, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'dv'), os.path.join(HERE, 'props')]
sys.dont_write_bytecode = True
REPO = os.environ.get('DV_REPO', '/repo')
DRV_FLAGS = ['-std=c++17', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
             '-fno-access-control', '-w', '-include', 'cstdint', '-include', 'thread', '-DMAF_MIN_ALLOWED_LOG_LEVEL=1',
             '-DMAF_STATIC_LIBRARY']
BASE_TRUST = [
    'the verifier /verif/dv (IR parser, path enumeration, loop invariants inferred and then checked, obligation generation)',
    'clang 18 front end and opt mem2reg (the verified text is the LLVM IR clang emits for the working tree)',
    'z3 (decides each obligation; unknown counts as not discharged)',
]
BASE_ASSUME = [
    'C++ library functions behave as their contracts in dv/stl.py say (see trusted_base for the ones used)',
    'memory allocation succeeds; stack depth suffices',
    'objects reached through distinct owning references are distinct; data-race freedom outside the declared lock invariants',
    'integers are exact: every arithmetic result is range-checked or wrapped as the IR says; object sizes and counts stay below 2^47',
]


def known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (?:obligation=(\S+) )?(.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(dict(id=m.group(2), obl=m.group(3), what=m.group(4)))
    return out


def build_driver(drv, wd):
    name, srcs = drv[0], drv[1] if len(drv) > 1 else []
    extra = drv[2] if len(drv) > 2 else []
    out = os.path.join(wd, 'drv_' + name)
    inc = ['-I%s/%s' % (REPO, i) for i in ('include', 'src/platforms/unix', 'src/common')] + ['-I' + os.path.join(HERE, 'replay')]
    objs, procs = [], []
    for i, s in enumerate([os.path.join(HERE, 'replay', name + '.cpp')] + [os.path.join(REPO, s) for s in srcs]):
        o = os.path.join(wd, '%s_%d.o' % (name, i))
        objs.append(o)
        procs.append(subprocess.Popen(['clang++-18'] + DRV_FLAGS + extra + inc + ['-c', s, '-o', o], stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, text=True))
    text = ''
    bad = False
    for p in procs:
        o, _ = p.communicate()
        if p.returncode:
            bad = True
            text += o[-3000:]
    if not bad:
        r = subprocess.run(['clang++-18'] + DRV_FLAGS + objs + ['-o', out, '-lpthread', '-ldl'], capture_output=True, text=True)
        if r.returncode:
            bad, text = True, r.stderr[-3000:]
    return (None if bad else out), text


def run_driver(drv, wd, timeout):
    """(failing runs, text)"""
    exe, text = build_driver(drv, wd)
    if exe is None:
        return [], 'replay driver does not build against the current tree:\n' + text
    sd = os.path.join(wd, 'run')
    os.makedirs(sd, exist_ok=True)
    env = dict(os.environ, TMPDIR=sd, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', HOME=sd)
    try:
        r = subprocess.run([exe], cwd=sd, env=env, capture_output=True, text=True, errors='replace', timeout=timeout)
        o = r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b'').decode(errors='replace') + '\n(driver stopped after %d s)' % timeout
    subprocess.run(['pkill', '-9', '-f', exe], capture_output=True)
    return re.findall(r'^FAILING-RUN (.*)$', o, re.M), o


def main():
    pid = sys.argv[1]
    if pid == '--selftest':
        import z3, spec
        for c in (['clang++-18', '--version'], ['opt-18', '--version'], ['cvc5', '--version'], ['z3-new', '--version']):
            subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('verifier ready (z3 %s)' % z3.get_version_string())
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix='dv_%s_' % pid)
    try:
        return body(pid, tier, t0, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def body(pid, tier, t0, wd):
    failed = []       # (obligation, text)
    rs = []
    mod = None
    try:
        mod = importlib.import_module(pid)
        import spec
    except Exception:
        failed.append(('verifier-setup', traceback.format_exc()[-3000:]))
    budget = 500 if tier == 'quick' else 600
    ext_t = 0
    if mod:
        try:
            prog = spec.Program(mod.TUS, wd)
            ext_t = time.time() - t0
            tasks = list(mod.TASKS)
            rs = spec.run_tasks(pid, tasks, prog, dict(budget=budget, keep_smt=(tier == 'thorough')))
        except spec.ExtractionError as e:
            failed.append(('extraction', 'the code under contract cannot be extracted: ' + str(e)))
        except Exception:
            failed.append(('extraction', traceback.format_exc()[-3000:]))
    sel = getattr(mod, 'SELECT', None) or (lambda n: True)
    obls = []
    for r in rs:
        if r['error']:
            failed.append((r['task'] + '/verification-completes', 'not discharged: ' + str(r['error'])))
            obls.append(dict(name=r['task'] + '/verification-completes', status='failed', n=1, time=0, solver={}))
        for o in r['obls']:
            if sel(o['name']):
                obls.append(o)
                if o['status'] != 'proved':
                    d = o['detail'] or {}
                    failed.append((o['name'], '%s\n  at: %s\n  note: %s\n  condition: %s\n  counterexample: %s' % (
                        o['status'], d.get('where'), d.get('note'), d.get('cond'), json.dumps(d.get('model'), default=str)[:3000])))
    if mod and not obls:
        failed.append(('obligations-generated', 'no obligation was generated'))
    # cross-check in the thorough tier: every kept solver query again with other back ends
    cross = dict()
    if tier == 'thorough' and rs:
        cross = crosscheck(rs, wd, 240, failed)
    kn = known(pid)
    unlisted = []
    listed = {}
    for n, txt in failed:
        k = next((k for k in kn if k['obl'] and k['obl'] == n), None)
        if k:
            listed[k['id']] = k
        else:
            unlisted.append((n, txt))
    runs, dtext, dran = [], '', False
    drvs = getattr(mod, 'DRIVERS', []) if mod else []
    knruns = []
    if unlisted or tier == 'thorough':
        for d in drvs:
            dran = True
            left = 860 - (time.time() - t0) if tier == 'quick' else 1500
            rr, tx = run_driver(d, wd, max(30, min(left, 400)))
            dtext += '--- replay driver %s\n%s\n' % (d[0], tx[-20000:])
            for x in rr:
                k = next((k for k in kn if x.startswith('[%s]' % k['id'])), None)
                if k:
                    listed[k['id']] = k
                else:
                    runs.append(x)
            if runs and tier == 'quick':
                break
    for k in listed.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    nviol = len(unlisted) + (len(runs) if not unlisted else 0)
    wall = time.time() - t0
    evidence(pid, tier, mod, rs, obls, unlisted, runs, dran, cross, wall, ext_t, nviol, listed)
    if not unlisted and not runs:
        print('%s: %d obligations discharged in %.1f s (%d functions under contract)' % (pid, len(obls), wall, len(rs)))
        return 0
    od = os.path.join(HERE, 'out')
    os.makedirs(od, exist_ok=True)
    rp = os.path.join(od, '%s.replay.txt' % pid)
    with open(rp, 'w') as f:
        f.write('property %s: %d obligation(s) not discharged on the current tree\n\n' % (pid, len(unlisted)))
        for n, txt in unlisted:
            f.write('FAILED OBLIGATION %s\n  %s\n\n' % (n, txt))
        if runs:
            f.write('FAILING RUNS of the real code (driver replay/%s.cpp):\n' % ', '.join(d[0] for d in drvs))
            for x in runs:
                f.write('  ' + x + '\n')
        else:
            f.write('no failing input found by the replay driver\n')
        f.write('\n' + dtext)
    for n, txt in unlisted[:12]:
        print('failed obligation %s: %s' % (n, txt.replace('\n', ' ')[:300]))
    for x in runs[:5]:
        print('failing run: ' + x)
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if runs else ' no-failing-input-found'))
    return 1


def crosscheck(rs, wd, limit, failed):
    import concurrent.futures as cf
    qs = [(r['task'], q) for r in rs for q in r.get('smt', [])]
    step = max(1, len(qs) // 1500)
    qs = qs[::step]
    out = dict(queries=len(qs), cvc5_unsat=0, z3new_unsat=0, undecided=0)
    t0 = time.time()

    def one(iq):
        i, (task, (name, text)) = iq
        if time.time() - t0 > limit:
            return name, 'skipped', 'skipped'
        p = os.path.join(wd, 'q%d.smt2' % i)
        open(p, 'w').write(text)
        res = []
        for cmd in (['cvc5', '--tlimit=10000', p], ['z3-new', '-T:10', p]):
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=20)
                res.append((r.stdout.strip().split('\n') or [''])[0])
            except subprocess.TimeoutExpired:
                res.append('timeout')
        os.unlink(p)
        return (name,) + tuple(res)
    with cf.ThreadPoolExecutor(8) as ex:
        for name, a, b in ex.map(one, enumerate(qs)):
            if a == 'unsat':
                out['cvc5_unsat'] += 1
            if b == 'unsat':
                out['z3new_unsat'] += 1
            if a != 'unsat' and b != 'unsat':
                out['undecided'] += 1
            if 'sat' in (a, b):
                failed.append((name + '/cross-check', 'z3 discharged it, cvc5 says %s and z3-new says %s' % (a, b)))
    return out


def listing(obls):
    """the obligations one by one, or (when there are thousands) the discharged ones summed up per function"""
    row = lambda o: dict(name=o['name'], status=o['status'], instances=o['n'], seconds=o['time'])
    if len(obls) <= 3000:
        return [row(o) for o in obls]
    out, sums = [], {}
    for o in obls:
        if o['status'] != 'proved':
            out.append(row(o))
            continue
        d = sums.setdefault(o['name'].split('/')[0], dict(discharged=0, instances=0, seconds=0.0))
        d['discharged'] += 1
        d['instances'] += o['n']
        d['seconds'] = round(d['seconds'] + o['time'], 2)
    return out + [dict(name=k + '/*', status='proved', **d) for k, d in sums.items()]


def evidence(pid, tier, mod, rs, obls, unlisted, runs, dran, cross, wall, ext_t, nviol, listed):
    be = {}
    for o in obls:
        if o['status'] == 'proved':
            for k, v in (o.get('solver') or {}).items():
                be[k] = be.get(k, 0) + v
    models = sorted(set(m for r in rs for m in r['models']))
    contracts = sorted(set(m for r in rs for m in r['contracts']))
    inl = sorted(set(m for r in rs for m in r['inlined']))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='proof',
              coverage=dict(
                  obligations=len(obls), discharged=sum(1 for o in obls if o['status'] == 'proved'),
                  checker_cmd='python3-vt check.py %s %s' % (pid, tier),
                  trusted_base=BASE_TRUST + ['library contract: ' + m for m in models] + list(getattr(mod, 'TRUSTED', [])),
                  functions_under_contract=[r['task'] for r in rs],
                  repo_functions_verified_in_place=[x for x in inl if 'maf::' in x],
                  library_functions_verified_in_place=len([x for x in inl if 'maf::' not in x]),
                  assumed_contracts=contracts,
                  obligation_instances=sum(o['n'] for o in obls),
                  instances_discharged_by=be,
                  solver_checks=sum(r['checks'] for r in rs), solver_seconds=round(sum(r['stime'] for r in rs), 2),
                  extraction_seconds=round(ext_t, 2),
                  paths=sum(r['paths'] for r in rs), instructions=sum(r['steps'] for r in rs),
                  loop_invariants={r['task']: r['loops'] for r in rs if r['loops']},
                  undischarged=[n for n, _ in unlisted], known_findings=sorted(listed),
                  failing_runs=len(runs), replay_driver_ran=dran, cross_check=cross,
                  bounded=list(getattr(mod, 'BOUNDED', [])),
                  per_obligation=listing(obls)),
              assumptions=BASE_ASSUME + list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        rp = os.path.join(HERE, 'out', '%s.replay.txt' % pid)
        with open(rp, 'w') as f:
            f.write('the check itself failed:\n' + traceback.format_exc())
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        sys.exit(1)

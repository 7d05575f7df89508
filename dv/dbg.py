import os
if os.environ.get("TRACE"):
    sys_path=__import__("sys").path.insert(0,"/tmp/w"); import trace
import sys, os, tempfile, importlib, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props'))
import spec
mod = importlib.import_module(sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ''
wd = tempfile.mkdtemp(prefix='dv')
t0 = time.time()
prog = spec.Program(mod.TUS, wd)
import shutil; shutil.rmtree(wd)
print('extract %.1fs' % (time.time() - t0))
tasks = [(n, f) for n, f in (getattr(mod, 'TASKS_ALL', None) or getattr(mod, 'TASKS', None) or mod.COMMON) if pat in n]
rs = spec.run_tasks(sys.argv[1], tasks, prog, dict(verbose=int(os.environ.get('V', '0')), serial=len(tasks) == 1 or bool(os.environ.get('V')), budget=int(os.environ.get('B','300'))))
for r in rs:
    bad = [o for o in r['obls'] if o['status'] != 'proved']
    print('%-40s obl=%d bad=%d paths=%d steps=%d %.1fs solver %.1fs %s' % (r['task'], len(r['obls']), len(bad), r['paths'], r['steps'], r['wall'], r['stime'], r['error'] or ''))
    for o in bad:
        d = o['detail'] or {}
        print('     ', o['status'], o['name'], '|', d.get('where'), '|', d.get('note'), '|', (d.get('cond') or '')[:160])
    if r['error'] and os.environ.get('TB'):
        print(r.get('tb'))
print('total %.1fs' % (time.time() - t0))

"""Specification layer: extraction of the verified text from /repo, per-function verification tasks, helpers for
writing pre/postconditions, monitors (lock invariants), event ghosts, and the parallel task runner."""
import os, re, subprocess, sys, time, traceback, tempfile, shutil, hashlib, signal
import multiprocessing as mp
import z3
import ir, core, stl, loops, term
from term import *
from core import *

REPO = os.environ.get('DV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
         '-fno-discard-value-names', '-gline-tables-only', '-w', '-include', 'cstdint', '-include', 'thread',
         '-DMAF_MIN_ALLOWED_LOG_LEVEL=1', '-DMAF_STATIC_LIBRARY']
INCS = ['include', 'src/platforms/unix', 'src/common']


class ExtractionError(Exception):
    pass


class Layout:
    """record layouts printed by the compiler for the current source"""

    def __init__(self):
        self.recs = {}

    def parse(self, text):
        cur = None
        for l in text.split('\n'):
            if l.startswith('*** Dumping AST Record Layout'):
                cur = []
                continue
            if cur is None:
                continue
            m = re.match(r'\s*(\d+)(:[\d-]+)? \| ( *)(.*)$', l)
            if m:
                off = int(m.group(1))
                depth = len(m.group(3)) // 2
                cur.append((off, depth, m.group(4)))
                if len(cur) == 1:
                    nm = re.sub(r'\b(class|struct|union|enum) ', '', m.group(4))
                    nm = re.sub(r' \(empty\)$', '', nm)
                    self.recs.setdefault(nm, cur)
            elif l.strip().startswith('| [sizeof='):
                m = re.search(r'sizeof=(\d+)', l)
                if cur:
                    cur.append(('size', int(m.group(1))))
                cur = None

    def find(self, rx):
        r = re.compile(rx)
        out = [k for k in self.recs if r.fullmatch(k)]
        if not out:
            raise Unsupported('record %s not found' % rx)
        return out[0]

    def sizeof(self, rx):
        rec = self.recs[self.find(rx)]
        for e in rec:
            if e[0] == 'size':
                return e[1]
        raise Unsupported('size of ' + rx)

    def off(self, rx, path):
        """offset of a (possibly nested / inherited) member; path 'a.b' of field names, or '~regex' on the type"""
        rec = [e for e in self.recs[self.find(rx)] if e[0] != 'size']
        parts = path.split('.') if isinstance(path, str) else path
        i = 0
        depth = 0
        lo, hi = 1, len(rec)
        off = 0
        for part in parts:
            hit = None
            best = None
            for j in range(lo, hi):
                o, d, t = rec[j]
                if part.startswith('~'):
                    ok = re.search(part[1:], t) and d > depth
                else:
                    ok = t.split(' ')[-1] == part
                if ok and (best is None or d < best):
                    hit, best = j, d
            if hit is None:
                raise Unsupported('member %s of %s not found' % (part, rx))
            off, depth = rec[hit][0], rec[hit][1]
            lo = hit + 1
            hi2 = lo
            while hi2 < hi and rec[hi2][1] > depth:
                hi2 += 1
            hi = hi2
        return off


def extract_one(args):
    name, src, out, extra, repo = args
    flags = FLAGS
    dump = ['-Xclang', '-fdump-record-layouts']
    if '@inlined' in extra:                            # the same text after clang's own inlining: for many small straight-line functions
        dump = []
        flags = [f for f in FLAGS if f not in ('-O0', '-Xclang', '-disable-O0-optnone', '-disable-llvm-passes', '-gline-tables-only')] + \
            ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-mllvm', '-inline-threshold=1000000']
        extra = [x for x in extra if x != '@inlined']
    cmd = ['clang++-18'] + flags + ['-I%s/%s' % (repo, i) for i in INCS] + list(extra) + \
          dump + ['-S', '-emit-llvm', src, '-o', out + '.raw']
    lay = out + '.lay'
    with open(lay, 'w') as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return name, 'clang: ' + r.stderr[-3000:]
    r = subprocess.run(['opt-18', '-passes=mem2reg', '-S', out + '.raw', '-o', out], capture_output=True, text=True)
    if r.returncode != 0:
        return name, 'opt: ' + r.stderr[-3000:]
    os.unlink(out + '.raw')
    return name, None


class Program:
    """the verified text: LLVM IR + record layouts of translation units compiled from the working tree"""

    def __init__(self, tus, workdir):
        jobs = []
        self.paths = {}
        for t in tus:
            if isinstance(t, str):
                t = (t, [])
            path, extra = t
            if path.startswith('@'):
                src = os.path.join(VERIF, 'tu', path[1:])
            else:
                src = os.path.join(REPO, path)
            nm = re.sub(r'\W+', '_', path)
            out = os.path.join(workdir, nm + '.ll')
            self.paths[path] = out
            jobs.append((nm, src, out, extra, REPO))
        with mp.Pool(min(8, len(jobs))) as p:
            for nm, err in p.map(extract_one, jobs):
                if err:
                    raise ExtractionError('%s: %s' % (nm, err))
        self.mods = []
        self.layout = Layout()
        for path, out in self.paths.items():
            self.mods.append(ir.Module(out))
            self.layout.parse(open(out + '.lay').read())
            os.unlink(out + '.lay')


# ------------------------------------------------------------------ task context
class T:
    """context of one verification task (one function under contract)"""

    def __init__(self, prog, name):
        self.prog = prog
        self.lay = prog.layout
        self.name = name
        term.reset()
        self.ex = core.Engine(prog.mods)
        stl.install(self.ex)
        self.ex.prefix = name + '/'
        self.ex.gfld['layout'] = prog.layout
        self.ex.gfld['task'] = self
        self.need_cover = set()
        self.outcomes = {}
        self.nfun = 0

    # -- lookup
    def fn(self, norm, pred=None, one=True):
        p = pred
        if isinstance(pred, str):
            rx = re.compile(pred)
            p = lambda d: rx.search(d)
        fs = self.ex.find(norm, p)
        # prefer real constructor bodies (C2) and drop deleting destructors
        fs = [f for f in fs if not re.search(r'D0Ev$', f.name)]
        if not fs:
            raise Unsupported('function under contract not found: %s' % norm)
        if one and len(fs) > 1:
            c2 = [f for f in fs if re.search(r'[CD]2E', f.name)]
            if c2 and len(set(re.sub(r'([CD])[12]E', r'\1E', f.name) for f in fs)) == 1:
                return c2[0]
            raise Unsupported('ambiguous function under contract: %s (%s)' % (norm, [self.ex.mods[0].demangle(f.name) for f in fs][:4]))
        return fs[0] if one else fs

    def off(self, rec, path):
        return self.lay.off(rec, path)

    # -- state construction
    def state(self):
        return core.State()

    def obj(self, st, name='obj'):
        b = self.ex.fresh_int(st, name, 1, HEAP_LIMIT - 1)
        self.ex.assume(st, uf('RG')(b) == 0)       # not a container element
        for o in st.ghost.get(('objs',), ()):
            self.ex.assume(st, b != o)
        st.ghost[('objs',)] = st.ghost.get(('objs',), ()) + (b,)
        return Ptr(b, 0)

    def args(self, st, f, over=None):
        """fresh arguments: objects passed by pointer/reference exist and are distinct; scalars arbitrary"""
        over = over or {}
        f.parse()
        out = []
        names = []
        for k, (nm, ty, at) in enumerate(f.params):
            key = nm if nm in over else (k if k in over else None)
            if key is not None:
                v = over[key]
                if callable(v):
                    v = v(st)
            elif ty == 'ptr':
                if 'sret' in at:
                    v = Ptr(self.ex.fresh_base(st), 0)
                else:
                    v = self.obj(st, nm)
            else:
                v = self.ex.fresh_of(st, ty, nm)
            out.append(v)
        return out

    def run(self, f, st, args, post, unwind=None, cover=None):
        ex = self.ex
        self.nfun += 1
        tag = cover or 'return'
        self.need_cover.add(tag)

        def done(kind, s, v):
            if kind == 'ret':
                ex.mark(tag)
                post(s, v)
            else:
                if unwind is not None:
                    unwind(s, v)
                else:
                    ex.fail(s, 'no-exception-escapes', 'exception %s' % (s.exc and s.exc['type']))
        ex.push_call(st, f, args)
        ex.run(st, done)

    def need(self, *names):
        self.need_cover.update(names)


def gset(st, k, v):
    st.ghost = dict(st.ghost)
    st.ghost[k] = v


def gget(st, k, d=None):
    return st.ghost.get(k, d)


def gadd(st, k, n=1):
    gset(st, k, add(gget(st, k, 0), n))


# ------------------------------------------------------------------ opaque element type
def val_init(ex):
    return lambda st, b, o, e: ex.init_int(st, b, o, e, 6, 'v')


def val(ex, st, p):
    return ex.read(st, p, 'val', 0, val_init(ex))


def set_val(ex, st, p, v):
    ex.write(st, p, 'val', 0, v)


def install_opaque(ex, names=('Opaque',)):
    """an arbitrary value type: copying and moving preserve the value (assumption on T), moved-from is arbitrary"""
    ex.gfld.setdefault('ginit', {})['val'] = val_init(ex)
    for N in names:
        def ctor(ex, st, c):
            this = c.args[0]
            pm = stl.param_text(c.dem)
            ex.deref_check(st, this, 'element construction')
            if len(c.args) == 1:
                set_val(ex, st, this, ex.fresh_int(st, 'dflt', 0, (1 << 48) - 1))
                return None
            src = c.args[1]
            ex.deref_check(st, src, 'element copy/move source')
            v = val(ex, st, src)
            set_val(ex, st, this, v)
            if pm.endswith('&&'):
                set_val(ex, st, src, ex.fresh_int(st, 'movedfrom', 0, (1 << 48) - 1))
            return None

        def asg(ex, st, c):
            pm = stl.param_text(c.dem)
            this, src = c.args
            ex.deref_check(st, this, 'element assignment')
            ex.deref_check(st, src, 'element assignment source')
            v = val(ex, st, src)
            set_val(ex, st, this, v)
            if pm.endswith('&&'):
                set_val(ex, st, src, ex.fresh_int(st, 'movedfrom', 0, (1 << 48) - 1))
            return this

        def dtor(ex, st, c):
            return None

        def eqop(ex, st, c):
            return eq(val(ex, st, c.args[0]), val(ex, st, c.args[1]))

        def neop(ex, st, c):
            return bnot(eq(val(ex, st, c.args[0]), val(ex, st, c.args[1])))

        def ltop(ex, st, c):
            return lt(val(ex, st, c.args[0]), val(ex, st, c.args[1]))
        last = N.split('::')[-1]
        ex.contracts['%s::%s' % (N, last)] = ctor
        ex.contracts['%s::operator=' % N] = asg
        ex.contracts['%s::~%s' % (N, last)] = dtor
        ex.contracts['%s::operator==' % N] = eqop
        ex.contracts['%s::operator!=' % N] = neop
        ex.contracts['%s::operator<' % N] = ltop
        ex.gfld.setdefault('keyreaders', {})[N] = lambda ex, st, p: (val(ex, st, p),)


# ------------------------------------------------------------------ monitors
class Monitor:
    """Lock invariant reasoning: `cells(p)` are the memory regions guarded by the mutex at p.
    Acquiring the mutex replaces them by arbitrary contents (other threads), releasing it runs the transition check."""

    def __init__(self, t, match, cells, on_lock=None, on_unlock=None):
        self.t = t
        self.match = match          # fn(ex, st, p) -> key or None
        self.cells = cells          # fn(ex, st, p) -> list of (Ptr, size)
        self.on_lock = on_lock
        self.on_unlock = on_unlock


def install_monitors(ex, mons):
    def lock(ex, st, p):
        for m in mons:
            if m.match(ex, st, p):
                for (q, size) in m.cells(ex, st, p):
                    havoc_monitor(ex, st, q, size)
                if m.on_lock:
                    m.on_lock(ex, st, p)
                return

    def unlock(ex, st, p):
        for m in mons:
            if m.match(ex, st, p):
                if m.on_unlock:
                    m.on_unlock(ex, st, p)
                return
    ex.hooks['lock'] = lock
    ex.hooks['unlock'] = unlock


def havoc_monitor(ex, st, q, size):
    b0, o0 = q.base, q.off

    def pred(base, kind, off, sz):
        e = eq(base, b0)
        if e is False:
            return False
        if isc(off) and isc(o0):
            if not (o0 <= off < o0 + size):
                return False
            return e
        return band(e, le(o0, off), lt(off, add(o0, size)))
    return ex.havoc(st, pred, 'monitor', (q.base if isc(q.base) else q.base.get_id(), q.off, size))


# ------------------------------------------------------------------ running tasks
def run_task(arg):
    prop, tname, fn, prog, opts = arg
    t0 = time.time()
    res = dict(task=tname, obls=[], error=None, inlined=[], models=[], contracts=[], cover={}, loops={}, steps=0,
               paths=0, checks=0, stime=0.0)
    t = None
    try:
        t = T(prog, tname)
        t.ex.deadline = time.time() + opts.get('budget', 300)
        t.ex.verbose = opts.get('verbose', 0)
        t.ex.keep_smt = opts.get('keep_smt', False)
        fn(t)
    except (Unsupported, core.Fork, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError,
            NotImplementedError, RecursionError, ZeroDivisionError, PathEnd, ChoiceN, z3.Z3Exception, Exception) as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-3000:]
    if t is not None:
        ex = t.ex
        for o in ex.obls.values():
            res['obls'].append(dict(name=o.name, status=o.status, n=o.n, time=round(o.time, 4), solver=o.solver,
                                    detail=o.detail))
        for c in sorted(t.need_cover):
            if not res['error']:
                ok = ex.cover.get(t.ex.prefix + c, 0) > 0
                res['obls'].append(dict(name='%s/reachable/%s' % (tname, c), status='proved' if ok else 'failed', n=1,
                                        time=0, solver={'path-exploration': 1},
                                        detail=None if ok else dict(note='no feasible path reaches this point (vacuity check)')))
        if t.nfun == 0 and not res['error'] and not ex.obls:
            res['error'] = 'task generated no obligation'
        res['inlined'] = sorted(set(ex.mods[0].norm(n) if n in ex.mods[0].dem else norm_any(ex, n) for n in ex.inlined))
        res['models'] = sorted(ex.used_models)
        res['contracts'] = sorted(ex.used_contracts)
        res['cover'] = dict(ex.cover)
        res['loops'] = ex.gfld.get('loopinv', {})
        res['steps'] = ex.steps
        res['paths'] = ex.paths
        res['checks'] = ex.solver.checks
        res['stime'] = round(ex.solver.time, 3)
        res['smt'] = ex.smt_log if t.ex.keep_smt else []
    res['wall'] = round(time.time() - t0, 3)
    return res


def norm_any(ex, n):
    for m in ex.mods:
        if n in m.dem:
            return m.norm(n)
    return n


_G = {}


def _child(i):
    return run_task(_G['jobs'][i])


def run_tasks(prop, tasks, prog, opts):
    """tasks: list of (name, fn); each in its own forked process"""
    sys.setrecursionlimit(20000)
    jobs = [(prop, n, f, prog, opts) for n, f in tasks]
    _G['jobs'] = jobs
    for m in prog.mods:            # names once, not in every child
        for n in m.funcs:
            m.norm(n)
    if opts.get('serial'):
        return [run_task(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as p:
        rs = [p.apply_async(_child, (i,)) for i in range(len(jobs))]
        out = []
        for j, r in zip(jobs, rs):
            try:
                out.append(r.get(timeout=opts.get('budget', 300) + 120))
            except mp.TimeoutError:
                out.append(dict(task=j[1], obls=[], error='time budget exceeded', inlined=[], models=[], contracts=[],
                                cover={}, loops={}, steps=0, paths=0, checks=0, stime=0.0, wall=opts.get('budget', 300)))
        p.terminate()
    return out

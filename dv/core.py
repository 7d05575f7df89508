"""Symbolic executor / verification-condition generator over LLVM IR.

One function is verified at a time: its body is executed symbolically from a state constrained only by its
precondition; calls go through (a) contracts, (b) trusted models of the C++ standard library, (c) otherwise the
callee's real body (so an extracted helper needs no annotation).  Loops are cut with inductive invariants
(candidate invariants are filtered to the inductive subset; every kept one is proved on entry and on each
back edge).  Every obligation is discharged by an SMT solver with no bound on inputs or iterations."""
import re, time, os, subprocess, tempfile
import z3
import term as T
import ir
from term import *

STATIC_LIMIT = 1 << 50
HEAP_LIMIT = 1 << 40       # addresses of objects existing on entry are below, fresh objects above


def is_tag(r, t):
    return isinstance(r, str) and r == t


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    """this path is infeasible or finished"""


class ChoiceN(Exception):
    """retry the instruction once per alternative; st.choice gets the index"""
    def __init__(self, n):
        self.n = n


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=0):
        self.base = base
        self.off = off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.base, self.off)

    def at(self, k):
        return Ptr(self.base, add(self.off, k))


NULL = Ptr(0, 0)


class IterVal:
    """iterator into an abstract container: position idx relative to snapshot seq of container at cont"""
    __slots__ = ('cont', 'idx', 'seq')

    def __init__(self, cont, idx, seq):
        self.cont = cont
        self.idx = idx
        self.seq = seq

    def __repr__(self):
        return 'It(%s,%s)' % (self.cont, self.idx)


class Flt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Abs:
    """opaque abstract value"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Abs(%s)' % self.name


def peq(a, b):
    if isinstance(a, IterVal) or isinstance(b, IterVal):
        raise Unsupported('pointer compare on iterator')
    return band(eq(a.base, b.base), eq(a.off, b.off))


# ------------------------------------------------------------------ heap log
class HW:
    __slots__ = ('base', 'off', 'size', 'kind', 'val', 'parent')

    def __init__(s, parent, base, kind, off, size, val):
        s.parent = parent; s.base = base; s.kind = kind; s.off = off; s.size = size; s.val = val


class HC:
    __slots__ = ('base', 'off', 'size', 'sbase', 'soff', 'parent')
    bulk = None         # the class of bulk copies (stl)

    def __init__(s, parent, base, off, size, sbase, soff):
        s.parent = parent; s.base = base; s.off = off; s.size = size; s.sbase = sbase; s.soff = soff


class HZ:
    __slots__ = ('base', 'off', 'size', 'parent')

    def __init__(s, parent, base, off, size):
        s.parent = parent; s.base = base; s.off = off; s.size = size


class HH:
    """havoc: pred(base,kind,off,size) -> bool/cond"""
    __slots__ = ('pred', 'epoch', 'desc', 'parent', 'region')

    def __init__(s, parent, pred, epoch, desc, region=None):
        s.parent = parent; s.pred = pred; s.epoch = epoch; s.desc = desc; s.region = region


class PC:
    __slots__ = ('c', 'parent', 'depth')

    def __init__(self, c, parent):
        self.c = c
        self.parent = parent
        self.depth = 0 if parent is None else parent.depth + 1


class Frame:
    __slots__ = ('fn', 'regs', 'block', 'prev', 'ip', 'on_ret', 'inv', 'loops', 'uid', 'on_unwind', 'args', 'tag')
    _n = 0

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.block = None
        self.prev = None
        self.ip = 0
        self.on_ret = None
        self.inv = None
        self.loops = []
        Frame._n += 1
        self.uid = Frame._n
        self.on_unwind = None
        self.args = None
        self.tag = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.regs = dict(self.regs); f.block = self.block; f.prev = self.prev; f.ip = self.ip
        f.on_ret = self.on_ret; f.inv = self.inv; f.loops = list(self.loops); f.uid = self.uid
        f.on_unwind = self.on_unwind; f.args = self.args; f.tag = self.tag
        return f


class State:
    def __init__(self):
        self.heap = None
        self.pc = None
        self.frames = []
        self.ghost = {}
        self.locks = ()
        self.events = ()
        self.freed = ()
        self.exc = None
        self.trace = ()
        self.choice = None
        self.dead = False
        self.caught = ()
        self.memo = {}
        self.mlog = []
        self.ctr = 0

    def remember(self, k, v):
        self.memo[k] = v
        self.mlog.append(k)

    def clone(self):
        s = State.__new__(State)
        s.heap = self.heap; s.pc = self.pc
        s.frames = [f.clone() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.locks = self.locks; s.events = self.events; s.freed = self.freed
        s.exc = self.exc; s.trace = self.trace; s.choice = None; s.dead = self.dead; s.caught = self.caught
        s.memo = dict(self.memo)
        s.mlog = []
        s.ctr = self.ctr
        return s

    @property
    def top(self):
        return self.frames[-1]


class Obligation:
    __slots__ = ('name', 'status', 'n', 'time', 'detail', 'solver', 'where', 'model')

    def __init__(self, name):
        self.name = name
        self.status = 'proved'
        self.n = 0
        self.time = 0.0
        self.detail = None
        self.solver = {}
        self.where = None
        self.model = None


class Solver:
    """incremental z3 solver whose assertion stack follows the path condition of the current state"""

    def __init__(self, timeout_ms=20000):
        self.s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        self.timeout = timeout_ms
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.checks = 0
        self.time = 0.0
        self.cache = {}

    def sync(self, pc):
        target = []
        p = pc
        n = len(self.stack)
        while p is not None and not (p.depth < n and self.stack[p.depth] is p):
            target.append(p)
            p = p.parent
        keep = 0 if p is None else p.depth + 1
        if len(self.stack) > keep:
            self.s.pop(len(self.stack) - keep)
            del self.stack[keep:]
        for q in reversed(target):
            self.s.push()
            self.s.add(q.c)
            self.stack.append(q)

    def check(self, pc, cond):
        """is pc /\\ cond satisfiable?  returns z3.sat / unsat / unknown"""
        if cond is False:
            return z3.unsat
        key = (id(pc), -1 if cond is True else cond.get_id())
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        t0 = time.time()
        self.sync(pc)
        self.checks += 1
        if cond is True:
            r = self.s.check()
        else:
            r = self.s.check(cond)
        self.time += time.time() - t0
        self.cache[key] = (r, pc, cond)
        return r

    def model(self, pc, cond):
        self.sync(pc)
        self.s.push()
        if cond is not True:
            self.s.add(cond)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        return m


class LoopRec:
    _n = 0

    def __init__(self, header, body, mode):
        self.header = header
        self.body = body
        self.mode = mode
        self.count = 0
        LoopRec._n += 1
        self.uid = LoopRec._n
        self.collect = None
        self.cands = []
        self.slots = []
        self.heap0 = None


class Engine:
    def __init__(self, mods, log=None):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.solver = Solver()
        self.obls = {}
        self.muted = 0
        self.cand_mode = 0
        self.contracts = {}      # norm name -> handler(ex, st, call) ; or callable key predicate list
        self.models = {}         # std models
        self.model_res = []      # (regex, handler)
        self.nbase = STATIC_LIMIT
        self.fn_bases = {}
        self.base_fn = {}
        self.gbases = {}
        self.base_global = {}
        self.epoch = 0
        self.verbose = 0
        self.max_steps = 400000
        self.steps = 0
        self.paths = 0
        self.prefix = ''
        self.inlined = set()
        self.used_models = set()
        self.used_contracts = set()
        self.cover = {}
        self.trusted = set()
        self.hooks = {}
        self.loop_hooks = []
        self.unroll_limit = 12
        self.icall_hook = None
        self.exc_vt = self.exc_what = None
        self.atomic_hook = None
        self.max_inline = 400
        self.check_null = True
        self.deadline = None
        self.seq_factory = None
        self.initial_hooks = []
        self.alias_distinct = False
        self.smt_log = []
        self.keep_smt = False
        self.terminate_ok = False
        self.explored_heads = 0
        self.gen_throw = False
        self.failures = []
        self.gfld = {}

    # ---------------------------------------------------------------- naming
    def func(self, name, mod=None):
        if mod is not None:
            f = mod.func(name)
            if f:
                return f
        for m in self.mods:
            f = m.func(name)
            if f:
                return f
        return None

    def find(self, norm, pred=None):
        """all functions (any module) whose normalized name equals norm"""
        out = []
        seen = set()
        for m in self.mods:
            for n in m.funcs:
                if n not in seen and m.norm(n) == norm:
                    d = m.demangle(n)
                    if pred is None or pred(d):
                        out.append(m.funcs[n])
                        seen.add(n)
        return out

    def fresh_base(self, st):
        st.ctr += 1
        return HEAP_LIMIT + 1000 + st.ctr

    def static_base(self):
        self.nbase += 16
        return self.nbase

    def fname(self, st, p):
        st.ctr += 1
        return '%s!%d' % (p, st.ctr)

    def fn_ptr(self, name):
        b = self.fn_bases.get(name)
        if b is None:
            b = self.static_base()
            self.fn_bases[name] = b
            self.base_fn[b] = name
        return Ptr(b, 0)

    def global_ptr(self, name, mod):
        if name in mod.funcs or name in mod.aliases or name in mod.decls:
            return self.fn_ptr(mod.aliases.get(name, name))
        t = mod.global_lines.get(name, '')
        internal = ' private ' in (' ' + t) or ' internal ' in (' ' + t)
        key = (id(mod), name) if internal else name
        b = self.gbases.get(key)
        if b is None:
            b = self.static_base()
            self.gbases[key] = b
            self.base_global[b] = (mod, name)
        return Ptr(b, 0)

    # ---------------------------------------------------------------- facts
    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        st.pc = PC(c, st.pc)

    def feasible(self, st, c=True):
        r = self.solver.check(st.pc, c)
        return r != z3.unsat

    def entails(self, st, c):
        if isc(c):
            return bool(c)
        if not isinstance(c, z3.ExprRef):
            raise Unsupported("decide on %r at %s" % (c, self.where(st) if hasattr(self, "where") else st.trace[-3:]))
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return not self.feasible(st)
        return self.solver.check(st.pc, bnot(c)) == z3.unsat

    def decide(self, st, c):
        """True/False if determined on this path, otherwise forks"""
        if isc(c):
            return bool(c)
        if not isinstance(c, z3.ExprRef):
            raise Unsupported("decide on %r at %s" % (c, self.where(st) if hasattr(self, "where") else st.trace[-3:]))
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.solver.check(st.pc, c) == z3.unsat:
            return False
        if self.solver.check(st.pc, bnot(c)) == z3.unsat:
            return True
        raise Fork(c)

    def fresh_int(self, st, name, lo=0, hi=(1 << 64) - 1):
        t = z3.Int('%s[%s:%s]' % (self.fname(st, name), lo, hi))
        setrange(t, lo, hi)
        if lo is not None:
            self.assume(st, t >= lo)
        if hi is not None:
            self.assume(st, t <= hi)
        return t

    def fresh_bool(self, st, name):
        return z3.Bool(self.fname(st, name))

    def fresh_of(self, st, ty, name):
        """fresh value of IR type"""
        if ty == 'ptr':
            return Ptr(self.fresh_int(st, name, 0, HEAP_LIMIT), 0)
        if ty in ('float', 'double', 'x86_fp80'):
            return Flt(z3.Int(self.fname(st, name)))
        if ty[0] == 'i':
            if ty[1] == 1:
                return self.fresh_bool(st, name)
            return self.fresh_int(st, name, 0, (1 << ty[1]) - 1)
        ty2 = None
        raise Unsupported('fresh of %r' % (ty,))

    # ---------------------------------------------------------------- obligations
    def prove(self, st, name, c, detail=None):
        """record obligation: pc entails c.  Afterwards c is assumed."""
        if self.cand_mode:
            if not self.entails(st, c):
                raise Unsupported('candidate outside its domain')
            return True
        if self.muted:
            if not isc(c):
                self.assume(st, c)
            elif not c:
                raise PathEnd()
            return True
        name = self.prefix + name
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obligation(name)
        o.n += 1
        t0 = time.time()
        ok = None
        cc = c
        if isc(c):
            if c:
                o.solver['trivial'] = o.solver.get('trivial', 0) + 1
                return True
            cc = z3.BoolVal(False)
        s = z3.simplify(cc)
        if z3.is_true(s):
            o.solver['simplifier'] = o.solver.get('simplifier', 0) + 1
            return True
        neg = bnot(cc) if not z3.is_false(s) else True
        r = self.solver.check(st.pc, neg)
        if self.keep_smt:
            self.log_smt(st, name, cc)
        if r == z3.unsat:
            o.solver['z3'] = o.solver.get('z3', 0) + 1
            o.time += time.time() - t0
            return True
        if r == z3.unknown:
            r = self.second_opinion(st, neg, o)
            if r == z3.unsat:
                o.time += time.time() - t0
                return True
        o.time += time.time() - t0
        o.status = 'failed' if r == z3.sat else 'undecided'
        if o.detail is None:
            m = self.solver.model(st.pc, neg)
            o.detail = dict(where=self.where(st), path=self.path_of(st), cond=str(s)[:2000],
                            model=self.model_str(m), note=detail)
            if self.verbose:
                print('FAILED', name, o.detail['where'], o.detail['cond'][:300])
                for p in o.detail['path'][-40:]:
                    print('    ', p)
                if self.verbose > 1:
                    print(o.detail['model'])
        # continue as if it held, to report independent failures
        if isc(c) or z3.is_false(s):
            raise PathEnd()
        self.assume(st, c)
        return False

    def second_opinion(self, st, neg, o):
        s = z3.Solver()
        s.set('timeout', 30000)
        p = st.pc
        while p is not None:
            s.add(p.c)
            p = p.parent
        if neg is not True:
            s.add(neg)
        r = s.check()
        if r != z3.unknown:
            if r == z3.unsat:
                o.solver['z3-fresh'] = o.solver.get('z3-fresh', 0) + 1
            return r
        txt = s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
        try:
            for cmd in (['cvc5', '--tlimit=30000', f.name], ['z3-new', '-T:30', f.name]):
                try:
                    out = subprocess.run(cmd, capture_output=True, text=True, timeout=60).stdout
                except Exception:
                    continue
                if out.startswith('unsat'):
                    o.solver[cmd[0]] = o.solver.get(cmd[0], 0) + 1
                    return z3.unsat
                if out.startswith('sat'):
                    return z3.sat
        finally:
            os.unlink(f.name)
        return z3.unknown

    def log_smt(self, st, name, c):
        s = z3.Solver()
        p = st.pc
        while p is not None:
            s.add(p.c)
            p = p.parent
        s.add(bnot(c))
        self.smt_log.append((name, s.to_smt2()))

    def fail(self, st, name, detail=None):
        self.prove(st, name, False, detail)

    def where(self, st):
        out = []
        for f in st.frames[-6:]:
            ins = f.fn.blocks[f.block][max(0, min(f.ip, len(f.fn.blocks[f.block]) - 1))]
            ln = f.fn.mod.dbgloc.get(ins.dbg)
            out.append('%s:%s' % (f.fn.mod.norm(f.fn.name), ln))
        return ' > '.join(out)

    def path_of(self, st):
        return [str(x) for x in st.trace[-60:]]

    def model_str(self, m):
        if m is None:
            return None
        out = []
        for d in m.decls()[:200]:
            s = str(m[d])
            if len(s) < 200:
                out.append('%s=%s' % (d.name(), s.replace('\n', ' ')))
        return '; '.join(out)[:4000]

    def mark(self, name):
        if not self.muted:
            n = self.prefix + name
            self.cover[n] = self.cover.get(n, 0) + 1

    # ---------------------------------------------------------------- memory
    def same_base(self, st, a, b):
        if isc(a) and isc(b):
            return a == b
        if not isc(a) and not isc(b) and a.eq(b):
            return True
        c = eq(a, b)
        if isc(c):
            return c
        return self.decide(st, c)

    def deref_check(self, st, p, what='access'):
        if isinstance(p, IterVal):
            raise Unsupported('deref of raw iterator')
        b = p.base
        if isc(b):
            if b == 0:
                self.fail(st, 'memory-safety/null-dereference', what)
                raise PathEnd()
        elif self.check_null:
            lo, hi = rng(b)
            if not (lo is not None and lo > 0):
                key = ('nn', b.get_id())
                if key not in st.memo:
                    self.prove(st, 'memory-safety/null-dereference', b != 0, what)
                    st.remember(key, b)
        for fb in st.freed:
            c = eq(fb, b)
            if c is True:
                self.fail(st, 'memory-safety/use-after-free', what)
                raise PathEnd()
            if c is not False:
                self.prove(st, 'memory-safety/use-after-free', bnot(c), what)

    def write(self, st, p, kind, size, val):
        st.heap = HW(st.heap, p.base, kind, p.off, size, val)

    def off_match(self, st, off, size, woff, wsize):
        """1 exact start match, 0 disjoint, 2 overlap"""
        if isc(off) and isc(woff):
            if off == woff:
                return 1
            if off + size <= woff or woff + wsize <= off:
                return 0
            return 2
        e = eq(off, woff)
        if e is True:
            return 1
        if self.decide(st, e) if not isc(e) else e:
            return 1
        # assume aligned array accesses
        return 0

    def read(self, st, p, kind, size, init, asint=False):
        """read a cell; init(st, base, off, epoch) makes the unknown initial value"""
        h = st.heap
        base, off = p.base, p.off
        while h is not None:
            c = h.__class__
            if c is HW:
                if h.kind == kind and self.same_base(st, h.base, base):
                    if kind != 'm':
                        if h.off == off if (isc(h.off) and isc(off)) else self.decide(st, eq(h.off, off)):
                            return h.val
                    else:
                        m = self.off_match(st, off, size, h.off, h.size)
                        if m == 1:
                            if h.size == size:
                                return h.val
                            if h.size > size:
                                v = h.val
                                if isc(v) :
                                    return int(v) % (1 << (8 * size))
                                if isinstance(v, z3.ExprRef) and z3.is_int(v):
                                    return wrap(v, 8 * size) if rng(v)[1] is not None and rng(v)[1] < (1 << (8 * size)) else v % (1 << (8 * size))
                                raise Unsupported('partial read')
                            return self.read_wide(st, Ptr(base, off), size, h, init)
                        elif m == 2:
                            v = h.val
                            if isc(off) and isc(h.off) and off >= h.off and off + size <= h.off + h.size:
                                k = off - h.off
                                if isc(v):
                                    return (int(v) >> (8 * k)) % (1 << (8 * size))
                                if isinstance(v, z3.ExprRef) and z3.is_int(v):
                                    return (v / (1 << (8 * k))) % (1 << (8 * size))
                            return self.read_wide(st, Ptr(base, off), size, h, init)
            elif c is HC:
                if self.same_base(st, h.base, base):
                    if isc(off) and isc(h.off) and isc(h.size):
                        inside = h.off <= off and (off + max(size, 1) <= h.off + h.size)
                    else:
                        inside = self.decide(st, band(le(h.off, off), le(add(off, max(size, 1)), add(h.off, h.size))))
                    if inside:
                        # continue with source at parent
                        off = add(h.soff, sub(off, h.off))
                        base = h.sbase
            elif c is HZ:
                if kind == 'm' and self.same_base(st, h.base, base):
                    if isc(off) and isc(h.off) and isc(h.size):
                        inside = h.off <= off and off + size <= h.off + h.size
                    else:
                        inside = self.decide(st, band(le(h.off, off), le(add(off, size), add(h.off, h.size))))
                    if inside:
                        return 0
            elif c is HC.bulk:
                if not isc(base):
                    base = h.redirect(self, st, base)
            else:
                r = h.pred(base, kind, off, size)
                if r is True or (r is not False and self.decide(st, r)):
                    return init(st, base, off, h.epoch)
            h = h.parent
        return init(st, base, off, 0)

    def base_rel(self, st, a, b):
        e = eq(a, b)
        if isc(e):
            return e
        if self.solver.check(st.pc, e) == z3.unsat:
            return False
        return e

    def read_int(self, st, p, size, h=0):
        """like read of an integer or pointer value, but undecided aliasing becomes an if-then-else instead of a case split"""
        h = st.heap if h == 0 else h
        base, off = p.base, p.off
        if h is None:
            v = self.init_ptr(st, base, off, 0) if size == 8 else self.init_int(st, base, off, 0, size)
            return self.as_int(v)
        c = h.__class__
        if c is HW:
            if h.kind != 'm':
                return self.read_int(st, p, size, h.parent)
            e = self.base_rel(st, h.base, base)
            if e is False:
                return self.read_int(st, p, size, h.parent)
            if not (isc(off) and isc(h.off)):
                raise Unsupported('symbolic offset')
            if off + size <= h.off or h.off + h.size <= off:
                return self.read_int(st, p, size, h.parent)
            if off != h.off or size != h.size:
                raise Unsupported('partial overlap')
            v = self.as_int(h.val)
            return v if e is True else ite(e, v, self.read_int(st, p, size, h.parent))
        if c is HH:
            r = h.pred(base, 'm', off, size)
            if r is False:
                return self.read_int(st, p, size, h.parent)
            v = self.as_int(self.init_ptr(st, base, off, h.epoch) if size == 8 else self.init_int(st, base, off, h.epoch, size))
            return v if r is True else ite(r, v, self.read_int(st, p, size, h.parent))
        if c is HC.bulk:
            if isc(base):
                return self.read_int(st, p, size, h.parent)
            r, b2 = h.copied(self, st, base)
            if r is False:
                return self.read_int(st, p, size, h.parent)
            v = self.read_int(st, Ptr(b2, off), size, h.parent)
            return v if r is True else ite(r, v, self.read_int(st, p, size, h.parent))
        saved = st.heap
        if c is HZ:
            e = self.base_rel(st, h.base, base)
            if e is False:
                return self.read_int(st, p, size, h.parent)
            if isc(off) and isc(h.off) and isc(h.size):
                if h.off <= off and off + size <= h.off + h.size:
                    return 0 if e is True else ite(e, 0, self.read_int(st, p, size, h.parent))
                return self.read_int(st, p, size, h.parent)
        if c is HC:
            e = self.base_rel(st, h.base, base)
            if e is False:
                return self.read_int(st, p, size, h.parent)
            if isc(off) and isc(h.off) and isc(h.size):
                if h.off <= off and off + size <= h.off + h.size:
                    v = self.read_int(st, Ptr(h.sbase, add(h.soff, off - h.off)), size, h.parent)
                    return v if e is True else ite(e, v, self.read_int(st, p, size, h.parent))
                return self.read_int(st, p, size, h.parent)
        raise Unsupported('read through a bulk copy')

    def read_wide(self, st, p, size, h, init):
        """assemble a wide little-endian read from halves"""
        if size in (2, 4, 8, 16) and isc(p.off):
            hf = size // 2

            def sub_init(st, base, off, ep):
                return self.init_int(st, base, off, ep, hf)
            lo = self.read(st, p, 'm', hf, sub_init)
            hi = self.read(st, p.at(hf), 'm', hf, sub_init)
            if all(isc(x) or isinstance(x, z3.ExprRef) for x in (lo, hi)):
                return add(lo, mul(hi, 1 << (8 * hf)))
        raise Unsupported('overlapping read')

    def init_int(self, st, base, off, ep, size, tag=''):
        if not tag and isc(base) and base in self.base_global:
            v = self.global_value(base, off, size)
            if v is not None:
                return v
        offk = off if isc(off) else 'x'
        args = [base if not isc(base) else z3.IntVal(base)]
        if offk == 'x':
            args.append(off)
        f = uf('m%s:%s:%d%s' % (ep, offk, size, tag), len(args))
        t = f(*args)
        i = t.get_id()
        if i not in RANGE:
            setrange(t, 0, (1 << (8 * size)) - 1)
        key = ('rg', i)
        if key not in st.memo:
            st.remember(key, t)
            self.assume(st, band(t >= 0, t < (1 << (8 * size))))
        return t

    def init_ptr(self, st, base, off, ep):
        hk = self.hooks.get('vptr')
        if hk and isc(off) and off == 0 and not isc(base):
            v = hk(self, st, base)
            if v is not None:
                return v
        hk = self.hooks.get('vptr2')
        if hk and isc(off) and off == 8 and not isc(base):
            # table of the second base class
            v = hk(self, st, base)
            if v is not None:
                return v
        v = self.init_int(st, base, off, ep, 8)
        if isinstance(v, Ptr):
            return v
        if isc(v):
            return Ptr(v, 0)
        key = ('rp', v.get_id())
        if key not in st.memo:
            st.remember(key, v)
            self.assume(st, v < HEAP_LIMIT)
            RANGE[v.get_id()] = (0, HEAP_LIMIT - 1)
            KEEP.append(v)
        return Ptr(v, 0)

    def load(self, st, p, ty, mod, atomic=False):
        if isinstance(p, IterVal):
            raise Unsupported('load via iterator value')
        self.deref_check(st, p, 'load')
        h = self.hooks.get('load')
        if h:
            h(self, st, p)
        if ty == 'ptr':
            v = self.read(st, p, 'm', 8, self.init_ptr)
            if isinstance(v, (Ptr, IterVal, Abs)):
                return v
            if isc(v) or isinstance(v, z3.ExprRef):
                return Ptr(v, 0)
            return v
        if ty in ('double', 'float', 'x86_fp80'):
            sz = mod.size(ty)
            v = self.read(st, p, 'm', sz, lambda s, b, o, e: Flt(self.init_int(s, b, o, e, sz)))
            return v if isinstance(v, Flt) else Flt(v)
        if isinstance(ty, tuple) and ty[0] == 'i':
            sz = mod.size(ty)
            v = self.read(st, p, 'm', sz, lambda s, b, o, e: self.init_int(s, b, o, e, sz))
            if ty[1] == 1:
                return self.to_bool(v)
            if isinstance(v, Flt):
                return v.t
            return v
        ty = mod.resolve(ty)
        if isinstance(ty, tuple) and ty[0] in ('struct', 'arr'):
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            out = []
            for i in range(n):
                o, et = mod.field_off(ty, i)
                out.append(self.load(st, p.at(o), et, mod))
            return out
        raise Unsupported('load %r' % (ty,))

    def store(self, st, p, ty, v, mod):
        self.deref_check(st, p, 'store')
        rty = mod.resolve(ty)
        if isinstance(rty, tuple) and rty[0] in ('struct', 'arr'):
            if isinstance(v, tuple) and v and v[0] == 'zero':
                st.heap = HZ(st.heap, p.base, p.off, mod.size(rty))
                return
            n = len(rty[1]) if rty[0] == 'struct' else rty[1]
            for i in range(n):
                o, et = mod.field_off(rty, i)
                if v[i] is not None:
                    self.store(st, p.at(o), et, v[i], mod)
            return
        if rty == ('i', 1):
            v = ite(v, 1, 0)
        if v is None:
            return
        h = self.hooks.get('prestore')
        if h:
            h(self, st, p, mod.size(rty), v)
        self.write(st, p, 'm', mod.size(rty), v)
        h = self.hooks.get('store')
        if h:
            h(self, st, p, mod.size(rty), v)

    def copy_region(self, st, dst, src, size):
        if isc(size) and size == 0:
            return
        st.heap = HC(st.heap, dst.base, dst.off, size, src.base, src.off)

    def havoc(self, st, pred, desc, region=None):
        st.ctr += 1
        st.heap = HH(st.heap, pred, st.ctr, desc, region)
        return st.ctr

    def havoc_region(self, st, p, size, desc='region'):
        b0, o0 = p.base, p.off

        def pred(base, kind, off, sz):
            e = eq(base, b0)
            if e is False:
                return False
            if isc(off) and isc(o0) and isc(size):
                if not (o0 <= off < o0 + size):
                    return False
                return e
            return band(e, le(o0, off), lt(off, add(o0, size)))
        return self.havoc(st, pred, desc, (b0, o0, size))

    def global_value(self, base, off, size):
        mod, name = self.base_global[base]
        gi = mod.global_init(name)
        if gi is None or gi[1] is None:
            # try another module which defines it
            for m in self.mods:
                g2 = m.global_init(name)
                if g2 is not None and g2[1] is not None:
                    gi, mod = g2, m
                    break
        if gi is None or gi[1] is None or not gi[2]:
            return None
        if not isc(off):
            return None
        return self.const_at(gi[0], gi[1], off, size, mod)

    def const_at(self, ty, v, off, size, mod):
        ty = mod.resolve(ty)
        if v[0] == 'zero':
            return 0
        if v[0] == 'undef':
            return None
        if v[0] == 'str':
            return int.from_bytes(v[1][off:off + size], 'little')
        if v[0] == 'agg':
            n = len(v[1])
            for i in range(n):
                o, et = mod.field_off(ty, i)
                s = mod.size(et)
                if o <= off and off + size <= o + s:
                    return self.const_at(et, v[1][i][1], off - o, size, mod)
            return None
        if off == 0:
            return self.operand(None, None, ty, v, mod)
        if v[0] == 'c':
            return (v[1] >> (8 * off)) % (1 << (8 * size))
        return None

    # ---------------------------------------------------------------- operands
    def operand(self, st, fr, ty, v, mod=None):
        k = v[0]
        if k == 'r':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register %s in %s' % (v[1], fr.fn.name))
        if k == 'c':
            if isinstance(ty, tuple) and ty[0] == 'i':
                if ty[1] == 1:
                    return bool(v[1])
                return v[1] % (1 << ty[1])
            return v[1]
        if mod is None:
            mod = fr.fn.mod
        if k == 'g':
            return self.global_ptr(v[1], mod)
        if k == 'null':
            return NULL
        if k == 'undef':
            rt = mod.resolve(v[1]) if v[1] != 'ptr' else 'ptr'
            if isinstance(rt, tuple) and rt[0] == 'struct':
                return [None] * len(rt[1])
            if rt == 'ptr':
                return Ptr(z3.Int('undefptr'), 0)
            if isinstance(rt, tuple) and rt[0] == 'i':
                if rt[1] == 1:
                    return self.fresh_bool(st, 'undef')
                t = z3.Int('undef%d' % rt[1])
                setrange(t, 0, (1 << rt[1]) - 1)
                if st is not None:
                    self.assume(st, band(t >= 0, t < (1 << rt[1])))
                return t
            return None
        if k == 'zero':
            rt = mod.resolve(v[1]) if v[1] != 'ptr' else 'ptr'
            if rt == 'ptr':
                return NULL
            if isinstance(rt, tuple) and rt[0] == 'struct':
                return [self.operand(st, fr, e, ('zero', e), mod) for e in rt[1]]
            if isinstance(rt, tuple) and rt[0] == 'arr':
                return ('zero', rt)
            return 0
        if k == 'f':
            return Flt(int(v[1], 16) if v[1].startswith('0x') and v[1][2] not in 'KMLHR' else hash(v[1]) % (1 << 60))
        if k == 'gep':
            base = self.operand(st, fr, 'ptr', v[2], mod)
            return self.gep(st, fr, v[1], base, v[3], mod)
        if k == 'cast':
            return self.cast(v[1], v[2], self.operand(st, fr, v[2], v[3], mod), v[4])
        if k == 'agg':
            return [self.operand(st, fr, t, x, mod) for t, x in v[1]]
        if k == 'str':
            return ('str', v[1])
        if k == 'none':
            return None
        if k == 'bin':
            return self.binop(st, v[1], v[2], self.operand(st, fr, v[2], v[3], mod), self.operand(st, fr, v[2], v[4], mod), [])
        raise Unsupported('operand %r' % (v,))

    def gep(self, st, fr, bt, base, idxs, mod):
        if isinstance(base, IterVal):
            if len(idxs) == 1:
                ii = self.as_int(self.operand(st, fr, idxs[0][0], idxs[0][1], mod))
                return IterVal(base.cont, add(base.idx, signed(ii, idxs[0][0][1])), base.seq)
            raise Unsupported('gep into iterator')
        off = base.off
        t = bt
        for n, (it, iv) in enumerate(idxs):
            i = self.operand(st, fr, it, iv, mod)
            if isinstance(i, Ptr):
                i = self.as_int(i)
            if n == 0:
                i = signed(i, it[1])
                off = add(off, mul(i, mod.size(t)))
            else:
                rt = mod.resolve(t)
                if rt[0] == 'arr':
                    i = signed(i, it[1])
                    off = add(off, mul(i, mod.size(rt[2])))
                    t = rt[2]
                else:
                    o, t = mod.field_off(rt, i)
                    off = add(off, o)
        return Ptr(base.base, off)

    def to_bool(self, v):
        if isinstance(v, bool):
            return v
        if isc(v):
            return bool(v & 1)
        if z3.is_bool(v):
            return v
        if v.decl().kind() == z3.Z3_OP_ITE:
            a, b = norm_int(v.arg(1)), norm_int(v.arg(2))
            if isc(a) and isc(b):
                if a == 1 and b == 0:
                    return v.arg(0)
                if a == 0 and b == 1:
                    return bnot(v.arg(0))
        lo, hi = rng(v)
        if hi == 1 and lo == 0:
            return v == 1
        return (v % 2) == 1

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isc(v):
            return v
        if isinstance(v, Ptr):
            return add(v.base, v.off)
        if isinstance(v, Flt):
            return v.t
        if isinstance(v, z3.ExprRef) and z3.is_bool(v):
            return ite(v, 1, 0)
        if isinstance(v, z3.ExprRef):
            return v
        raise Unsupported('as_int %r' % (v,))

    def cast(self, op, ft, v, tt):
        if op == 'bitcast':
            if tt in ('double', 'float'):
                return Flt(self.as_int(v))
            if isinstance(v, Flt):
                return v.t
            return v
        if op == 'ptrtoint':
            return v       # keep pointer provenance; converted when used in arithmetic
        if op == 'inttoptr':
            if isinstance(v, (Ptr, IterVal)):
                return v
            return Ptr(v, 0)
        if op == 'trunc':
            if isinstance(v, Ptr) and tt[1] >= 64:
                return v
            v = self.as_int(v)
            if tt[1] == 1:
                return self.to_bool(v)
            if isc(v):
                return v % (1 << tt[1])
            lo, hi = rng(v)
            if hi is not None and hi < (1 << tt[1]) and lo is not None and lo >= 0:
                return v
            return v % (1 << tt[1])
        if op == 'zext':
            if isinstance(v, Ptr):
                return v
            return self.as_int(v)
        if op == 'sext':
            if ft[1] == 1:
                return ite(v, (1 << tt[1]) - 1, 0)
            v = self.as_int(v)
            s = signed(v, ft[1])
            if isc(s):
                return s % (1 << tt[1])
            lo, hi = rng(s)
            if lo is not None and lo >= 0:
                return s
            return ite(s < 0, s + (1 << tt[1]), s)
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            x = self.as_int(v)
            t = uf('%s:%s:%s' % (op, ft, tt))(x if not isc(x) else z3.IntVal(x))
            if tt in ('double', 'float', 'x86_fp80'):
                return Flt(t)
            return t % (1 << tt[1])
        if op == 'addrspacecast':
            return v
        raise Unsupported('cast ' + op)

    def binop(self, st, op, ty, a, b, flags):
        if ty in ('double', 'float', 'x86_fp80'):
            x, y = self.as_int(a), self.as_int(b)
            return Flt(uf(op, 2)(x if not isc(x) else z3.IntVal(x), y if not isc(y) else z3.IntVal(y)))
        w = ty[1]
        if w == 1:
            a = self.to_bool(a); b = self.to_bool(b)
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op == 'xor':
                if isc(a) and isc(b):
                    return a != b
                if isc(b):
                    return bnot(a) if b else a
                if isc(a):
                    return bnot(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub':
            e = eq(a.base, b.base)
            if e is not True and not (self.decide(st, e) if not isc(e) else e):
                return self.fresh_int(st, 'ptrdiff', 0, (1 << w) - 1)
            return wrap(sub(a.off, b.off), w)
        if isinstance(a, IterVal) and isinstance(b, IterVal) and op == 'sub':
            raise Unsupported('iterator difference')
        if isinstance(a, Ptr) and op in ('add',) and not isinstance(b, Ptr):
            return a.at(b)
        if isinstance(a, Ptr) and op in ('sub',) and not isinstance(b, Ptr) and isc(b):
            return a.at(-b)
        a = self.as_int(a); b = self.as_int(b)
        M = 1 << w
        if op == 'add':
            if isc(b) and b >= M // 2 and not isc(a):
                return wrap(add(a, b - M), w)
            return wrap(add(a, b), w)
        if op == 'sub':
            return wrap(sub(a, b), w)
        if op == 'mul':
            if isc(a) or isc(b):
                return wrap(mul(a, b), w)
            p = a * b
            return p % M
        if op == 'udiv':
            if isc(a) and isc(b) and b:
                return a // b
            return a / b if not (isc(a)) else z3.IntVal(a) / b
        if op == 'urem':
            if isc(a) and isc(b) and b:
                return a % b
            return a % b if not isc(a) else z3.IntVal(a) % b
        if op in ('sdiv', 'srem'):
            sa, sb = signed(a, w), signed(b, w)
            if isc(sa) and isc(sb) and sb:
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == 'sdiv' else sa - q * sb) % M
            if isc(sb) and sb > 0:
                za = z3.IntVal(sa) if isc(sa) else sa
                q = z3.If(za >= 0, za / sb, -((-za) / sb))
                return wrap(q if op == 'sdiv' else za - q * sb, w) if False else ((q if op == 'sdiv' else za - q * sb) % M)
            t = uf('%s%d' % (op, w), 2)(a if not isc(a) else z3.IntVal(a), b if not isc(b) else z3.IntVal(b))
            self.assume(st, band(t >= 0, t < M)); setrange(t, 0, M - 1)
            return t
        if op in ('and', 'or', 'xor') and not isc(a) and not isc(b) and a.get_id() > b.get_id():
            a, b = b, a
        if op == 'and':
            if isc(a):
                a, b = b, a
            if isc(a) and isc(b):
                return a & b
            if isc(b):
                if b == 0:
                    return 0
                if b == M - 1:
                    return a
                if (b & (b + 1)) == 0:
                    hi = rng(a)[1]
                    if hi is not None and hi <= b:
                        return a
                    return a % (b + 1)
                nb = M - 1 - b
                if (nb & (nb + 1)) == 0:       # clear low bits
                    return a - a % (nb + 1)
            la, ha = rng(a)
            lb, hb = rng(b)
            if ha == 1 and hb == 1 and la == 0 and lb == 0:
                return ite(band(eq(a, 1), eq(b, 1)), 1, 0)
            t = uf('bvand%d' % w, 2)(a, b if not isc(b) else z3.IntVal(b))
            self.assume(st, band(t >= 0, t < M)); setrange(t, 0, M - 1)
            self.assume(st, t <= a)
            self.assume(st, t <= b)
            return t
        if op in ('or', 'xor'):
            if isc(a) and isc(b):
                return (a | b) if op == 'or' else (a ^ b)
            if isc(a):
                a, b = b, a
            if isc(b):
                if b == 0:
                    return a
                if op == 'xor' and b == M - 1:
                    return M - 1 - a
            ha, hb = rng(a)[1], rng(b)[1]
            if ha == 1 and hb == 1:
                if op == 'or':
                    return ite(bor(eq(a, 1), eq(b, 1)), 1, 0)
                return ite(eq(a, b), 0, 1)
            if op == 'or':
                # disjoint bit ranges?
                for x, y in ((a, b), (b, a)):
                    hx = rng(x)[1]
                    if hx is not None and not isc(y):
                        k = hx.bit_length()
                        if z3.is_mul(y) and z3.is_int_value(y.arg(0)) and y.arg(0).as_long() % (1 << k) == 0:
                            return add(x, y)
            t = uf('bv%s%d' % (op, w), 2)(a if not isc(a) else z3.IntVal(a), b if not isc(b) else z3.IntVal(b))
            self.assume(st, band(t >= 0, t < M)); setrange(t, 0, M - 1)
            if op == 'or':
                self.assume(st, band(t >= a, t >= b))
                self.assume(st, t <= add(a, b))
            return t
        if op == 'shl':
            if isc(b):
                r = mul(a, 1 << b)
                if isc(r):
                    return r % M
                hi = rng(r)[1]
                return r if hi is not None and hi < M else r % M
            t = uf('bvshl%d' % w, 2)(z3.IntVal(a) if isc(a) else a, b)
            self.assume(st, band(t >= 0, t < M)); setrange(t, 0, M - 1)
            return t
        if op == 'lshr':
            if isc(a) and isc(b):
                return a >> b
            if isc(b):
                return a / (1 << b)
            raise Unsupported('lshr var')
        if op == 'ashr':
            if isc(b):
                s = signed(a, w)
                if isc(s):
                    return (s >> b) % M
                return (s / (1 << b)) % M
            t = uf('bvashr%d' % w, 2)(z3.IntVal(a) if isc(a) else a, b)
            self.assume(st, band(t >= 0, t < M)); setrange(t, 0, M - 1)
            return t
        raise Unsupported(op)

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, IterVal) or isinstance(b, IterVal):
            h = self.hooks.get('itercmp')
            if h:
                r = h(self, st, a, b)
                return r if pred == 'eq' else bnot(r)
            raise Unsupported('icmp iterators %s %s' % (a, b))
        if isinstance(a, Abs) or isinstance(b, Abs):
            raise Unsupported('icmp abstract')
        if ty == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = Ptr(a, 0)
            if not isinstance(b, Ptr):
                b = Ptr(b, 0)
            if pred == 'eq':
                return self.ptr_eq(a, b)
            if pred == 'ne':
                return bnot(self.ptr_eq(a, b))
            e = eq(a.base, b.base)
            if e is True or (not isc(e) and self.entails(st, e)):
                a, b = a.off, b.off
                w = 64
            else:
                a, b = self.as_int(a), self.as_int(b)
                w = 64
            return self.cmpint(pred, a, b, w)
        if isinstance(ty, tuple) and ty[1] == 1:
            a = self.to_bool(a); b = self.to_bool(b)
            if pred == 'eq':
                return eq(a, b)
            if pred == 'ne':
                return bnot(eq(a, b))
            a, b = ite(a, 1, 0), ite(b, 1, 0)
            return self.cmpint(pred, a, b, 8)
        return self.cmpint(pred, self.as_int(a), self.as_int(b), ty[1])

    def ptr_eq(self, a, b):
        # null compare: only base matters (offsets into null do not occur after the null-dereference checks)
        if isc(a.base) and a.base == 0 and isc(a.off) and a.off == 0 and isc(b.off) and b.off >= 0:
            return eq(b.base, 0) if not (isc(b.off) and b.off > 0) else False
        if isc(b.base) and b.base == 0 and isc(b.off) and b.off == 0 and isc(a.off) and a.off >= 0:
            return eq(a.base, 0) if not (isc(a.off) and a.off > 0) else False
        return band(eq(a.base, b.base), eq(a.off, b.off))

    def cmpint(self, pred, a, b, w):
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return bnot(eq(a, b))
        if pred[0] == 's':
            a, b = signed(a, w), signed(b, w)
        p = pred[1:]
        if p == 'lt':
            return lt(a, b)
        if p == 'le':
            return le(a, b)
        if p == 'gt':
            return lt(b, a)
        if p == 'ge':
            return le(b, a)
        raise Unsupported(pred)

    # ---------------------------------------------------------------- running
    def push_call(self, st, fn, args, on_ret=None, inv=None, on_unwind=None, tag=None):
        if len(st.frames) > self.max_inline:
            raise Unsupported('inlining too deep at ' + fn.name)
        n = sum(1 for f in st.frames if f.fn is fn)
        if n > 3:
            raise Unsupported('recursion in ' + fn.mod.norm(fn.name))
        fn.parse()
        fr = Frame(fn)
        if len(args) < len(fn.params):
            raise Unsupported('arity of ' + fn.name)
        for (nm, ty, at), v in zip(fn.params, args):
            if 'byval' in at and isinstance(v, Ptr):
                b = self.fresh_base(st)
                self.copy_region(st, Ptr(b, 0), v, fn.mod.size(at['byval']))
                v = Ptr(b, 0)
            fr.regs[nm] = v
        fr.block = fn.entry
        fr.on_ret = on_ret
        fr.inv = inv
        fr.on_unwind = on_unwind
        fr.args = args
        fr.tag = tag
        st.frames.append(fr)
        self.inlined.add(fn.name)

    def run(self, st, done, depth_stop=None):
        """explore all paths from st; done(kind, state, value) on completion of the bottom frame"""
        work = [st]
        while work:
            s = work.pop()
            try:
                while True:
                    r = self.step(s, done)
                    if r is None:
                        continue
                    if r == 'end':
                        break
                    # list of states
                    work.extend(r[1:])
                    s = r[0]
            except PathEnd:
                self.paths += 1
                continue

    def step(self, st, done):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget exceeded')
        if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline:
            raise Unsupported('time budget exceeded')
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.ip]
        op = ins.op
        if op in SIMPLE:
            saved = (st.heap, st.pc, st.ctr, st.ghost, st.events, st.freed)
            st.mlog = []
            try:
                self.exec_simple(st, fr, ins)
                fr.ip += 1
                return None
            except Fork as f:
                st.heap, st.pc, st.ctr, st.ghost, st.events, st.freed = saved
                for k in st.mlog:
                    st.memo.pop(k, None)
                return self.fork(st, f.cond)
        # complex: work on a snapshot
        snap = st.clone()
        try:
            r = self.exec_complex(st, fr, ins, done)
            st.choice = None
            return r
        except Fork as f:
            snap.choice = st.choice if hasattr(st, 'choice') else None
            return self.fork(snap, f.cond)
        except ChoiceN as c:
            out = []
            for i in range(c.n):
                s2 = snap.clone()
                s2.choice = (st.choice or ()) + (i,)
                out.append(s2)
            return out

    def choose(self, st, n, slot=0):
        """nondeterministic choice 0..n-1, at most once per slot per instruction"""
        c = st.choice or ()
        if len(c) > slot:
            return c[slot]
        raise ChoiceN(n)

    def fork(self, st, cond):
        a = st
        b = st.clone()
        b.choice = st.choice
        a.pc = PC(cond, a.pc)
        b.pc = PC(bnot(cond), b.pc)
        return [a, b]

    def exec_simple(self, st, fr, ins):
        op = ins.op
        O = self.operand
        a = ins.a
        if op == 'load':
            p = O(st, fr, 'ptr', a[0])
            if a[1] and self.atomic_hook:
                v = self.atomic_hook(self, st, 'load', p, ins.ty, None, fr.fn.mod)
                if v is not None:
                    fr.regs[ins.dst] = v
                    return
            v = self.load(st, p, ins.ty, fr.fn.mod)
            fr.regs[ins.dst] = v
        elif op == 'store':
            p = O(st, fr, 'ptr', a[1])
            v = O(st, fr, ins.ty, a[0])
            if a[2] and self.atomic_hook:
                if self.atomic_hook(self, st, 'store', p, ins.ty, v, fr.fn.mod) is not None:
                    return
            self.store(st, p, ins.ty, v, fr.fn.mod)
        elif op == 'getelementptr':
            b = O(st, fr, 'ptr', a[0])
            fr.regs[ins.dst] = self.gep(st, fr, ins.ty, b, a[1], fr.fn.mod)
        elif op == 'alloca':
            b = self.fresh_base(st)
            n = O(st, fr, ('i', 64), a)
            fr.regs[ins.dst] = Ptr(b, 0)
        elif op == 'icmp':
            fr.regs[ins.dst] = self.icmp(st, a[0], ins.ty, O(st, fr, ins.ty, a[1]), O(st, fr, ins.ty, a[2]))
        elif op == 'fcmp':
            x, y = self.as_int(O(st, fr, ins.ty, a[1])), self.as_int(O(st, fr, ins.ty, a[2]))
            if a[0] in ('oeq', 'ueq'):
                fr.regs[ins.dst] = eq(x, y)
            elif a[0] in ('une', 'one'):
                fr.regs[ins.dst] = bnot(eq(x, y))
            else:
                fr.regs[ins.dst] = self.fresh_bool(st, 'fcmp')
        elif op in BINOPS:
            fr.regs[ins.dst] = self.binop(st, op, ins.ty, O(st, fr, ins.ty, a[0]), O(st, fr, ins.ty, a[1]), a[2])
        elif op in ir.CASTS:
            fr.regs[ins.dst] = self.cast(op, a[0], O(st, fr, a[0], a[1]), ins.ty)
        elif op == 'select':
            c = O(st, fr, ('i', 1), a[0])
            x, y = O(st, fr, ins.ty, a[1]), O(st, fr, ins.ty, a[2])
            if isc(c):
                r = x if c else y
            elif isinstance(x, Ptr) and isinstance(y, Ptr):
                r = Ptr(ite(c, x.base, y.base), ite(c, x.off, y.off))
            elif isinstance(x, (Ptr, IterVal, list)) or isinstance(y, (Ptr, IterVal, list)):
                r = x if self.decide(st, c) else y
            elif isinstance(x, Flt):
                r = Flt(ite(c, x.t, y.t))
            else:
                r = ite(c, x, y)
            fr.regs[ins.dst] = r
        elif op == 'extractvalue':
            v = O(st, fr, ins.ty, a[0])
            for i in a[1]:
                v = v[i]
            fr.regs[ins.dst] = v
        elif op == 'insertvalue':
            v = O(st, fr, ins.ty, a[0])
            e = O(st, fr, a[1], a[2])

            def ins_(v, idx):
                v = list(v)
                if len(idx) == 1:
                    v[idx[0]] = e
                else:
                    v[idx[0]] = ins_(v[idx[0]], idx[1:])
                return v
            fr.regs[ins.dst] = ins_(v, a[3])
        elif op == 'freeze':
            fr.regs[ins.dst] = O(st, fr, ins.ty, a)
        elif op == 'fneg':
            fr.regs[ins.dst] = Flt(uf('fneg')(self.as_int(O(st, fr, ins.ty, a))))
        elif op == 'cmpxchg':
            p = O(st, fr, 'ptr', a[0])
            c = O(st, fr, ins.ty, a[1]); n = O(st, fr, ins.ty, a[2])
            v = None
            if self.atomic_hook:
                v = self.atomic_hook(self, st, 'rmw', p, ins.ty, ('cmpxchg', c, n), fr.fn.mod)
            if v is not None:
                fr.regs[ins.dst] = v if isinstance(v, list) else [v, eq(v, c)]
                return
            cur = self.load(st, p, ins.ty, fr.fn.mod)
            e = self.icmp(st, 'eq', ins.ty, cur, c)
            if self.decide(st, e):
                self.store(st, p, ins.ty, n, fr.fn.mod)
                fr.regs[ins.dst] = [cur, True]
            else:
                fr.regs[ins.dst] = [cur, False]
        elif op == 'atomicrmw':
            p = O(st, fr, 'ptr', a[1])
            x = O(st, fr, ins.ty, a[2])
            v = None
            if self.atomic_hook:
                v = self.atomic_hook(self, st, 'rmw', p, ins.ty, (a[0], x), fr.fn.mod)
            if v is not None:
                fr.regs[ins.dst] = v
                return
            cur = self.load(st, p, ins.ty, fr.fn.mod)
            if a[0] == 'xchg':
                nv = x
            elif a[0] in ('add', 'sub', 'and', 'or', 'xor'):
                nv = self.binop(st, a[0], ins.ty, cur, x, [])
            else:
                raise Unsupported('atomicrmw ' + a[0])
            self.store(st, p, ins.ty, nv, fr.fn.mod)
            fr.regs[ins.dst] = cur
        elif op == 'landingpad':
            self.do_landingpad(st, fr, ins)
        else:
            raise Unsupported(op)

    def do_landingpad(self, st, fr, ins):
        exc = st.exc
        sel = None
        for kind, v in ins.a[1]:
            if kind == 'catch':
                if v[0] == 'null':
                    sel = 1
                    break
                m = self.exc_match(st, exc, v[1])
                if m is True or (m is not False and self.decide(st, m)):
                    sel = self.tid(v[1])
                    break
            elif kind == 'filter':
                sel = -1 % (1 << 32)
                break
        if sel is None:
            sel = 0
        fr.regs[ins.dst] = [exc['obj'], sel]

    def tid(self, name):
        d = self.gfld.setdefault('tid', {})
        if name not in d:
            d[name] = len(d) + 10
        return d[name]

    EXC_BASES = {
        '_ZTISt16bad_function_call': ['_ZTISt9exception'], '_ZTISt12bad_any_cast': ['_ZTISt8bad_cast', '_ZTISt9exception'],
        '_ZTISt18bad_variant_access': ['_ZTISt9exception'], '_ZTISt12future_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
        '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
        '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
        '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
        '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
        '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    }

    def exc_match(self, st, exc, tname):
        if exc['type'] is None:        # unknown user exception
            return z3.Bool('userexc:%d:%s' % (exc['id'], tname))
        if exc['type'] == tname:
            return True
        return tname in self.EXC_BASES.get(exc['type'], [])

    def throw(self, st, ty, obj=None):
        """start unwinding from the current instruction; ty = typeinfo symbol or None (unknown)"""
        self.gfld['excn'] = self.gfld.get('excn', 0) + 1
        st.exc = dict(type=ty, obj=obj or Ptr(self.fresh_base(st), 0), id=self.gfld['excn'])
        return self.unwind(st)

    def unwind(self, st, from_callee=False):
        # the top frame is at a call/invoke instruction (or resume) that is unwinding
        while True:
            if not st.frames:
                return 'unwound'
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.ip]
            if ins.op == 'invoke' and not (fr.tag == 'resuming'):
                self.goto(st, fr, ins.a['unwind'])
                return None
            # leave frame
            if any(r.collect is not None for r in fr.loops):
                raise PathEnd()
            if fr.on_unwind is not None:
                cb = fr.on_unwind
                st.frames.pop()
                r = cb(self, st)
                if r == 'handled':
                    return None
                if not st.frames:
                    return 'unwound'
                continue
            st.frames.pop()

    def exec_complex(self, st, fr, ins, done):
        op = ins.op
        a = ins.a
        O = self.operand
        if op == 'phi':
            # handled at goto; reaching here means already assigned
            fr.ip += 1
            return None
        if op == 'br':
            if a[0] is None:
                self.goto(st, fr, a[1])
                return None
            c = O(st, fr, ('i', 1), a[0])
            if isc(c):
                self.goto(st, fr, a[1] if c else a[2])
                return None
            t = self.decide(st, c)
            ln = fr.fn.mod.dbgloc.get(ins.dbg)
            st.trace += ('%s:%s %s' % (fr.fn.mod.norm(fr.fn.name), ln, t),)
            self.goto(st, fr, a[1] if t else a[2])
            return None
        if op == 'switch':
            v = O(st, fr, ins.ty, a[0])
            for cv, lbl in a[2]:
                k = cv[1] % (1 << ins.ty[1])
                e = eq(self.as_int(v), k)
                if e is True or (e is not False and self.decide(st, e)):
                    self.goto(st, fr, lbl)
                    return None
            self.goto(st, fr, a[1])
            return None
        if op == 'ret':
            v = None if a is None else O(st, fr, ins.ty, a)
            return self.do_ret(st, fr, v, done)
        if op == 'unreachable':
            raise PathEnd()
        if op == 'resume':
            if any(r.collect is not None for r in fr.loops):
                raise PathEnd()
            st.frames.pop()
            if not st.frames:
                done('unwind', st, st.exc)
                self.paths += 1
                return 'end'
            if fr.on_unwind is not None:
                r = fr.on_unwind(self, st)
                if r == 'handled':
                    return None
                if not st.frames:
                    done('unwind', st, st.exc)
                    return 'end'
            r = self.unwind(st)
            if r == 'unwound':
                done('unwind', st, st.exc)
                self.paths += 1
                return 'end'
            return None
        if op in ('call', 'invoke'):
            return self.do_call(st, fr, ins, done)
        raise Unsupported(op)

    def do_ret(self, st, fr, v, done):
        st.frames.pop()
        if fr.on_ret is not None:
            r = fr.on_ret(self, st, v)
            if is_tag(r, 'stop'):
                return 'end'
            if not st.frames:
                done('ret', st, v)
                self.paths += 1
                return 'end'
            return None
        if not st.frames:
            done('ret', st, v)
            self.paths += 1
            return 'end'
        self.finish_call(st, v)
        return None

    def finish_call(self, st, v):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.ip]
        if ins.dst is not None:
            fr.regs[ins.dst] = v
        if ins.op == 'invoke':
            self.goto(st, fr, ins.a['normal'])
        else:
            fr.ip += 1

    def do_call(self, st, fr, ins, done):
        a = ins.a
        mod = fr.fn.mod
        callee = a['callee']
        args = [self.operand(st, fr, ty, v) for ty, v, at in a['args']]
        if callee[0] == 'g':
            name = mod.aliases.get(callee[1], callee[1])
        elif callee[0] == 'asm':
            fr.ip += 1
            return None
        else:
            p = self.operand(st, fr, 'ptr', callee)
            name = None
            if isinstance(p, Ptr) and isc(p.base) and p.base in self.base_fn:
                name = self.base_fn[p.base]
            else:
                if self.exc_what is not None and isinstance(p, Ptr) and isc(p.base) and p.base == self.exc_what.base:
                    return self.after_model(st, Ptr(self.fresh_base(st), 0), done)      # std::exception::what()
                if self.icall_hook is None:
                    raise Unsupported('indirect call in %s' % mod.norm(fr.fn.name))
                r = self.icall_hook(self, st, p, args, ins)
                return self.after_model(st, r, done)
        r = self.call_named(st, name, args, ins, mod)
        return self.after_model(st, r, done)

    def after_model(self, st, r, done):
        if is_tag(r, '$pushed'):
            return None
        if is_tag(r, '$throw'):
            u = self.unwind(st)
            if u == 'unwound':
                done('unwind', st, st.exc)
                self.paths += 1
                return 'end'
            return None
        if is_tag(r, '$end'):
            raise PathEnd()
        self.finish_call(st, r)
        return None

    def lookup(self, name, mod):
        """returns ('contract'|'model', handler) or ('body', fn) or None"""
        norm = mod.norm(name) if name in mod.dem or name in mod.aliases else None
        if norm is None:
            for m in self.mods:
                if name in m.dem:
                    norm = m.norm(name)
                    break
            else:
                norm = name
        h = self.contracts.get(name) or self.contracts.get(norm)
        if h:
            return 'contract', h, norm
        h = self.models.get(norm)
        if h:
            return 'model', h, norm
        for rx, h in self.model_res:
            if rx.match(norm):
                return 'model', h, norm
        f = self.func(name, mod)
        if f:
            return 'body', f, norm
        return None, None, norm

    def call_named(self, st, name, args, ins, mod, on_ret=None):
        kind, h, norm = self.lookup(name, mod)
        if kind == 'contract':
            self.used_contracts.add(norm)
            r = h(self, st, Call(name, norm, args, ins, mod, self))
            if not is_tag(r, '$body'):
                return r
            kind, h = 'body', self.func(name, mod)
        elif kind == 'model':
            c = Call(name, norm, args, ins, mod, self)
            r = h(self, st, c)
            if not is_tag(r, '$body'):
                self.used_models.add(norm)
                return r
            kind, h = 'body', self.func(name, mod)
        if kind == 'body' and h is not None:
            self.push_call(st, h, args, on_ret=on_ret)
            return '$pushed'
        raise Unsupported('no contract, model or body for %s [%s]' % (norm, name))

    def goto(self, st, fr, target):
        fn = fr.fn
        # leaving loops
        while fr.loops and target not in fr.loops[-1].body:
            rec = fr.loops.pop()
            if rec.collect is not None:
                raise PathEnd()          # discovery / filtering pass: exits are not followed
        header = target in fn.loops
        insts = fn.blocks[target]
        vals = []
        for ins in insts:
            if ins.op != 'phi':
                break
            for v, b in ins.a:
                if b == fr.block:
                    vals.append((ins.dst, self.operand(st, fr, ins.ty, v), ins.ty))
                    break
            else:
                raise Unsupported('phi without edge')
        prev = fr.block
        for d, v, t in vals:
            fr.regs[d] = v
        fr.prev = prev
        fr.block = target
        fr.ip = len(vals)
        if header:
            if fr.loops and fr.loops[-1].header == target:
                self.back_edge(st, fr, fr.loops[-1])
            else:
                self.loop_enter(st, fr, target, [(d, t) for d, v, t in vals])

    # ---------------------------------------------------------------- loops
    def loop_enter(self, st, fr, header, phis):
        import loops
        loops.enter(self, st, fr, header, phis)

    def back_edge(self, st, fr, rec):
        import loops
        loops.back_edge(self, st, fr, rec)


class Call:
    __slots__ = ('name', 'norm', 'args', 'ins', 'mod', 'ex')

    def __init__(self, name, norm, args, ins, mod, ex):
        self.name = name; self.norm = norm; self.args = args; self.ins = ins; self.mod = mod; self.ex = ex

    @property
    def dem(self):
        d = self.mod.demangle(self.name)
        if d == self.name:
            for m in self.ex.mods:
                if self.name in m.dem:
                    return m.dem[self.name]
        return d

    @property
    def sret(self):
        at = self.ins.a['args']
        return bool(at) and 'sret' in at[0][2]

    @property
    def body(self):
        return self.ex.func(self.name, self.mod)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub',
          'fmul', 'fdiv', 'frem'}
SIMPLE = {'load', 'store', 'getelementptr', 'alloca', 'icmp', 'fcmp', 'select', 'extractvalue', 'insertvalue', 'freeze',
          'fneg', 'cmpxchg', 'atomicrmw', 'landingpad'} | BINOPS | set(ir.CASTS)

"""Trusted contracts (models) of the C++ standard library, stated over abstract views:
 sequences (length + node(i)), keyed containers (sequence + key index), strings as ids, mutex/condvar as monitors.
 Everything not listed here is executed from libstdc++'s own IR."""
import re
import z3
from term import *
from core import *
import core
import loops
from loops import uid_num

M = {}
MR = []


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def rmodel(rx):
    def d(f):
        MR.append((re.compile(rx), f))
        return f
    return d


# ------------------------------------------------------------------ sequences
def seqtag(q):
    """what the sequence holds, as far as a specification said so"""
    while q is not None:
        if q.tag is not None:
            return q.tag
        q = q.a if isinstance(q, SeqCat) else getattr(q, 'par', None)


class Seq:
    n = 0
    tmpl = None
    tag = None

    def node(self, ex, st, i):
        raise NotImplementedError

    def ixof(self, ex, st, b):
        raise NotImplementedError

    def contains(self, ex, st, k):
        raise Unsupported('contains on unkeyed sequence')

    def pos(self, ex, st, k):
        raise Unsupported('pos on unkeyed sequence')

    def havoc(self, ex, st):
        r = self.region() if ex.gfld.get('same_region') else None
        s = SeqInit(ex, st, self.kr, region=r)
        s.tag = seqtag(self)
        return s

    def region(self):
        q = self
        while q is not None:
            u = getattr(q, 'uid', None)
            if u:
                return u.split('@')[-1]
            q = q.a if isinstance(q, SeqCat) else getattr(q, 'par', None)

    def owns(self, ex, st, b):
        """b is a node of this sequence"""
        raise Unsupported('node membership')


class SeqInit(Seq):
    """unknown sequence; kr = key reader for keyed containers"""

    def __init__(self, ex, st, kr=None, uid=None, n=None, region=None):
        st.ctr += 1
        self.uid = uid or 's%d' % st.ctr
        if region and region != 'empty':
            self.uid += '@' + region
        self.kr = kr
        self.n = n if n is not None else ex.fresh_int(st, 'len', 0, (1 << 47))
        self.ground = None

    def node(self, ex, st, i):
        zi = z3.IntVal(i) if isc(i) else i
        t = uf('nd:' + self.uid)(zi)
        key = ('nd', t.get_id())
        if key not in st.memo:
            st.remember(key, t)
            setrange(t, 1, HEAP_LIMIT - 1)
            ex.assume(st, band(t > 0, t < HEAP_LIMIT, uf('RG')(t) == uid_num(self.uid), uf('IX:' + self.uid)(t) == zi))
            if self.kr is not None:
                k = self.kr(ex, st, Ptr(t, 0))
                kk = [z3.IntVal(x) if isc(x) else x for x in k]
                inb = band(le(0, i), lt(i, self.n))
                ex.assume(st, implies(inb, band(uf('has:' + self.uid, len(kk), True)(*kk), uf('pos:' + self.uid, len(kk))(*kk) == zi)))
            hk = ex.hooks.get('seq_node')
            if hk:
                hk(ex, st, self, i, t)
        return t

    def ixof(self, ex, st, b):
        if isc(b):
            b = z3.IntVal(b)
        t = uf('IX:' + self.uid)(b)
        return t

    def owns(self, ex, st, b):
        if isc(b):
            b = z3.IntVal(b)
        j = uf('IX:' + self.uid)(b)
        return band(uf('RG')(b) == uid_num(self.uid), le(0, j), lt(j, self.n))

    def contains(self, ex, st, k):
        kk = [z3.IntVal(x) if isc(x) else x for x in k]
        c = uf('has:' + self.uid, len(kk), True)(*kk)
        p = uf('pos:' + self.uid, len(kk))(*kk)
        key = ('has', c.get_id())
        if key not in st.memo:
            st.remember(key, c)
            setrange(p, 0, 1 << 47)
            nd = self.node(ex, st, p)
            nk = self.kr(ex, st, Ptr(nd, 0))
            ex.assume(st, band(p >= 0, p <= (1 << 47)))
            ex.assume(st, implies(c, band(lt(p, self.n), *[eq(a, b) for a, b in zip(nk, k)])))
        return c

    def pos(self, ex, st, k):
        self.contains(ex, st, k)
        kk = [z3.IntVal(x) if isc(x) else x for x in k]
        return uf('pos:' + self.uid, len(kk))(*kk)


class SeqFam(SeqInit):
    """one of a family of unknown sequences, told apart by their owner (e.g. maps inside the nodes of a map)"""

    def __init__(self, ex, st, fam, owner, kr=None):
        self.uid, self.owner, self.kr, self.ground = fam, z3.IntVal(owner) if isc(owner) else owner, kr, None
        KEEP.append(self.owner)
        self.n = uf('len:' + fam)(self.owner)
        setrange(self.n, 0, 1 << 47)
        ex.assume(st, band(self.n >= 0, self.n <= (1 << 47)))

    def node(self, ex, st, i):
        zi = z3.IntVal(i) if isc(i) else i
        t = uf('nd:' + self.uid, 2)(self.owner, zi)
        key = ('nd', t.get_id())
        if key not in st.memo:
            st.remember(key, t)
            setrange(t, 1, HEAP_LIMIT - 1)
            ex.assume(st, band(t > 0, t < HEAP_LIMIT, uf('RG')(t) == uid_num(self.uid), uf('IX:' + self.uid)(t) == zi, uf('OW:' + self.uid)(t) == self.owner))
            if self.kr is not None:
                kk = [z3.IntVal(x) if isc(x) else x for x in self.kr(ex, st, Ptr(t, 0))]
                inb = band(le(0, i), lt(i, self.n))
                ex.assume(st, implies(inb, band(uf('has:' + self.uid, len(kk) + 1, True)(self.owner, *kk), uf('pos:' + self.uid, len(kk) + 1)(self.owner, *kk) == zi)))
            hk = ex.hooks.get('seq_node')
            if hk:
                hk(ex, st, self, i, t)
        return t

    def owns(self, ex, st, b):
        if isc(b):
            b = z3.IntVal(b)
        return band(SeqInit.owns(self, ex, st, b), uf('OW:' + self.uid)(b) == self.owner)

    def contains(self, ex, st, k):
        kk = [z3.IntVal(x) if isc(x) else x for x in k]
        c = uf('has:' + self.uid, len(kk) + 1, True)(self.owner, *kk)
        p = uf('pos:' + self.uid, len(kk) + 1)(self.owner, *kk)
        key = ('has', c.get_id())
        if key not in st.memo:
            st.remember(key, c)
            setrange(p, 0, 1 << 47)
            nd = self.node(ex, st, p)
            nk = self.kr(ex, st, Ptr(nd, 0))
            ex.assume(st, band(p >= 0, p <= (1 << 47)))
            ex.assume(st, implies(c, band(lt(p, self.n), *[eq(a, b) for a, b in zip(nk, k)])))
        return c

    def pos(self, ex, st, k):
        self.contains(ex, st, k)
        kk = [z3.IntVal(x) if isc(x) else x for x in k]
        return uf('pos:' + self.uid, len(kk) + 1)(self.owner, *kk)


class SeqEmpty(Seq):
    n = 0

    def __init__(self, kr=None):
        self.kr = kr
        self.uid = 'empty'

    def node(self, ex, st, i):
        return ex.fresh_int(st, 'nonode', 1, HEAP_LIMIT - 1)

    def ixof(self, ex, st, b):
        return 0

    def owns(self, ex, st, b):
        return False

    def contains(self, ex, st, k):
        return False

    def pos(self, ex, st, k):
        return 0


class SeqIns(Seq):
    def __init__(self, par, p, base, key=None):
        self.par = par; self.p = p; self.base = base; self.n = add(par.n, 1); self.kr = par.kr; self.key = key

    def node(self, ex, st, i):
        if eq(i, self.p) is True:
            return self.base
        c = lt(i, self.p)
        e = eq(i, self.p)
        if c is True:
            return self.par.node(ex, st, i)
        # is i within bounds known to be == p?
        a = self.par.node(ex, st, i) if c is not False else None
        b = self.par.node(ex, st, sub(i, 1)) if e is not True and le(i, self.p) is not True else None
        r = self.base if b is None else ite(e, self.base, b)
        return r if a is None else ite(c, a, r)

    def ixof(self, ex, st, b):
        if eq(b, self.base) is True:
            return self.p
        j = self.par.ixof(ex, st, b)
        return ite(eq(b, self.base), self.p, ite(le(self.p, j), add(j, 1), j))

    def owns(self, ex, st, b):
        e = eq(b, self.base)
        return True if e is True else bor(e, self.par.owns(ex, st, b))

    def contains(self, ex, st, k):
        e = band(*[eq(a, b) for a, b in zip(k, self.key)])
        return bor(e, self.par.contains(ex, st, k))

    def pos(self, ex, st, k):
        e = band(*[eq(a, b) for a, b in zip(k, self.key)])
        if e is True:
            return self.p
        j = self.par.pos(ex, st, k)
        return ite(e, self.p, ite(le(self.p, j), add(j, 1), j))


class SeqDel(Seq):
    def __init__(self, par, p):
        self.par = par; self.p = p; self.n = sub(par.n, 1); self.kr = par.kr

    def node(self, ex, st, i):
        c = lt(i, self.p)
        if c is True:
            return self.par.node(ex, st, i)
        b = self.par.node(ex, st, add(i, 1))
        if c is False:
            return b
        return ite(c, self.par.node(ex, st, i), b)

    def ixof(self, ex, st, b):
        j = self.par.ixof(ex, st, b)
        return ite(lt(self.p, j), sub(j, 1), j)

    def owns(self, ex, st, b):
        return band(self.par.owns(ex, st, b), bnot(eq(self.par.ixof(ex, st, b), self.p)))

    def contains(self, ex, st, k):
        return band(self.par.contains(ex, st, k), bnot(eq(self.par.pos(ex, st, k), self.p)))

    def pos(self, ex, st, k):
        j = self.par.pos(ex, st, k)
        return ite(lt(self.p, j), sub(j, 1), j)


class SeqSlice(Seq):
    """[a, a+n) of parent"""
    def __init__(self, par, a, n):
        self.par = par; self.a = a; self.n = n; self.kr = None

    def node(self, ex, st, i):
        return self.par.node(ex, st, add(i, self.a))

    def ixof(self, ex, st, b):
        return sub(self.par.ixof(ex, st, b), self.a)

    def owns(self, ex, st, b):
        j = self.ixof(ex, st, b)
        return band(self.par.owns(ex, st, b), le(0, j), lt(j, self.n))


class SeqCat(Seq):
    def __init__(self, a, b):
        self.a = a; self.b = b; self.n = add(a.n, b.n); self.kr = None

    def node(self, ex, st, i):
        c = lt(i, self.a.n)
        if c is True:
            return self.a.node(ex, st, i)
        y = self.b.node(ex, st, sub(i, self.a.n))
        if c is False:
            return y
        return ite(c, self.a.node(ex, st, i), y)

    def ixof(self, ex, st, b):
        return ite(self.a.owns(ex, st, b), self.a.ixof(ex, st, b), add(self.a.n, self.b.ixof(ex, st, b)))

    def owns(self, ex, st, b):
        return bor(self.a.owns(ex, st, b), self.b.owns(ex, st, b))


class HM:
    """bulk copy: every base with RG(base)==uid reads through to the node of the source sequence"""
    __slots__ = ('uid', 'src', 'parent', 'base')

    def __init__(s, parent, uid, src):
        s.parent = parent; s.uid = uid; s.src = src; s.base = None

    def copied(s, ex, st, base):
        """(is base a node of the copy, the node it is a copy of)"""
        ent = ex.gfld.get('cpnode', {}).get(base.get_id())
        saved = st.heap
        st.heap = s.parent
        try:
            if ent is not None:
                if ent[0].uid != s.uid:
                    return False, None
                return True, s.src.node(ex, st, ent[1])
            return uf('RG')(base) == uid_num(s.uid), s.src.node(ex, st, uf('IX:' + s.uid)(base))
        finally:
            st.heap = saved

    def redirect(s, ex, st, base):
        r, b2 = s.copied(ex, st, base)
        return b2 if r is not False and ex.decide(st, r) else base

    def havoc_pred(s):
        n = uid_num(s.uid)
        return lambda B, K, O, S: (uf('RG')(B) == n) if not isc(B) else False


class SeqCopy(SeqInit):
    """deep copy: fresh nodes with equal contents"""

    def __init__(self, ex, st, src):
        st.ctr += 1
        self.uid = 'cp%d' % st.ctr
        self.kr = src.kr
        self.n = src.n
        self.src = src
        st.heap = HM(st.heap, self.uid, src)

    def node(self, ex, st, i):
        zi = z3.IntVal(i) if isc(i) else i
        t = uf('nd:' + self.uid)(zi)
        key = ('nd', t.get_id())
        if key not in st.memo:
            st.remember(key, t)
            setrange(t, 1, HEAP_LIMIT - 1)
            ex.gfld.setdefault('cpnode', {})[t.get_id()] = (self, i)
            KEEP.append(t)
            ex.assume(st, band(t > 0, t < HEAP_LIMIT, uf('RG')(t) == uid_num(self.uid), uf('IX:' + self.uid)(t) == zi))
            hk = ex.hooks.get('seq_node')
            if hk:
                hk(ex, st, self, i, t)
        return t

    def contains(self, ex, st, k):
        return self.src.contains(ex, st, k)

    def pos(self, ex, st, k):
        return self.src.pos(ex, st, k)


HC.bulk = HM


# ------------------------------------------------------------------ containers: plumbing
def seq_init(ex):
    def f(st, base, off, ep):
        # unknown container content; memoised per (epoch, base, off)
        key = ('seq', ep, base if isc(base) else base.get_id(), off if isc(off) else off.get_id())
        v = st.memo.get(key)
        if v is None:
            kr = ex.gfld.get('seqkr')
            hr = ex.hooks.get('seq_alias')
            v = hr(ex, st, Ptr(base, off), ep) if hr else None
            if v is not None:
                st.remember(key, v)
                return v
            v = SeqInit(ex, st, kr)
            KEEP.append(base)
            st.remember(key, v)
            hk = ex.hooks.get('seq_init')
            if hk:
                hk(ex, st, Ptr(base, off), v, ep)
        return v
    return f


def get_seq(ex, st, p, kr=None):
    old = ex.gfld.get('seqkr')
    ex.gfld['seqkr'] = kr
    try:
        return ex.read(st, p, 'seq', 0, seq_init(ex))
    finally:
        ex.gfld['seqkr'] = old


def set_seq(ex, st, p, s):
    ex.write(st, p, 'seq', 0, s)
    h = ex.hooks.get('seq_store')
    if h:
        h(ex, st, p, s)


def iter_idx(ex, st, it):
    cur = get_seq(ex, st, it.cont, getattr(it.seq, 'kr', None))
    if cur is it.seq:
        return it.idx
    return translate(ex, st, it.seq, cur, it.idx)


def translate(ex, st, old, cur, idx):
    # follow the chain from cur down to old
    chain = []
    q = cur
    while q is not old:
        chain.append(q)
        q = q.a if isinstance(q, SeqCat) else getattr(q, 'par', None)
        if q is None:
            break
    if q is old:
        i = idx
        for s in reversed(chain):
            if isinstance(s, SeqIns):
                i = ite(le(s.p, i), add(i, 1), i)
            elif isinstance(s, SeqDel):
                # iterator to the erased element is invalid
                ex.prove(st, 'memory-safety/iterator-valid', bnot(eq(i, s.p)), 'use of an iterator to an erased element')
                i = ite(lt(s.p, i), sub(i, 1), i)
            elif isinstance(s, SeqSlice):
                ex.prove(st, 'memory-safety/iterator-valid', band(le(s.a, i), le(i, add(s.a, s.n))), 'use of an iterator outside the kept range')
                i = sub(i, s.a)
            elif isinstance(s, SeqCat):
                i = ite(eq(i, s.a.n), s.n, i)      # end() stays end() (node-based containers; others do not grow under iteration)
            else:
                raise Unsupported('iterator across container rewrite')
        return i
    # container was replaced (assignment/clear/unknown change): end iterators only
    if ex.decide(st, eq(idx, old.n)):
        return cur.n
    b = old.node(ex, st, idx)
    if isinstance(cur, SeqEmpty):
        ex.fail(st, 'memory-safety/iterator-valid', 'iterator used after clear')
        raise PathEnd()
    return cur.ixof(ex, st, b)


def targs(dem, cls):
    """template args (top-level split) of the first occurrence of cls<...> in a demangled name"""
    d = dem.replace('std::__cxx11::', 'std::')
    i = d.find(cls + '<')
    if i < 0:
        return []
    i += len(cls) + 1
    depth = 1
    out = []
    cur = ''
    while i < len(d):
        c = d[i]
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            if not (c == '>' and d[i - 1] == '-'):
                depth -= 1
                if depth == 0:
                    break
        if c == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    out.append(cur.strip())
    return out


def int_size(t):
    return {'int': 4, 'unsigned int': 4, 'short': 2, 'unsigned short': 2, 'long': 8, 'unsigned long': 8,
            'char': 1, 'unsigned char': 1, 'bool': 1, 'signed char': 1, 'long long': 8, 'unsigned long long': 8}.get(t)


def key_reader(ex, t):
    t = re.sub(r'^const | const$|&$', '', t.strip()).strip()
    t = re.sub(r'^const | const$|&$', '', t).strip()
    krs = ex.gfld.get('keyreaders', {})
    if t in krs:
        return krs[t]
    c = ex.gfld.setdefault('krcache', {})
    if t in c:
        return c[t]
    n = int_size(t)
    f = None
    if n:
        def f(ex, st, p, n=n):
            return (ex.as_int(ex.read(st, p, 'm', n, lambda s, b, o, e: ex.init_int(s, b, o, e, n))),)
    elif t.startswith('std::basic_string<char') or t == 'std::string':
        def f(ex, st, p):
            return (get_str(ex, st, p),)
    elif t in ('std::type_index',) or t.endswith('*'):
        def f(ex, st, p):
            v = ex.read(st, p, 'm', 8, ex.init_ptr)
            return (ex.as_int(v),)
    elif t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<'):
        def f(ex, st, p):
            v = ex.read(st, p, 'm', 8, ex.init_ptr)
            return (ex.as_int(v),)
    if f is None:
        raise Unsupported('key type ' + t)
    c[t] = f
    return f


CONT = ('vector', 'deque', 'queue', 'list', 'map', 'set', 'unordered_map', 'unordered_set', 'stack', 'multimap', 'priority_queue')


class Cx:
    """container call context"""

    def __init__(self, ex, st, c, shift=0):
        self.ex, self.st, self.c = ex, st, c
        self.sret = None
        a = list(c.args)
        if c.sret:
            self.sret = a.pop(0)
        self.this = a[0]
        self.args = a[1:]
        m = re.match(r'std::(\w+)::', c.norm)
        self.cls = m.group(1)
        self._t = None

    @property
    def t(self):
        if self._t is None:
            self._t = targs(self.c.dem, 'std::' + self.cls)
        return self._t

    @property
    def keyed(self):
        return self.cls in ('map', 'set', 'unordered_map', 'unordered_set')

    @property
    def kr(self):
        if not self.keyed:
            return None
        return key_reader(self.ex, self.t[0])

    def seq(self):
        self.ex.deref_check(self.st, self.this, 'container access')
        h = self.ex.hooks.get('container_access')
        if h:
            h(self.ex, self.st, self.this, self.c)
        return get_seq(self.ex, self.st, self.this, self.kr)

    def set(self, s):
        set_seq(self.ex, self.st, self.this, s)

    def ret_iter(self, idx, seq):
        v = IterVal(self.this, idx, seq)
        return self.ret_val(v)

    def ret_val(self, v):
        if self.sret is not None:
            self.ex.write(self.st, self.sret, 'm', 8, v)
            return None
        return v

    def arg_iter(self, i):
        return as_iter(self.ex, self.st, self.args[i])


def as_iter(ex, st, v):
    if isinstance(v, IterVal):
        return v
    if isinstance(v, Ptr):
        w = ex.read(st, v, 'm', 8, ex.init_ptr)
        if isinstance(w, IterVal):
            return w
    raise Unsupported('iterator expected, got %r' % (v,))


def find_construct(ex, fn, seen=None, depth=0, rx=re.compile(r'(allocator_traits|_Construct|__new_allocator)')):
    """the construct<T,Args...> callee reachable from a libstdc++ container member"""
    cache = ex.gfld.setdefault('ctorcache', {})
    if depth == 0 and fn.name in cache:
        return cache[fn.name]
    if seen is None:
        seen = set()
    todo = [fn]
    res = None
    while todo and res is None:
        nxt = []
        for f in todo:
            if f.name in seen:
                continue
            seen.add(f.name)
            for l in f.lines:
                for g in re.findall(r'(?:call|invoke) [^@]*@("[^"]+"|[\w.$]+)\(', l):
                    g = g.strip('"')
                    nm = f.mod.norm(g)
                    if nm in ('std::allocator_traits::construct', 'std::_Construct', 'std::__new_allocator::construct'):
                        res = ex.func(g, f.mod)
                        break
                    h = ex.func(g, f.mod)
                    if h and nm.startswith(('std::', '__gnu_cxx::')):
                        nxt.append(h)
                if res:
                    break
            if res:
                break
        todo = nxt
    cache[fn.name] = res
    return res


def called_in(ex, fn, pred):
    """the function called directly in the body of fn whose name satisfies pred"""
    for l in fn.lines:
        for g in re.findall(r'(?:call|invoke) [^@]*@("[^"]+"|[\w.$]+)\(', l):
            g = g.strip('"')
            if pred(fn.mod.norm(g)):
                return ex.func(g, fn.mod)
    return None


def construct_new(cx, args, k, extra=None):
    """allocate a node and run the real element constructor with args, then k(base)"""
    ex, st, c = cx.ex, cx.st, cx.c
    base = ex.fresh_base(st)
    p = Ptr(base, 0)
    body = c.body
    con = find_construct(ex, body) if body else None
    if con is None:
        raise Unsupported('no constructor found for ' + c.norm)
    con.parse()

    def done(ex, st2, v):
        r = k(st2, base)
        ex.finish_call(st2, r)
    al = Ptr(ex.fresh_base(st), 0)
    cargs = [al, p] + list(args) if len(con.params) == len(args) + 2 else [p] + list(args)
    if len(con.params) != len(cargs):
        raise Unsupported('constructor arity for ' + c.norm)
    ex.push_call(st, con, cargs, on_ret=done)
    return '$pushed'


# ------------------------------------------------------------------ containers: members
CM = {}


def cmodel(*names):
    def d(f):
        for n in names:
            CM[n] = f
        return f
    return d


@rmodel(r'std::(%s)::(?!iterator|const_iterator)([~\w]+|operator(=|\[\]))$' % '|'.join(CONT))
def container_member(ex, st, c):
    m = re.match(r'std::(\w+)::(.+)$', c.norm)
    cls, meth = m.group(1), m.group(2)
    cx = Cx(ex, st, c)
    if meth == cls:
        f = CM['ctor']
    elif meth == '~' + cls:
        f = CM['dtor']
    elif meth.startswith('_'):
        return '$body'
    else:
        f = CM.get(meth)
    if f is None:
        raise Unsupported('container member ' + c.norm)
    return f(cx)


@cmodel('ctor')
def c_ctor(cx):
    ex, st = cx.ex, cx.st
    kr = cx.kr
    ar = [a for a in cx.args]
    sig = cx.c.dem
    inner = sig[sig.rfind('('):]
    pm = param_text(sig)
    if not pm or re.match(r'^std::allocator', pm) or re.match(r'^(std::less|std::greater)', pm):
        cx.set(SeqEmpty(kr))
        return None
    if cx.cls == 'priority_queue' or (cx.cls == 'queue' and pm.startswith('std::deque')) or pm.count('Compare') and not pm.startswith('std::'):
        if not re.match(r'^(std::%s<|std::deque<)' % cx.cls, pm):
            cx.set(SeqEmpty(kr))
            return None
    if re.match(r'^std::(initializer_list)', pm):
        return ctor_initlist(cx)
    src = ar[0] if ar else None
    if isinstance(src, Ptr) and pm.endswith('&&'):
        s = get_seq(ex, st, src, kr)
        cx.set(s)
        ex.write(st, src, 'seq', 0, SeqEmpty(kr))
        return None
    if isinstance(src, Ptr) and (pm.endswith('const&') or pm.endswith('&')):
        s = get_seq(ex, st, src, kr)
        if isinstance(s, SeqEmpty):
            cx.set(s)
        else:
            cx.set(SeqCopy(ex, st, s))
        return None
    if cx.cls == 'vector' and pm.startswith('unsigned long'):
        s = SeqInit(ex, st, None, n=ex.as_int(ar[0]))
        cx.set(s)
        return None
    raise Unsupported('constructor ' + sig)


def param_text(dem):
    """text of the first parameter of a demangled signature"""
    # find the last top-level '(' group
    d = dem
    depth = 0
    i = len(d) - 1
    # strip trailing qualifiers
    while i >= 0 and d[i] != ')':
        i -= 1
    j = i
    depth = 0
    while j >= 0:
        if d[j] == ')':
            depth += 1
        elif d[j] == '(':
            depth -= 1
            if depth == 0:
                break
        j -= 1
    body = d[j + 1:i].replace('std::__cxx11::', 'std::')
    depth = 0
    for k, ch in enumerate(body):
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        elif ch == ',' and depth == 0:
            return body[:k]
    return body


def ctor_initlist(cx):
    """initializer_list passed as (ptr, len) or pointer to struct"""
    ex, st = cx.ex, cx.st
    a = cx.args
    if len(a) >= 2 and isinstance(a[0], Ptr) and isc(a[1]) if not isinstance(a[1], Ptr) else False:
        arr, n = a[0], a[1]
    else:
        raise Unsupported('initializer_list constructor')
    esz = elem_size(cx)
    s = SeqEmpty(cx.kr)
    for i in range(n):
        b = ex.fresh_base(st)
        ex.copy_region(st, Ptr(b, 0), arr.at(i * esz), esz)
        if cx.keyed:
            s = SeqIns(s, s.n, b, cx.kr(ex, st, Ptr(b, 0)))
        else:
            s = SeqIns(s, s.n, b)
    cx.set(s)
    return None


def elem_size(cx):
    """size of the element type, from the registered table or the type name"""
    t = cx.t[0]
    n = int_size(t)
    if n:
        return n
    tab = cx.ex.gfld.get('sizes', {})
    if t in tab:
        return tab[t]
    t2 = t
    for m in cx.ex.mods:
        for pre in ('class.', 'struct.'):
            if pre + t2 in m.type_lines:
                return m.size(('named', pre + t2))
    if t.startswith('std::basic_string'):
        return 32
    if t.startswith('std::shared_ptr') or t.startswith('std::weak_ptr'):
        return 16
    if t.startswith('std::unique_ptr') or t.endswith('*'):
        return 8
    if t.startswith('std::function'):
        return 32
    raise Unsupported('element size of ' + t)


@cmodel('dtor')
def c_dtor(cx):
    h = cx.ex.hooks.get('container_dtor')
    if h:
        h(cx.ex, cx.st, cx)
    return None


@cmodel('operator=')
def c_assign(cx):
    ex, st = cx.ex, cx.st
    old = cx.seq()
    src = cx.args[0]
    pm = param_text(cx.c.dem)
    s = get_seq(ex, st, src, cx.kr)
    if pm.endswith('&&'):
        if ex.decide(st, ex.ptr_eq(src, cx.this)):
            return cx.this
        cx.set(s)
        ex.write(st, src, 'seq', 0, SeqEmpty(cx.kr))
    elif 'initializer_list' in pm:
        raise Unsupported('assign initializer_list')
    else:
        cx.set(s if isinstance(s, SeqEmpty) else SeqCopy(ex, st, s))
    return cx.this


@cmodel('swap')
def c_swap(cx):
    ex, st = cx.ex, cx.st
    a = cx.seq()
    b = get_seq(ex, st, cx.args[0], cx.kr)
    cx.set(b)
    set_seq(ex, st, cx.args[0], a)
    return None


@cmodel('empty')
def c_empty(cx):
    return eq(cx.seq().n, 0)


@cmodel('size')
def c_size(cx):
    return cx.seq().n


@cmodel('capacity')
def c_capacity(cx):
    return cx.ex.fresh_int(cx.st, 'cap', 0, 1 << 47)


@cmodel('reserve', 'shrink_to_fit')
def c_nop(cx):
    cx.seq()
    return None


@cmodel('clear')
def c_clear(cx):
    cx.seq()
    cx.set(SeqEmpty(cx.kr))
    return None


@cmodel('begin', 'cbegin')
def c_begin(cx):
    return cx.ret_iter(0, cx.seq())


@cmodel('end', 'cend')
def c_end(cx):
    s = cx.seq()
    return cx.ret_iter(s.n, s)


def need_nonempty(cx, s, what):
    cx.ex.prove(cx.st, 'memory-safety/container-nonempty', lt(0, s.n), what + ' on empty container')


@cmodel('front')
def c_front(cx):
    s = cx.seq()
    need_nonempty(cx, s, 'front')
    return Ptr(s.node(cx.ex, cx.st, 0), 0)


@cmodel('top')
def c_top(cx):
    s = cx.seq()
    need_nonempty(cx, s, 'top')
    return Ptr(s.node(cx.ex, cx.st, pq_top(cx, s)), 0)


@cmodel('back')
def c_back(cx):
    s = cx.seq()
    need_nonempty(cx, s, 'back')
    return Ptr(s.node(cx.ex, cx.st, sub(s.n, 1)), 0)


@cmodel('operator[]')
def c_index(cx):
    ex, st = cx.ex, cx.st
    if cx.keyed:
        return map_index(cx)
    s = cx.seq()
    i = ex.as_int(cx.args[0])
    ex.prove(st, 'memory-safety/index-in-bounds', lt(i, s.n), 'operator[]')
    return Ptr(s.node(ex, st, i), 0)


@cmodel('at')
def c_at(cx):
    ex, st = cx.ex, cx.st
    if cx.keyed:
        s = cx.seq()
        k = cx.kr(ex, st, cx.args[0])
        if ex.decide(st, s.contains(ex, st, k)):
            return Ptr(s.node(ex, st, s.pos(ex, st, k)), val_off(cx))
        ex.throw(st, '_ZTISt12out_of_range')
        return '$throw'
    s = cx.seq()
    i = ex.as_int(cx.args[0])
    if ex.decide(st, lt(i, s.n)):
        return Ptr(s.node(ex, st, i), 0)
    ex.throw(st, '_ZTISt12out_of_range')
    return '$throw'


@cmodel('push_back', 'push', 'emplace', 'emplace_back', 'push_front', 'emplace_front')
def c_push(cx):
    ex, st = cx.ex, cx.st
    meth = cx.c.norm.split('::')[-1]
    if cx.keyed:
        return map_emplace(cx)
    if cx.cls in ('vector', 'list', 'deque') and meth == 'emplace':
        raise Unsupported('positional emplace')
    cx.seq()

    def k(st2, base):
        s = get_seq(ex, st2, cx.this, None)
        if cx.cls == 'priority_queue':
            p = ex.fresh_int(st2, 'pqpos', 0, 1 << 47)
            ex.assume(st2, le(p, s.n))
            s2 = SeqIns(s, p, base)
        elif meth in ('push_front', 'emplace_front'):
            s2 = SeqIns(s, 0, base)
        else:
            s2 = SeqIns(s, s.n, base)
        set_seq(ex, st2, cx.this, s2)
        h = ex.hooks.get('pushed')
        if h:
            h(ex, st2, cx.this, base)
        if meth in ('emplace_back', 'emplace', 'emplace_front') and cx.c.ins.ty == 'ptr':
            return Ptr(base, 0)
        return None
    return construct_new(cx, cx.args, k)


@cmodel('pop')
def c_pop(cx):
    s = cx.seq()
    need_nonempty(cx, s, 'pop')
    if cx.cls == 'priority_queue':
        p = pq_top(cx, s)
    elif cx.cls == 'stack':
        p = sub(s.n, 1)
    else:
        p = 0
    h = cx.ex.hooks.get('popped')
    if h:
        h(cx.ex, cx.st, cx.this, s.node(cx.ex, cx.st, p))
    cx.set(SeqDel(s, p))
    return None


def pq_top(cx, s):
    """index of a maximal element of a priority_queue (ordering facts supplied by a hook)"""
    ex, st = cx.ex, cx.st
    key = ('pqtop', id(s))
    v = st.memo.get(key)
    if v is None:
        v = ex.fresh_int(st, 'pqtop', 0, 1 << 47)
        ex.assume(st, lt(v, s.n))
        st.remember(key, v)
        h = ex.hooks.get('pqtop')
        if h:
            h(ex, st, cx.this, s, v)
    return v


@cmodel('pop_back')
def c_pop_back(cx):
    s = cx.seq()
    need_nonempty(cx, s, 'pop_back')
    cx.set(SeqDel(s, sub(s.n, 1)))
    return None


@cmodel('pop_front')
def c_pop_front(cx):
    s = cx.seq()
    need_nonempty(cx, s, 'pop_front')
    cx.set(SeqDel(s, 0))
    return None


@cmodel('resize')
def c_resize(cx):
    ex, st = cx.ex, cx.st
    s = cx.seq()
    n = ex.as_int(cx.args[0])
    if ex.decide(st, le(n, s.n)):
        cx.set(SeqSlice(s, 0, n))
    else:
        t = SeqInit(ex, st, None, n=sub(n, s.n))
        cx.set(SeqCat(s, t))
    return None


@cmodel('erase')
def c_erase(cx):
    ex, st = cx.ex, cx.st
    s = cx.seq()
    pm = param_text(cx.c.dem)
    if 'iterator' in pm:
        if len(cx.args) == 2:
            a, b = cx.arg_iter(0), cx.arg_iter(1)
            ia, ib = iter_idx(ex, st, a), iter_idx(ex, st, b)
            ex.prove(st, 'memory-safety/erase-range', band(le(0, ia), le(ia, ib), le(ib, s.n)), 'erase range')
            if ex.decide(st, eq(ia, ib)):
                return cx.ret_iter(ia, s)
            if ex.decide(st, eq(ib, s.n)):
                s2 = SeqSlice(s, 0, ia)
            else:
                s2 = SeqCat(SeqSlice(s, 0, ia), SeqSlice(s, ib, sub(s.n, ib)))
            cx.set(s2)
            return cx.ret_iter(ia, s2)
        it = cx.arg_iter(0)
        i = iter_idx(ex, st, it)
        ex.prove(st, 'memory-safety/erase-valid', band(le(0, i), lt(i, s.n)), 'erase(end)')
        h = ex.hooks.get('erased')
        if h:
            h(ex, st, cx.this, s.node(ex, st, i))
        s2 = SeqDel(s, i)
        cx.set(s2)
        return cx.ret_iter(i, s2)
    k = cx.kr(ex, st, cx.args[0])
    if ex.decide(st, s.contains(ex, st, k)):
        p = s.pos(ex, st, k)
        h = ex.hooks.get('erased')
        if h:
            h(ex, st, cx.this, s.node(ex, st, p))
        cx.set(SeqDel(s, p))
        return 1
    return 0


@cmodel('find')
def c_find(cx):
    ex, st = cx.ex, cx.st
    s = cx.seq()
    k = key_of_arg(cx)
    if ex.decide(st, s.contains(ex, st, k)):
        return cx.ret_iter(s.pos(ex, st, k), s)
    return cx.ret_iter(s.n, s)


def key_of_arg(cx):
    """key of a lookup argument; transparent comparators may be registered"""
    ex, st = cx.ex, cx.st
    tl = ex.gfld.get('lookup', {}).get((cx.t[0]))
    if tl and re.search(r'::(find|count|contains)<', cx.c.dem):
        return tl(ex, st, cx.args[0])
    return cx.kr(ex, st, cx.args[0])


@cmodel('count', 'contains')
def c_count(cx):
    s = cx.seq()
    k = key_of_arg(cx)
    r = s.contains(cx.ex, cx.st, k)
    return ite(r, 1, 0) if cx.c.norm.endswith('count') else r


def val_off(cx):
    """offset of the mapped value inside pair<const K,V>"""
    ex = cx.ex
    tab = ex.gfld.get('val_off', {})
    K = re.sub(r'^const | const$', '', cx.t[0])
    V = cx.t[1]
    key = '%s|%s' % (K, V)
    if key in tab:
        return tab[key]
    n = int_size(K)
    ks = n if n else (32 if K.startswith('std::basic_string') or K == 'std::string' else (8 if K == 'std::type_index' or K.endswith('*') else None))
    if ks is None:
        for m in ex.mods:
            for pre in ('class.', 'struct.'):
                if pre + K in m.type_lines:
                    ks = m.size(('named', pre + K))
    if ks is None:
        raise Unsupported('key size ' + K)
    va = int_size(V) or 8
    return (ks + va - 1) // va * va


def insert_key(cx, st, s, base, k):
    ex = cx.ex
    p = ex.fresh_int(st, 'inspos', 0, 1 << 47)
    ex.assume(st, le(p, s.n))
    return SeqIns(s, p, base, k), p


def map_index(cx):
    ex, st = cx.ex, cx.st
    s = cx.seq()
    kp = cx.args[0]
    k = cx.kr(ex, st, kp)
    vo = val_off(cx)
    if ex.decide(st, s.contains(ex, st, k)):
        return Ptr(s.node(ex, st, s.pos(ex, st, k)), vo)
    # insert value-initialised: run the real pair constructor (piecewise)
    tup = Ptr(ex.fresh_base(st), 0)
    ex.write(st, tup, 'm', 8, kp)
    e1 = Ptr(ex.fresh_base(st), 0)
    e2 = Ptr(ex.fresh_base(st), 0)

    def kk(st2, base):
        s1 = get_seq(ex, st2, cx.this, cx.kr)
        s2, p = insert_key(cx, st2, s1, base, k)
        set_seq(ex, st2, cx.this, s2)
        h = ex.hooks.get('inserted')
        if h:
            h(ex, st2, cx.this, base)
        return Ptr(base, vo)
    return construct_new(cx, [e1, tup, e2], kk)


@cmodel('insert', 'try_emplace', 'insert_or_assign')
def map_emplace(cx):
    ex, st = cx.ex, cx.st
    meth = cx.c.norm.split('::')[-1]
    if not cx.keyed:
        return seq_insert(cx)
    s = cx.seq()
    a = cx.args
    if meth == 'insert' and 'initializer_list' in param_text(cx.c.dem):
        raise Unsupported('insert initializer_list')
    if cx.cls in ('set', 'unordered_set') or meth in ('emplace', 'try_emplace', 'insert_or_assign') or (meth == 'insert' and cx.cls in ('map', 'unordered_map')):
        kt = cx.t[0]
        # for emplace the first argument may be of a type convertible to the key
        fk = ex.gfld.get('emplace_key', {}).get(cx.c.norm)
        k = (fk or cx.kr)(ex, st, a[0])
    if ex.decide(st, s.contains(ex, st, k)):
        p = s.pos(ex, st, k)
        if meth == 'insert_or_assign':
            asg = called_in(ex, cx.c.body, lambda nm: nm.endswith('::operator=') and 'iterator' not in nm)
            it = IterVal(cx.this, p, s)
            if asg is None:
                # a scalar: the body loads it from the argument and stores it in the second of the pair
                for l, l2 in zip(cx.c.body.lines, cx.c.body.lines[1:]):
                    if re.search(r'= getelementptr inbounds [^,]*"struct\.std::pair[^,]*, ptr %[\w.]+, i32 0, i32 1\b', l):
                        m = re.match(r'\s*store (i\d+|ptr|float|double) (%[\w.]+), ptr ' + re.escape(l.split('=')[0].strip()) + r'[,\s]', l2)
                        if m:
                            ty = ('i', int(m[1][1:])) if m[1][0] == 'i' else m[1]
                            ex.store(st, Ptr(s.node(ex, st, p), val_off(cx)), ty, ex.load(st, a[1], ty, cx.c.body.mod), cx.c.body.mod)
                            return ret_pair(cx, it, False)
                raise Unsupported('insert_or_assign of this type')
            ex.push_call(st, asg, [Ptr(s.node(ex, st, p), val_off(cx)), a[1]], on_ret=lambda ex, st2, v: ex.finish_call(st2, ret_pair(cx, it, False, st2)))
            return '$pushed'
        return ret_pair(cx, IterVal(cx.this, p, s), False)

    def kk(st2, base):
        s1 = get_seq(ex, st2, cx.this, cx.kr)
        k2 = cx.kr(ex, st2, Ptr(base, 0))
        s2, p = insert_key(cx, st2, s1, base, k2)
        set_seq(ex, st2, cx.this, s2)
        h = ex.hooks.get('inserted')
        if h:
            h(ex, st2, cx.this, base)
        return ret_pair(cx, IterVal(cx.this, p, s2), True, st2)
    if meth in ('try_emplace', 'insert_or_assign'):
        # node pair(piecewise, forward_as_tuple(k), forward_as_tuple(args...))
        def tuplep(x):
            t = Ptr(ex.fresh_base(st), 0)
            for i, v in enumerate(reversed(x)):
                ex.write(st, t.at(8 * i), 'm', 8, v)
            return t
        e1 = Ptr(ex.fresh_base(st), 0)
        con = find_construct(ex, cx.c.body)
        con.parse()
        if len(con.params) == 5:
            return construct_new(cx, [e1, tuplep([a[0]]), tuplep(a[1:])], kk)
    return construct_new(cx, a, kk)


def ret_pair(cx, it, b, st=None):
    ex = cx.ex
    st = st or cx.st
    if cx.sret is not None:
        ex.write(st, cx.sret, 'm', 8, it)
        ex.write(st, cx.sret.at(8), 'm', 1, 1 if b else 0)
        return None
    return [it, 1 if b else 0]


def seq_insert(cx):
    ex, st = cx.ex, cx.st
    s = cx.seq()
    it = cx.arg_iter(0)
    i = iter_idx(ex, st, it)
    if len(cx.args) == 2:
        def k(st2, base):
            s1 = get_seq(ex, st2, cx.this, None)
            s2 = SeqIns(s1, i, base)
            set_seq(ex, st2, cx.this, s2)
            return IterVal(cx.this, i, s2)
        return construct_new(cx, cx.args[1:], k)
    raise Unsupported('range insert')


# ------------------------------------------------------------------ iterators
ITCLS = r'(__gnu_cxx::__normal_iterator|std::_(?:Rb_tree|List|Deque)_(?:const_)?iterator|std::__detail::_Node_(?:const_)?iterator|std::__detail::_Node_iterator_base)'


def val_of_iter(ex, st, c, p):
    v = ex.read(st, p, 'm', 8, ex.init_ptr)
    if not isinstance(v, IterVal):
        raise Fallback()
    return v


class Fallback(Exception):
    pass


@rmodel(ITCLS + r'::(operator\*|operator->)$')
def it_deref(ex, st, c):
    try:
        it = val_of_iter(ex, st, c, c.args[0])
    except Fallback:
        return '$body'
    i = iter_idx(ex, st, it)
    s = get_seq(ex, st, it.cont, getattr(it.seq, 'kr', None))
    ex.prove(st, 'memory-safety/iterator-deref', band(le(0, i), lt(i, s.n)), 'dereference of end/invalid iterator')
    nd = s.node(ex, st, i)
    h = ex.hooks.get('it_deref')
    if h:
        h(ex, st, it.cont, s, i, nd)
    return Ptr(nd, 0)


def it_step(ex, st, c, d, post):
    a = list(c.args)
    sret = None
    if c.sret:
        sret = a.pop(0)
    p = a[0]
    try:
        it = val_of_iter(ex, st, c, p)
    except Fallback:
        return '$body'
    i = iter_idx(ex, st, it)
    s = get_seq(ex, st, it.cont, getattr(it.seq, 'kr', None))
    if d > 0:
        ex.prove(st, 'memory-safety/iterator-advance', lt(i, s.n), 'increment past end')
    else:
        ex.prove(st, 'memory-safety/iterator-advance', lt(0, i), 'decrement before begin')
    nv = IterVal(it.cont, add(i, d), s)
    ex.write(st, p, 'm', 8, nv)
    if post:
        ov = IterVal(it.cont, i, s)
        if sret is not None:
            ex.write(st, sret, 'm', 8, ov)
            return None
        return ov
    return p


@rmodel(ITCLS + r'::operator\+\+$')
def it_inc(ex, st, c):
    return it_step(ex, st, c, 1, len(c.args) - (1 if c.sret else 0) > 1)


@rmodel(ITCLS + r'::operator--$')
def it_dec(ex, st, c):
    return it_step(ex, st, c, -1, len(c.args) - (1 if c.sret else 0) > 1)


@rmodel(ITCLS + r'::(operator\+|operator-)$')
def it_plus(ex, st, c):
    a = list(c.args)
    sret = a.pop(0) if c.sret else None
    try:
        it = val_of_iter(ex, st, c, a[0])
    except Fallback:
        return '$body'
    i = iter_idx(ex, st, it)
    s = get_seq(ex, st, it.cont, getattr(it.seq, 'kr', None))
    d = signed(ex.as_int(a[1]), 64)
    if c.norm.endswith('-'):
        d = sub(0, d)
    v = IterVal(it.cont, add(i, d), s)
    if sret is not None:
        ex.write(st, sret, 'm', 8, v)
        return None
    return v


@rmodel(ITCLS + r'::(_List_const_iterator|_Rb_tree_const_iterator|_Deque_iterator|__normal_iterator|_List_iterator|_Rb_tree_iterator)$')
def it_copy(ex, st, c):
    if len(c.args) >= 2:
        src = c.args[1]
        v = src if isinstance(src, IterVal) else (ex.read(st, src, 'm', 8, ex.init_ptr) if isinstance(src, Ptr) and not (isc(src.base) and src.base == 0) else None)
        if isinstance(v, IterVal):
            ex.write(st, c.args[0], 'm', 8, v)
            return None
    return '$body'


def it_eq(ex, st, a, b):
    ia, ib = iter_idx(ex, st, a), iter_idx(ex, st, b)
    return eq(ia, ib)


@rmodel(r'(std|__gnu_cxx|std::__detail)::operator(==|!=)$')
def op_eq(ex, st, c):
    a = c.args
    if len(a) == 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
        d = c.dem
        if 'iterator' in param_text(d):
            x = ex.read(st, a[0], 'm', 8, ex.init_ptr)
            y = ex.read(st, a[1], 'm', 8, ex.init_ptr)
            if isinstance(x, IterVal) and isinstance(y, IterVal):
                r = it_eq(ex, st, x, y)
                return r if c.norm.endswith('==') else bnot(r)
        pm = param_text(d)
        if pm.startswith('std::basic_string<char'):
            return str_eq_op(ex, st, c)
    elif len(a) == 2 and isinstance(a[0], IterVal):
        r = it_eq(ex, st, a[0], as_iter(ex, st, a[1]))
        return r if c.norm.endswith('==') else bnot(r)
    if 'basic_string' in param_text(c.dem):
        return str_eq_op(ex, st, c)
    return '$body'


@rmodel(ITCLS + r'::operator(==|!=)$')
def mem_eq(ex, st, c):
    a = c.args
    try:
        x, y = as_iter(ex, st, a[0]), as_iter(ex, st, a[1])
    except Unsupported:
        return '$body'
    r = it_eq(ex, st, x, y)
    return r if c.norm.endswith('==') else bnot(r)


@model('std::begin', 'std::end', 'std::cbegin', 'std::cend')
def std_begin(ex, st, c):
    return '$body'


@model('std::next', 'std::prev')
def std_next(ex, st, c):
    a = list(c.args)
    sret = a.pop(0) if c.sret else None
    it = as_iter(ex, st, a[0])
    i = iter_idx(ex, st, it)
    s = get_seq(ex, st, it.cont, getattr(it.seq, 'kr', None))
    d = signed(ex.as_int(a[1]), 64) if len(a) > 1 else 1
    if c.norm.endswith('prev'):
        d = sub(0, d)
    v = IterVal(it.cont, add(i, d), s)
    if sret is not None:
        ex.write(st, sret, 'm', 8, v)
        return None
    return v


@model('std::distance')
def std_distance(ex, st, c):
    try:
        a, b = as_iter(ex, st, c.args[0]), as_iter(ex, st, c.args[1])
    except Unsupported:
        return '$body'
    return wrap(sub(iter_idx(ex, st, b), iter_idx(ex, st, a)), 64)


# ------------------------------------------------------------------ strings (abstract ids)
_strs = {}


def str_id(b):
    if isinstance(b, str):
        b = b.encode()
    if b == b'':
        return 0
    i = _strs.get(b)
    if i is None:
        i = _strs[b] = 1000 + len(_strs)
    return i


def str_init(ex):
    def f(st, base, off, ep):
        t = ex.init_int(st, base, off, ep, 6, 's')
        return t
    return f


def get_str(ex, st, p):
    return ex.read(st, p, 'str', 0, str_init(ex))


def set_str(ex, st, p, v):
    ex.write(st, p, 'str', 0, v)


def slen(ex, st, s):
    if isc(s):
        for b, i in _strs.items():
            if i == s:
                return len(b)
        if s == 0:
            return 0
    zs = s if not isc(s) else z3.IntVal(s)
    t = uf('slen')(zs)
    key = ('slen', t.get_id())
    if key not in st.memo:
        st.remember(key, t)
        setrange(t, 0, 1 << 47)
        ex.assume(st, band(t >= 0, t <= (1 << 47), (t == 0) == zb(eq(s, 0))))
    return t


def concat(ex, st, a, b):
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    za, zb_ = [z3.IntVal(x) if isc(x) else x for x in (a, b)]
    t = uf('concat', 2)(za, zb_)
    key = ('cat', t.get_id())
    if key not in st.memo:
        st.remember(key, t)
        setrange(t, 0, (1 << 48) - 1)
        ex.assume(st, band(t >= 0, t < (1 << 48)))
        ex.assume(st, eq(slen(ex, st, t), add(slen(ex, st, a), slen(ex, st, b))))
        # concatenation is injective in its second argument for a fixed first one
        ex.assume(st, uf('catsuf', 2)(za, t) == zb_)
    return t


def cstr_value(ex, st, p):
    """string id of a NUL-terminated char*"""
    if isinstance(p, Ptr) and isinstance(p.base, z3.ExprRef) and z3.is_app_of(p.base, z3.Z3_OP_ITE):
        c, a, b = p.base.children()
        num = lambda x: x.as_long() if z3.is_int_value(x) else x
        return ite(c, cstr_value(ex, st, Ptr(num(a), p.off)), cstr_value(ex, st, Ptr(num(b), p.off)))
    if isinstance(p, Ptr) and isc(p.base) and p.base in ex.base_global and isc(p.off):
        mod, name = ex.base_global[p.base]
        gi = mod.global_init(name)
        if gi and gi[1] and gi[1][0] == 'str':
            b = gi[1][1][p.off:]
            return str_id(b.split(b'\0')[0])
        if gi and gi[1] and gi[1][0] == 'zero':
            return 0
    v = ex.read(st, Ptr(p.base, p.off), 'cstr', 0, lambda s, b, o, e: None)
    if v is not None:
        return v
    t = uf('cstr', 2)(p.base if not isc(p.base) else z3.IntVal(p.base), p.off if not isc(p.off) else z3.IntVal(p.off))
    key = ('cs', t.get_id())
    if key not in st.memo:
        st.remember(key, t)
        setrange(t, 0, (1 << 48) - 1)
        ex.assume(st, band(t >= 0, t < (1 << 48)))
    return t


@model('std::basic_string::basic_string')
def s_ctor(ex, st, c):
    this = c.args[0]
    pm = param_text(c.dem)
    if pm.startswith('char const*'):
        d = c.dem
        if re.search(r'\(char const\*, unsigned long', d):
            h = ex.gfld.get('strn')
            if h:
                return h(ex, st, c)
            n = ex.as_int(c.args[2])
            s = cstr_value(ex, st, c.args[1])
            if ex.decide(st, eq(slen(ex, st, s), n)):
                set_str(ex, st, this, s)
            else:
                t = ex.fresh_int(st, 'substr', 0, (1 << 48) - 1)
                set_str(ex, st, this, t)
            return None
        set_str(ex, st, this, cstr_value(ex, st, c.args[1]))
        return None
    if pm == '' or pm.startswith('std::allocator'):
        set_str(ex, st, this, 0)
        return None
    if pm.startswith('std::basic_string<') and pm.endswith('&&'):
        v = get_str(ex, st, c.args[1])
        set_str(ex, st, this, v)
        set_str(ex, st, c.args[1], 0)
        return None
    if pm.startswith('std::basic_string<') and pm.endswith('const&'):
        ex.deref_check(st, c.args[1], 'string copy')
        if len(c.args) > 2 and isinstance(c.args[2], (int, z3.ExprRef)):
            set_str(ex, st, this, ex.fresh_int(st, 'substr', 0, (1 << 48) - 1))
            return None
        v = get_str(ex, st, c.args[1])
        set_str(ex, st, this, v)
        return None
    set_str(ex, st, this, ex.fresh_int(st, 'str', 0, (1 << 48) - 1))
    return None


@model('std::basic_string::~basic_string')
def s_dtor(ex, st, c):
    return None


@model('std::basic_string::operator=', 'std::basic_string::assign')
def s_assign(ex, st, c):
    pm = param_text(c.dem)
    if pm.startswith('std::basic_string<') and len(c.args) == 2:
        v = get_str(ex, st, c.args[1])
        if pm.endswith('&&'):
            if not ex.decide(st, ex.ptr_eq(c.args[0], c.args[1])):
                set_str(ex, st, c.args[1], 0)
        set_str(ex, st, c.args[0], v)
    elif pm.startswith('char const*') and len(c.args) == 2:
        set_str(ex, st, c.args[0], cstr_value(ex, st, c.args[1]))
    else:
        set_str(ex, st, c.args[0], ex.fresh_int(st, 'str', 0, (1 << 48) - 1))
    return c.args[0]


@model('std::basic_string::empty')
def s_empty(ex, st, c):
    ex.deref_check(st, c.args[0], 'string access')
    return eq(get_str(ex, st, c.args[0]), 0)


@model('std::basic_string::size', 'std::basic_string::length')
def s_size(ex, st, c):
    return slen(ex, st, get_str(ex, st, c.args[0]))


@model('std::basic_string::c_str', 'std::basic_string::data')
def s_cstr(ex, st, c):
    v = get_str(ex, st, c.args[0])
    b = ex.fresh_base(st)
    ex.write(st, Ptr(b, 0), 'cstr', 0, v)
    return Ptr(b, 0)


@model('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def s_append(ex, st, c):
    pm = param_text(c.dem)
    cur = get_str(ex, st, c.args[0])
    if pm.startswith('std::basic_string<') and len(c.args) == 2:
        v = get_str(ex, st, c.args[1])
    elif pm.startswith('char const*') and len(c.args) == 2:
        v = cstr_value(ex, st, c.args[1])
    else:
        v = ex.fresh_int(st, 'str', 1, (1 << 48) - 1)
    set_str(ex, st, c.args[0], concat(ex, st, cur, v))
    return c.args[0]


@model('std::basic_string::clear')
def s_clear(ex, st, c):
    set_str(ex, st, c.args[0], 0)
    return None


@model('std::basic_string::swap')
def s_swap(ex, st, c):
    a, b = get_str(ex, st, c.args[0]), get_str(ex, st, c.args[1])
    set_str(ex, st, c.args[0], b)
    set_str(ex, st, c.args[1], a)
    return None


@model('std::basic_string::reserve')
def s_reserve(ex, st, c):
    return None


@model('std::basic_string::compare')
def s_compare(ex, st, c):
    a = get_str(ex, st, c.args[0])
    pm = param_text(c.dem)
    b = get_str(ex, st, c.args[1]) if pm.startswith('std::basic_string<') else cstr_value(ex, st, c.args[1])
    return scmp(ex, st, a, b)


def strorder(ex, st, a, b):
    """strict total order on strings: a<b via an injective rank"""
    ra, rb = srank(ex, st, a), srank(ex, st, b)
    return ra < rb


def srank(ex, st, a):
    za = z3.IntVal(a) if isc(a) else a
    t = uf('srank')(za)
    key = ('srank', t.get_id())
    if key not in st.memo:
        st.remember(key, t)
        ex.assume(st, uf('srankinv')(t) == za)
    return t


def scmp(ex, st, a, b):
    e = eq(a, b)
    if e is True:
        return 0
    l = strorder(ex, st, a, b)
    return ite(e, 0, ite(l, (1 << 32) - 1, 1))


def str_any(ex, st, v, t):
    if 'basic_string' in t:
        return get_str(ex, st, v)
    return cstr_value(ex, st, v)


def sig_params(dem):
    d = dem
    i = len(d) - 1
    while i >= 0 and d[i] != ')':
        i -= 1
    j = i
    depth = 0
    while j >= 0:
        if d[j] == ')':
            depth += 1
        elif d[j] == '(':
            depth -= 1
            if depth == 0:
                break
        j -= 1
    body = d[j + 1:i].replace('std::__cxx11::', 'std::')
    out = []
    depth = 0
    cur = ''
    for k, ch in enumerate(body):
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def is_str_param(p):
    """the parameter itself is a string (not something that contains one)"""
    return re.match(r'(const )?std::basic_string<', p.replace('__cxx11::', '')) is not None


def str_eq_op(ex, st, c):
    ps = sig_params(c.dem)
    if not any(is_str_param(p) or 'basic_string_view' in p for p in ps):
        return '$body'
    if any('basic_string_view' in p for p in ps):
        return '$body'
    a = str_any(ex, st, c.args[0], ps[0])
    b = str_any(ex, st, c.args[1], ps[1])
    r = eq(a, b)
    return r if c.norm.endswith('==') else bnot(r)


@rmodel(r'std::operator(<|>|<=|>=)$')
def str_rel(ex, st, c):
    ps = sig_params(c.dem)
    if not ps or not any(is_str_param(p) for p in ps):
        return '$body'
    a = str_any(ex, st, c.args[0], ps[0])
    b = str_any(ex, st, c.args[1], ps[1])
    op = c.norm[len('std::operator'):]
    e, l = eq(a, b), strorder(ex, st, a, b)
    if e is True:
        return op in ('<=', '>=')
    return {'<': l, '>': band(bnot(l), bnot(e)), '<=': bor(l, e), '>=': bnot(l)}[op]


@rmodel(r'std::operator\+$')
def str_plus(ex, st, c):
    ps = sig_params(c.dem)
    if not ps or not any(is_str_param(p) for p in ps):
        return '$body'
    r, a, b = c.args[0], c.args[1], c.args[2]
    if ps[1] == 'char' or ps[0] == 'char':
        set_str(ex, st, r, ex.fresh_int(st, 'str', 1, (1 << 48) - 1))
        return None
    x = str_any(ex, st, a, ps[0])
    y = str_any(ex, st, b, ps[1])
    set_str(ex, st, r, concat(ex, st, x, y))
    return None


@rmodel(r'std::to_string$')
def to_string(ex, st, c):
    v = ex.as_int(c.args[1])
    t = uf('to_string')(v if not isc(v) else z3.IntVal(v))
    setrange(t, 1, (1 << 48) - 1)
    ex.assume(st, band(t >= 1, t < (1 << 48), uf('of_string')(t) == v))
    set_str(ex, st, c.args[0], t)
    return None


# ------------------------------------------------------------------ memory intrinsics, runtime
@rmodel(r'llvm\.(memcpy|memmove)\..*')
def memcpy_(ex, st, c):
    d, s, n = c.args[0], c.args[1], c.args[2]
    if isc(n) and n == 0:
        return None
    h = ex.hooks.get('memcpy')
    if h and h(ex, st, c):
        return None
    ex.deref_check(st, d, 'memcpy dst')
    ex.deref_check(st, s, 'memcpy src')
    if isc(n) and n == 8:
        v = iter_cell(st, s)
        if v is not None:
            # an iterator is copied as a value (so that a loop knows what it is)
            ex.write(st, d, 'm', 8, v)
            return None
    ex.copy_region(st, d, s, n)
    return None


def iter_cell(st, p):
    """the iterator that was last written to p, if that is evident"""
    if not (isc(p.base) and isc(p.off)):
        return None
    h = st.heap
    for _ in range(60):
        if h is None or isinstance(h, HH):
            return None
        if not (isc(h.base) and isc(h.off)):
            return None
        if h.base == p.base:
            if isinstance(h, HW) and h.off == p.off and h.size == 8:
                return h.val if isinstance(h.val, IterVal) else None
            if not (isc(h.size) and (h.off >= p.off + 8 or h.off + h.size <= p.off)):
                return None
        h = h.parent
    return None


@rmodel(r'llvm\.memset\..*')
def memset_(ex, st, c):
    d, v, n = c.args[0], c.args[1], c.args[2]
    ex.deref_check(st, d, 'memset')
    if isc(v) and v == 0:
        st.heap = HZ(st.heap, d.base, d.off, n)
        return None
    raise Unsupported('memset nonzero')


@rmodel(r'llvm\.(threadlocal\.address).*')
def tls(ex, st, c):
    return c.args[0]


@rmodel(r'llvm\.(assume|lifetime|dbg|experimental\.noalias|trap|prefetch|invariant).*')
def llvm_nop(ex, st, c):
    return None


@rmodel(r'llvm\.(expect)\..*')
def llvm_expect(ex, st, c):
    return c.args[0]


@rmodel(r'llvm\.(umin|umax|smin|smax)\..*')
def llvm_minmax(ex, st, c):
    a, b = ex.as_int(c.args[0]), ex.as_int(c.args[1])
    w = c.ins.ty[1]
    k = re.match(r'llvm\.(\w+)\.', c.norm).group(1)
    x, y = (signed(a, w), signed(b, w)) if k[0] == 's' else (a, b)
    l = le(x, y)
    return ite(l, a, b) if k.endswith('min') else ite(l, b, a)


@rmodel(r'llvm\.eh\.typeid\.for.*')
def eh_typeid(ex, st, c):
    p = c.args[0]
    mod, name = ex.base_global[p.base]
    return ex.tid(name)


@rmodel(r'llvm\.(uadd|usub|umul)\.with\.overflow\.i(\d+)')
def ovf(ex, st, c):
    k, w = re.match(r'llvm\.(\w+)\.with\.overflow\.i(\d+)', c.norm).groups()
    a, b = ex.as_int(c.args[0]), ex.as_int(c.args[1])
    M_ = 1 << int(w)
    if k == 'uadd':
        r = add(a, b)
        return [wrap(r, int(w)), le(M_, r)]
    if k == 'usub':
        return [wrap(sub(a, b), int(w)), lt(a, b)]
    r = mul(a, b)
    if isc(r):
        return [r % M_, r >= M_]
    return [r % M_, r >= M_]


@model('operator new', 'operator new[]', 'malloc')
def op_new(ex, st, c):
    b = ex.fresh_base(st)
    ex.gfld.setdefault('allocsize', {})
    st.ghost[('alloc', b)] = c.args[0]
    return Ptr(b, 0)


@model('operator delete', 'operator delete[]', 'free')
def op_delete(ex, st, c):
    p = c.args[0]
    if isinstance(p, Ptr):
        b = p.base
        if isc(b) and b == 0:
            return None
        for fb in st.freed:
            e = eq(fb, b)
            if e is True or (e is not False and ex.entails(st, e)):
                ex.fail(st, 'memory-safety/double-free', 'delete of freed object')
                raise PathEnd()
        st.freed = st.freed + (b,)
    return None


@model('__cxa_allocate_exception')
def cxa_alloc(ex, st, c):
    return Ptr(ex.fresh_base(st), 0)


@model('__cxa_throw')
def cxa_throw(ex, st, c):
    p = c.args[1]
    ty = ex.base_global[p.base][1] if isinstance(p, Ptr) and isc(p.base) and p.base in ex.base_global else None
    ex.throw_state(st, ty, c.args[0])
    return '$throw'


def throw_state(self, st, ty, obj=None):
    self.gfld['excn'] = self.gfld.get('excn', 0) + 1
    if obj is None:
        obj = Ptr(self.fresh_base(st), 0)
        exc_object(self, st, obj)
    st.exc = dict(type=ty, obj=obj, id=st.ctr)


Engine.throw_state = throw_state


def throw_only(self, st, ty, obj=None):
    throw_state(self, st, ty, obj)


Engine.throw = throw_only


@model('__cxa_begin_catch')
def cxa_begin(ex, st, c):
    st.caught = st.caught + (st.exc,)
    return c.args[0]


@model('__cxa_end_catch')
def cxa_end(ex, st, c):
    st.caught = st.caught[:-1]
    return None


@model('__cxa_rethrow')
def cxa_rethrow(ex, st, c):
    st.exc = st.caught[-1]
    return '$throw'


@model('std::runtime_error::runtime_error', 'std::logic_error::logic_error', 'std::invalid_argument::invalid_argument', 'std::out_of_range::out_of_range')
def exc_ctor(ex, st, c):
    exc_object(ex, st, c.args[0])
    return None


def exc_object(ex, st, p):
    """an exception object has a dispatch table; std::exception::what() gives a text"""
    if ex.exc_vt is None:
        ex.exc_vt = Ptr(ex.static_base(), 0)
        ex.exc_what = Ptr(ex.static_base(), 0)
    ex.write(st, p, 'm', 8, ex.exc_vt)
    ex.write(st, ex.exc_vt.at(16), 'm', 8, ex.exc_what)


@model('__cxa_free_exception', '__cxa_get_exception_ptr')
def cxa_free(ex, st, c):
    return c.args[0] if c.args else None


THROWERS = {
    'std::__throw_bad_function_call': '_ZTISt17bad_function_call',
    'std::__throw_bad_any_cast': '_ZTISt12bad_any_cast',
    'std::__throw_bad_variant_access': '_ZTISt18bad_variant_access',
    'std::__throw_bad_weak_ptr': '_ZTISt12bad_weak_ptr',
    'std::__throw_future_error': '_ZTISt12future_error',
    'std::__throw_system_error': '_ZTISt12system_error',
    'std::__throw_out_of_range_fmt': '_ZTISt12out_of_range',
    'std::__throw_length_error': '_ZTISt12length_error',
    'std::__throw_bad_alloc': '_ZTISt9bad_alloc',
    'std::__throw_bad_array_new_length': '_ZTISt9bad_alloc',
    'std::__throw_logic_error': '_ZTISt11logic_error',
    'std::__throw_bad_optional_access': '_ZTISt19bad_optional_access',
    'std::__throw_bad_cast': '_ZTISt8bad_cast',
}
EXB = Engine.EXC_BASES
EXB['_ZTISt17bad_function_call'] = ['_ZTISt9exception']
EXB['_ZTISt8bad_cast'] = ['_ZTISt9exception']


def mk_thrower(ty):
    def f(ex, st, c):
        throw_state(ex, st, ty)
        return '$throw'
    return f


for k_, v_ in THROWERS.items():
    M[k_] = mk_thrower(v_)


@model('__clang_call_terminate', 'std::terminate', 'abort')
def term_(ex, st, c):
    h = ex.hooks.get('terminate')
    if h:
        h(ex, st)
    else:
        ex.prove(st, 'no-terminate', bool(ex.terminate_ok), 'std::terminate reached (exception escapes noexcept)')
    return '$end'


@model('__assert_fail')
def assert_fail(ex, st, c):
    ex.fail(st, 'assertion-holds', 'assert() in the source can fail')
    return '$end'


@model('__cxa_pure_virtual')
def purev(ex, st, c):
    ex.fail(st, 'pure-virtual-call')
    return '$end'


@model('__cxa_guard_acquire')
def guard_acq(ex, st, c):
    return 0


@model('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit')
def guard_rel(ex, st, c):
    return 0


@model('__gthread_active_p', '__libc_single_threaded', 'std::__is_single_threaded')
def gt_active(ex, st, c):
    return '$body' if c.norm.startswith('std') else 1


# ------------------------------------------------------------------ smart pointer control blocks
@rmodel(r'std::__(shared|weak)_count::(__shared_count|__weak_count|~__shared_count|~__weak_count|operator=|_M_swap|_M_get_use_count)$')
def shared_count(ex, st, c):
    meth = c.norm.split('::')[-1]
    this = c.args[0]
    strong = ex.hooks.get('strong') if '__shared_count' in c.norm else None
    if meth.startswith('~'):
        if strong:
            strong(ex, st, ex.read(st, this, 'm', 8, ex.init_ptr), -1)
        return None
    if meth == '_M_swap':
        a = ex.read(st, this, 'm', 8, ex.init_ptr)
        b = ex.read(st, c.args[1], 'm', 8, ex.init_ptr)
        ex.write(st, this, 'm', 8, b)
        ex.write(st, c.args[1], 'm', 8, a)
        if strong and isc(this.base) != isc(c.args[1].base):
            loc, rem = (a, b) if isc(this.base) else (b, a)
            strong(ex, st, loc, -1)
            strong(ex, st, rem, 1)
        return None
    if meth == '_M_get_use_count':
        v = ex.read(st, this, 'm', 8, ex.init_ptr)
        if ex.decide(st, eq(as_ptr(v).base, 0)):
            return 0
        n = ex.fresh_int(st, 'usecount', 0, 1 << 30)
        if is_alive(ex, st, v):
            ex.assume(st, n >= 1)
        return n
    dem = c.dem
    pm = param_text(dem)
    if meth == 'operator=':
        v = ex.read(st, c.args[1], 'm', 8, ex.init_ptr)
        if strong:
            strong(ex, st, ex.read(st, this, 'm', 8, ex.init_ptr), -1)
            strong(ex, st, v, 1)
        ex.write(st, this, 'm', 8, v)
        if pm.endswith('&&') and False:
            ex.write(st, c.args[1], 'm', 8, NULL)
        return this
    # constructors
    if len(c.args) == 1:
        ex.write(st, this, 'm', 8, NULL)
        return None
    if pm.startswith(('std::__shared_count', 'std::__weak_count')):
        if 'std::__shared_count' in c.norm and pm.startswith('std::__weak_count'):
            v = ex.read(st, c.args[1], 'm', 8, ex.init_ptr)
            nothrow = 'nothrow' in dem
            if ex.decide(st, eq(as_ptr(v).base, 0)):
                alive = False
            else:
                alive = lock_weak(ex, st, v)
            if alive:
                ex.write(st, this, 'm', 8, v)
                mark_alive(ex, st, v)
                if strong:
                    strong(ex, st, v, 1)
                return None
            if nothrow:
                ex.write(st, this, 'm', 8, NULL)
                return None
            throw_state(ex, st, '_ZTISt12bad_weak_ptr')
            return '$throw'
        v = ex.read(st, c.args[1], 'm', 8, ex.init_ptr)
        ex.write(st, this, 'm', 8, v)
        if strong:
            strong(ex, st, v, 1)
        if pm.endswith('&&'):
            ex.write(st, c.args[1], 'm', 8, NULL)
        return None
    if '_Sp_alloc_shared_tag' in dem or 'make_shared' in dem:
        return '$body'
    # from raw / unique pointer: new control block
    pv = c.args[1]
    src_null = False
    if 'unique_ptr' in pm:
        pv = ex.read(st, c.args[1], 'm', 8, ex.init_ptr)
        if ex.decide(st, eq(as_ptr(pv).base, 0)):
            ex.write(st, this, 'm', 8, NULL)
            return None
        ex.write(st, c.args[1], 'm', 8, NULL)
    ctl = Ptr(ex.fresh_base(st), 0)
    mark_alive(ex, st, ctl)
    ex.write(st, this, 'm', 8, ctl)
    return None


def as_ptr(v):
    return v if isinstance(v, Ptr) else Ptr(v, 0)


def mark_alive(ex, st, v):
    v = as_ptr(v)
    k = ('alive', v.base if isc(v.base) else v.base.get_id())
    if not isc(v.base):
        KEEP.append(v.base)
    st.ghost = dict(st.ghost)
    st.ghost[k] = 1


def is_alive(ex, st, v):
    v = as_ptr(v)
    if isc(v.base) and v.base > HEAP_LIMIT:
        return True
    k = ('alive', v.base if isc(v.base) else v.base.get_id())
    return st.ghost.get(k) == 1


def lock_weak(ex, st, v):
    if is_alive(ex, st, v):
        return True
    h = ex.hooks.get('weak_lock')
    if h:
        r = h(ex, st, v)
        if r is not None:
            return r if isc(r) else ex.decide(st, r)
    return ex.choose(st, 2) == 0


@rmodel(r'std::_Sp_counted_base::(_M_release|_M_add_ref_copy|_M_weak_release|_M_weak_add_ref|_M_add_ref_lock_nothrow)$')
def sp_base(ex, st, c):
    return None


# ------------------------------------------------------------------ std::function
@model('std::function::function')
def fn_ctor(ex, st, c):
    pm = param_text(c.dem)
    if c.dem.count('std::function') and pm.startswith('std::function<') and pm.endswith('const&') and len(c.args) == 2:
        src = c.args[1]
        ex.deref_check(st, src, 'function copy')
        ex.copy_region(st, c.args[0], src, 32)
        return None
    if pm.startswith('std::function<') and pm.endswith('&&') and same_fn_type(c):
        src = c.args[1]
        ex.copy_region(st, c.args[0], src, 32)
        ex.write(st, src.at(16), 'm', 8, NULL)
        return None
    return '$body'


def same_fn_type(c):
    t = targs(c.dem, 'std::function')
    pm = param_text(c.dem)
    t2 = targs(pm, 'std::function')
    # template converting constructor has <...> after ::function
    return t == t2


@model('std::function::operator=')
def fn_assign(ex, st, c):
    pm = param_text(c.dem)
    this, src = c.args[0], c.args[1]
    if pm.startswith('std::function<') and (pm.endswith('const&') or pm.endswith('&&')) and same_fn_type(c):
        ex.copy_region(st, this, src, 32)
        if pm.endswith('&&'):
            if not ex.decide(st, ex.ptr_eq(this, src)):
                ex.write(st, src.at(16), 'm', 8, NULL)
        return this
    if pm.startswith('std::nullptr_t') or pm.startswith('decltype(nullptr)'):
        ex.write(st, this.at(16), 'm', 8, NULL)
        return this
    return '$body'


@model('std::function::swap')
def fn_swap(ex, st, c):
    a, b = c.args[0], c.args[1]
    t = Ptr(ex.fresh_base(st), 0)
    ex.copy_region(st, t, a, 32)
    ex.copy_region(st, a, b, 32)
    ex.copy_region(st, b, t, 32)
    return None


@model('std::function::~function', 'std::_Function_base::~_Function_base')
def fn_dtor(ex, st, c):
    return None


@model('std::__find_uniq_type_in_pack')
def find_uniq(ex, st, c):
    # constant: position of the first template argument among the others
    ts = [re.sub(r'\s+', '', x) for x in targs(c.dem, '__find_uniq_type_in_pack')]
    ix = [i for i, x in enumerate(ts[1:]) if x == ts[0]]
    return ix[0] if len(ix) == 1 else len(ts) - 1


# ------------------------------------------------------------------ any
@model('std::any::~any')
def any_dtor(ex, st, c):
    return None


@model('std::any::any', 'std::any::operator=')
def any_ctor(ex, st, c):
    pm = param_text(c.dem)
    if pm.startswith('std::any') and len(c.args) == 2:
        ex.copy_region(st, c.args[0], c.args[1], 16)
        if pm.endswith('&&'):
            ex.write(st, c.args[1], 'm', 8, NULL)
        return c.args[0] if c.norm.endswith('=') else None
    return '$body'


@model('std::any::type')
def any_type(ex, st, c):
    # reference to the type_info of the contained value: identified by the manager word
    m = as_ptr(ex.read(st, c.args[0], 'm', 8, ex.init_ptr))
    b = m.base if not isc(m.base) else z3.IntVal(m.base)
    t = uf('anytype')(b)
    key = ('at', t.get_id())
    if key not in st.memo:
        st.remember(key, t)
        setrange(t, 1, HEAP_LIMIT - 1)
        ex.assume(st, band(t > 0, t < HEAP_LIMIT))
    return Ptr(t, 0)


@model('std::type_info::operator==', 'std::type_index::operator==')
def ti_eq(ex, st, c):
    if c.norm.startswith('std::type_index'):
        a = as_ptr(ex.read(st, c.args[0], 'm', 8, ex.init_ptr))
        b = as_ptr(ex.read(st, c.args[1], 'm', 8, ex.init_ptr))
        return ex.ptr_eq(a, b)
    return ex.ptr_eq(c.args[0], c.args[1])


@model('std::type_info::name', 'std::type_index::name')
def ti_name(ex, st, c):
    return Ptr(ex.fresh_base(st), 0)


# ------------------------------------------------------------------ mutexes / condition variables / threads
def lock_key(p):
    return (p.base if isc(p.base) else p.base.get_id(), p.off if isc(p.off) else p.off.get_id())


def held(ex, st, p):
    for i, (q, n, kind) in enumerate(st.locks):
        e = ex.ptr_eq(p, q)
        if e is True or (e is not False and ex.entails(st, e)):
            return i
    return None


def do_lock(ex, st, p, recursive=False):
    if not isc(p.base):
        KEEP.append(p.base)
    i = held(ex, st, p)
    if i is not None:
        q, n, kind = st.locks[i]
        if not recursive:
            ex.fail(st, 'lock-discipline/no-self-deadlock', 'non-recursive mutex locked twice')
            raise PathEnd()
        st.locks = st.locks[:i] + ((q, n + 1, kind),) + st.locks[i + 1:]
        return
    st.locks = st.locks + ((p, 1, recursive),)
    h = ex.hooks.get('lock')
    if h:
        h(ex, st, p)


def do_unlock(ex, st, p):
    i = held(ex, st, p)
    if i is None:
        ex.fail(st, 'lock-discipline/unlock-held', 'unlock of a mutex that is not held')
        raise PathEnd()
    q, n, kind = st.locks[i]
    if n > 1:
        st.locks = st.locks[:i] + ((q, n - 1, kind),) + st.locks[i + 1:]
        return
    h = ex.hooks.get('unlock')
    if h:
        h(ex, st, p)
    st.locks = st.locks[:i] + st.locks[i + 1:]


@model('std::mutex::lock')
def mtx_lock(ex, st, c):
    ex.deref_check(st, c.args[0], 'lock')
    do_lock(ex, st, c.args[0], False)
    return None


@model('std::recursive_mutex::lock')
def rmtx_lock(ex, st, c):
    ex.deref_check(st, c.args[0], 'lock')
    do_lock(ex, st, c.args[0], True)
    return None


@model('std::mutex::unlock', 'std::recursive_mutex::unlock')
def mtx_unlock(ex, st, c):
    do_unlock(ex, st, c.args[0])
    return None


@model('std::mutex::try_lock', 'std::recursive_mutex::try_lock')
def mtx_try(ex, st, c):
    if held(ex, st, c.args[0]) is not None and not c.norm.startswith('std::rec'):
        return False
    if ex.choose(st, 2) == 0:
        do_lock(ex, st, c.args[0], c.norm.startswith('std::rec'))
        return True
    return False


@rmodel(r'std::(mutex|recursive_mutex|__mutex_base|__recursive_mutex_base)::(mutex|recursive_mutex|__mutex_base|__recursive_mutex_base|~\w+)$')
def mtx_ctor(ex, st, c):
    return None


@rmodel(r'std::condition_variable(_any)?::(condition_variable(_any)?|~\w+)$')
def cv_ctor(ex, st, c):
    return None


def cv_event(ex, st, kind, cv):
    h = ex.hooks.get('cv')
    if h:
        h(ex, st, kind, cv)


@rmodel(r'std::condition_variable(_any)?::notify_(one|all)$')
def cv_notify(ex, st, c):
    cv_event(ex, st, c.norm.split('::')[-1], c.args[0])
    return None


def lock_of(ex, st, p, mod=None):
    """mutex currently owned by a std::unique_lock object (device pointer at offset 0)"""
    return as_ptr(ex.read(st, p, 'm', 8, ex.init_ptr))


@rmodel(r'std::condition_variable(_any)?::wait$')
def cv_wait(ex, st, c):
    if len(c.args) > 2:
        return '$body'        # predicate version: libstdc++ loop, executed from its IR
    cv_wait_common(ex, st, c.args[0], c.args[1])
    return None


def cv_wait_common(ex, st, cv, lk):
    h = ex.hooks.get('cv_mutex')
    m = h(ex, st, lk) if h else None
    if m is None:
        m = lock_of(ex, st, lk)
    i = held(ex, st, m)
    if i is None:
        # Lockable-like device: find mutex by containing object
        for j, (q, n, kind) in enumerate(st.locks):
            if ex.entails(st, eq(q.base, m.base)):
                i = j
                m = q
                break
    if i is None:
        ex.fail(st, 'lock-discipline/wait-with-lock', 'condition wait without the lock held')
        raise PathEnd()
    cv_event(ex, st, 'wait', cv)
    do_unlock(ex, st, m)
    do_lock(ex, st, m)


@rmodel(r'std::condition_variable(_any)?::(wait_until|wait_for|__wait_until_impl)$')
def cv_wait_until(ex, st, c):
    if len(c.args) > 3 or c.norm.endswith('::wait_for'):
        return '$body'
    out = ex.choose(st, 2)
    cv_wait_common(ex, st, c.args[0], c.args[1])
    h = ex.hooks.get('cv_timed')
    if h:
        h(ex, st, c.args[0], c.args[2], out == 1)
    return out


@model('std::call_once')
def call_once(ex, st, c):
    raise Unsupported('call_once')


# ------------------------------------------------------------------ clock
@rmodel(r'std::chrono::(system_clock|steady_clock)::now$')
def clock_now(ex, st, c):
    h = ex.hooks.get('now')
    if h:
        return h(ex, st)
    return ex.fresh_int(st, 'now', 0, 1 << 62)


# ------------------------------------------------------------------ logging (no effect on verified state)
@rmodel(r'(.* )?maf::logging::.*')
def logging_(ex, st, c):
    if c.norm.lower().endswith('allowed'):
        # whether a level is enabled: arbitrary, the same for the whole run
        return ex.decide(st, z3.Bool('logging_enabled'))
    if c.norm.endswith('constexprPastLastSlash'):
        return c.args[0]
    return None


@rmodel(r'std::(basic_)?(ostringstream|stringstream|ostream|istringstream)::.*')
def stream_(ex, st, c):
    return c.args[0] if c.args else None


def std_find(ex, st, c):
    """std::find over an abstract sequence; element equality of pointer-like elements (shared_ptr)"""
    a = list(c.args)
    sret = a.pop(0) if c.sret else None
    try:
        f, l = as_iter(ex, st, a[0]), as_iter(ex, st, a[1])
    except Unsupported:
        return '$body'
    vp = a[2]
    fi, li = iter_idx(ex, st, f), iter_idx(ex, st, l)
    s = get_seq(ex, st, f.cont, getattr(f.seq, 'kr', None))
    ps = sig_params(c.dem)
    kt = ps[2]
    rd = key_reader(ex, re.sub(r'\s*const\s*&$|\s*&$', '', kt))
    v = rd(ex, st, vp)
    found = ex.choose(st, 2) == 0
    if found:
        j = ex.fresh_int(st, 'found', 0, 1 << 47)
        ex.assume(st, band(le(fi, j), lt(j, li)))
        k = rd(ex, st, Ptr(s.node(ex, st, j), 0))
        ex.assume(st, band(*[eq(x, y) for x, y in zip(k, v)]))
        r = IterVal(f.cont, j, s)
        hi = j
    else:
        r = IterVal(f.cont, li, s)
        hi = li
    h = ex.hooks.get('not_found')
    facts = list(st.ghost.get(('absent',), ()))

    def fact(ex, st2, i, s=s, rd=rd, v=v, fi=fi, hi=hi):
        k = rd(ex, st2, Ptr(s.node(ex, st2, i), 0))
        return implies(band(le(fi, i), lt(i, hi)), bnot(band(*[eq(x, y) for x, y in zip(k, v)])))
    st.ghost = dict(st.ghost)
    st.ghost[('absent',)] = tuple(facts + [fact])
    if not ex.feasible(st):
        raise PathEnd()
    if sret is not None:
        ex.write(st, sret, 'm', 8, r)
        return None
    return r


M['std::find'] = std_find


def install(ex):
    ex.models.update(M)
    ex.model_res = list(MR) + ex.model_res
    g = ex.gfld.setdefault('ginit', {})
    g['seq'] = seq_init(ex)
    g['str'] = str_init(ex)

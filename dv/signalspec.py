"""Contracts of signals: S01 (emission and slot bookkeeping), S02 (connections)."""
from spec import *
from stl import as_ptr

D = 'maf::signal_slots::details::'
MS = D + 'MultiSlotKeeper::'
SS = D + 'SingleSlotKeeper::'
SLOTP = r'std::shared_ptr<std::function<void \(int const&\)>>'
TUS = ['@signals.cpp']


def where(s1, s0, i):
    """(still there, position) in s1 of the entry that was number i of s0"""
    if s1 is s0:
        return band(le(0, i), lt(i, s0.n)), i
    if isinstance(s1, stl.SeqEmpty):
        return False, 0
    if isinstance(s1, stl.SeqDel):
        c, j = where(s1.par, s0, i)
        return band(c, bnot(eq(j, s1.p))), ite(lt(s1.p, j), sub(j, 1), j)
    if isinstance(s1, stl.SeqIns):
        c, j = where(s1.par, s0, i)
        return c, ite(le(s1.p, j), add(j, 1), j)
    if isinstance(s1, stl.SeqCat):
        c, j = where(s1.a, s0, i)
        return c, j
    if isinstance(s1, stl.SeqSlice):
        c, j = where(s1.par, s0, i)
        j2 = sub(j, s1.a)
        return band(c, le(0, j2), lt(j2, s1.n)), j2
    raise Unsupported('list rewritten beyond recognition')


class Multi:
    """a MultiSlotKeeper with an arbitrary list of entries, one arbitrary entry `x` of which is tracked"""

    def __init__(self, t, meth=None, notifying=None):
        self.t, self.ex = t, t.ex
        self.st = st = t.state()
        self.this = t.obj(st, 'keeper')
        self.ex.assume(st, uf('RG')(self.this.base) == 0)
        rec = r'maf::signal_slots::details::MultiSlotKeeper<int>'
        self.list = self.this.at(t.off(rec, 'slots_'))
        self.flag = self.this.at(t.off(rec, 'notifying_'))
        if meth:
            self.f = t.fn(MS + meth)
        self.S0 = stl.get_seq(self.ex, st, self.list)
        f0 = self.ex.as_int(self.ex.read(st, self.flag, 'm', 1, lambda s, b, o, e: self.ex.init_int(s, b, o, e, 1)))
        self.ex.assume(st, bor(eq(f0, 0), eq(f0, 1)))
        if notifying is not None:
            self.ex.write(st, self.flag, 'm', 1, int(notifying))
        self.ix = self.ex.fresh_int(st, 'x', 0, 1 << 47)
        self.nx = self.S0.node(self.ex, st, self.ix)
        self.ex.assume(st, lt(self.ix, self.S0.n))
        self.px = self.ptr(st, self.nx)

    def ptr(self, st, nd):
        return self.ex.read_int(st, Ptr(nd, 0), 8)

    def notifying(self, st):
        return bnot(eq(self.ex.as_int(self.ex.read(st, self.flag, 'm', 1, lambda s, b, o, e: self.ex.init_int(s, b, o, e, 1))), 0))

    def seq(self, st):
        return stl.get_seq(self.ex, st, self.list)

    def slot(self, st, name='slot'):
        """a slot pointer argument (not null)"""
        p = self.t.obj(st, name)
        v = self.ex.as_int(self.ex.read(st, p, 'm', 8, self.ex.init_ptr))
        self.ex.assume(st, bnot(eq(v, 0)))
        return p, v


def iters(ex, st, rec, fi, cont):
    """iterator slots of a loop over `cont`"""
    out = []
    for sl in rec.slots:
        try:
            v = sl.get(ex, st, fi)
        except (Fork, Unsupported, PathEnd):
            continue
        if isinstance(v, IterVal):
            out.append(sl)
    return out


def unchanged(K, s, name='list'):
    s1 = K.seq(s)
    K.ex.prove(s, 'slots/' + name + '-order-kept', s1 is K.S0 or (band(where(s1, K.S0, K.ix)[0], eq(where(s1, K.S0, K.ix)[1], K.ix), eq(s1.n, K.S0.n))),
               'entries are added, removed or reordered')
    K.ex.prove(s, 'slots/' + name + '-kept', eq(K.ptr(s, K.nx), K.px), 'an entry is changed')


def appended(K, s, v):
    ex = K.ex
    s1 = K.seq(s)
    c, j = where(s1, K.S0, K.ix)
    ex.prove(s, 'slots/connect-keeps-others', band(c, eq(j, K.ix), eq(K.ptr(s, K.nx), K.px)), 'connecting loses or moves another slot')
    ex.prove(s, 'slots/connect-adds-one', eq(s1.n, add(K.S0.n, 1)))
    ex.prove(s, 'slots/connect-appends', eq(K.ptr(s, s1.node(ex, s, K.S0.n)), v), 'the new slot is not the last one')


def t_add(t):
    K = Multi(t, 'add')
    p, v = K.slot(K.st)

    def post(s, r):
        appended(K, s, v)
        K.ex.prove(s, 'slots/connect-reports', K.ex.to_bool(r))
    t.run(K.f, K.st, [K.this, p], post)


def found(K, s, r, v, what):
    """meaning of a membership answer: true -> some entry holds v, false -> the arbitrary entry does not"""
    ex = K.ex
    facts = gget(s, ('absent',), ())
    for fct in facts:
        ex.assume(s, fct(ex, s, K.ix))
    if ex.decide(s, r):
        hit = gget(s, 'hit')
        ex.mark('yes')
        return True
    ex.prove(s, 'slots/%s-complete' % what, bnot(eq(K.px, v)), 'a connected slot is not found')
    ex.mark('no')
    return False


def t_add_unique(t):
    K = Multi(t, 'addUnique')
    p, v = K.slot(K.st)
    only_x(K, v)

    def post(s, r):
        if found(K, s, bnot(K.ex.to_bool(r)), v, 'addUnique'):
            K.ex.prove(s, 'slots/refused-only-if-connected', eq(K.px, v), 'a slot that is not connected is refused')
            unchanged(K, s)
        else:
            appended(K, s, v)
    t.need('yes', 'no')
    t.run(K.f, K.st, [K.this, p], post)


def only_x(K, v):
    """the slot is in the list at most once: if at all, as entry x (x is arbitrary)"""
    K.ex.hooks['seq_node'] = lambda ex, st, S, i, t: ex.assume(st, bor(bnot(lt(i, S.n)), bnot(le(0, i)), eq(t, K.nx), bnot(eq(K.ptr(st, t), v)))) if S is K.S0 else None


def t_has(t):
    K = Multi(t, 'has')
    p, v = K.slot(K.st)
    only_x(K, v)

    def post(s, r):
        if found(K, s, K.ex.to_bool(r), v, 'has'):
            K.ex.prove(s, 'slots/has-sound', eq(K.px, v), 'a slot that is not connected is reported as connected')
        unchanged(K, s)
    t.need('yes', 'no')
    t.run(K.f, K.st, [K.this, p], post)


def t_remove(t):
    K = Multi(t, 'remove')
    p, v = K.slot(K.st)
    only_x(K, v)

    def post(s, r):
        ex = K.ex
        s1 = K.seq(s)
        c, j = where(s1, K.S0, K.ix)
        now = K.ptr(s, K.nx)
        if found(K, s, ex.to_bool(r), v, 'remove'):
            ex.prove(s, 'slots/remove-sound', eq(K.px, v), 'reports the removal of a slot that was not connected')
            ex.prove(s, 'slots/removed-is-gone', bor(bnot(c), eq(now, 0)), 'a disconnected slot is still in the list')
        else:
            unchanged(K, s)
        if ex.decide(s, K.notifying(s)):
            ex.mark('while notifying')
            ex.prove(s, 'slots/list-stable-while-notifying', s1 is K.S0, 'the list is restructured while it is being notified')
        else:
            ex.mark('idle')
    t.need('yes', 'no', 'while notifying', 'idle')
    t.run(K.f, K.st, [K.this, p], post)
    # the other entries: x holds another slot
    K = Multi(t, 'remove')
    p, v = K.slot(K.st)
    K.ex.hooks.pop('seq_node')
    K.ex.assume(K.st, bnot(eq(K.px, v)))

    def post2(s, r):
        c, j = where(K.seq(s), K.S0, K.ix)
        K.ex.prove(s, 'slots/remove-keeps-others', band(c, eq(K.ptr(s, K.nx), K.px)), 'removing a slot removes another one as well')
    t.run(K.f, K.st, [K.this, p], post2)
    # order of two others
    K = Multi(t, 'remove')
    p, v = K.slot(K.st)
    iy = K.ex.fresh_int(K.st, 'y', 0, 1 << 47)
    K.ex.assume(K.st, band(lt(K.ix, iy), lt(iy, K.S0.n)))

    def post3(s, r):
        c, j = where(K.seq(s), K.S0, K.ix)
        d, k = where(K.seq(s), K.S0, iy)
        K.ex.prove(s, 'slots/remove-keeps-order', implies(band(c, d), lt(j, k)))
    t.run(K.f, K.st, [K.this, p], post3)


def t_clear(t):
    K = Multi(t, 'clear')

    def inv(ex, entry, head, rec, fi, norm):
        out = []
        for sl in iters(ex, head, rec, fi, K.list):
            out.append(('nulled:' + sl.name, lambda st, sl=sl: implies(lt(K.ix, stl.iter_idx(ex, st, sl.get(ex, st, fi))), eq(K.ptr(st, K.nx), 0))))
        return out
    K.ex.loop_hooks.append(inv)

    def post(s, r):
        ex = K.ex
        s1 = K.seq(s)
        c, j = where(s1, K.S0, K.ix)
        ex.prove(s, 'slots/cleared', bor(bnot(c), eq(K.ptr(s, K.nx), 0)), 'a slot survives a disconnection of all slots')
        if ex.decide(s, K.notifying(s)):
            ex.mark('while notifying')
            ex.prove(s, 'slots/list-stable-while-notifying', s1 is K.S0, 'the list is restructured while it is being notified')
        else:
            ex.mark('idle')
    t.need('while notifying', 'idle')
    t.run(K.f, K.st, [K.this], post)


def counting(K):
    """cnt(i): number of connected entries among the first i, by recursion over the list"""
    ex = K.ex
    cnt = uf('cnt')
    ex.assume(K.st, eq(cnt(z3.IntVal(0)), 0))

    def step(ex, st, i):
        zi = z3.IntVal(i) if isc(i) else i
        nd = K.S0.node(ex, st, i)
        ex.assume(st, band(eq(cnt(zi + 1), add(cnt(zi), ite(eq(K.ptr(st, nd), 0), 0, 1))), cnt(zi) >= 0, cnt(zi) <= zi))

    def deref(ex, st, cont, S, i, nd):
        if S is K.S0:
            step(ex, st, i)
    ex.hooks['it_deref'] = deref

    def inv(ex, entry, head, rec, fi, norm):
        out = []
        its = iters(ex, head, rec, fi, K.list)
        for sl in its:
            def idx(st, sl=sl):
                i = stl.iter_idx(ex, st, sl.get(ex, st, fi))
                return z3.IntVal(i) if isc(i) else i
            for o in rec.slots:
                if o in its:
                    continue
                def val_(st, o=o):
                    v = o.get(ex, st, fi)
                    if isinstance(v, (Ptr, stl.Seq)) or v is None:
                        raise Unsupported('not a number')
                    return ex.as_int(v)
                out.append(('count:%s/%s' % (o.name, sl.name), lambda st, idx=idx, val_=val_: eq(val_(st), cnt(idx(st)))))
                out.append(('some:%s/%s' % (o.name, sl.name), lambda st, idx=idx, val_=val_: implies(band(lt(K.ix, idx(st)), bnot(eq(K.px, 0))), lt(0, val_(st)))))
            out.append(('none-before:' + sl.name, lambda st, idx=idx: implies(lt(K.ix, idx(st)), eq(K.px, 0))))
        return out
    ex.loop_hooks.append(inv)
    return cnt


def t_size(t):
    K = Multi(t, 'size')
    cnt = counting(K)

    def post(s, r):
        K.ex.prove(s, 'slots/count-exact', eq(K.ex.as_int(r), cnt(K.S0.n)), 'the number reported is not the number of connected slots')
        unchanged(K, s)
    t.run(K.f, K.st, [K.this], post)


def t_valid(t):
    K = Multi(t, 'valid')
    cnt = counting(K)

    def post(s, r):
        K.ex.prove(s, 'slots/connected-complete', implies(bnot(K.ex.to_bool(r)), eq(K.px, 0)), 'a signal with a connected slot reports that it has none')
        K.ex.prove(s, 'slots/connected-sound', implies(K.ex.to_bool(r), bnot(eq(cnt(K.S0.n), 0))), 'a signal without any connected slot reports that it has one')
        unchanged(K, s)
    t.run(K.f, K.st, [K.this], post)


class Emission:
    """notify(): two arbitrary entries a before b are tracked through the whole loop"""

    def __init__(self, t):
        t.ex.gfld['same_region'] = True
        K = self.K = Multi(t, 'notify', notifying=False)
        ex, st = K.ex, K.st
        self.ex, self.t = ex, t
        self.ib = ex.fresh_int(st, 'y', 0, 1 << 47)
        ex.assume(st, band(lt(K.ix, self.ib), lt(self.ib, K.S0.n)))
        self.nb = K.S0.node(ex, st, self.ib)
        self.pb = K.ptr(st, self.nb)
        ex.assume(st, bnot(eq(K.px, 0)))
        ex.assume(st, bnot(eq(self.pb, 0)))
        ex.assume(st, bnot(eq(self.pb, K.px)))
        ex.assume(st, bnot(eq(self.nb, K.nx)))
        self.ctl = ex.as_int(ex.read(st, Ptr(K.nx, 8), 'm', 8, ex.init_ptr))
        # whether the slots called leave these two connected
        self.keep = [ex.fresh_bool(st, 'staysA'), ex.fresh_bool(st, 'staysB')]
        for k in ('calls0', 'calls1', 'held', 'total'):
            st.ghost[k] = 0
        st.ghost['pos0'], st.ghost['pos1'] = K.ix, self.ib       # position of the entry in the list; -1: erased
        self.arg = t.obj(st, 'arg')
        self.v0 = ex.read(st, self.arg, 'm', 4, lambda s, b, o, e: ex.init_int(s, b, o, e, 4))
        self.N = (K.nx, self.nb)
        self.P = (K.px, self.pb)
        ex.contracts['std::function::operator()'] = self.call
        ex.contracts[MS + 'valid'] = self.valid
        ex.hooks['strong'] = self.strong
        ex.hooks['erased'] = self.erased
        ex.hooks['it_deref'] = self.deref
        ex.loop_hooks.append(self.inv)

    def valid(self, ex, st, c):
        # contract proved in the task valid
        r = ex.fresh_bool(st, 'any')
        for k in (0, 1):
            ex.assume(st, implies(bnot(r), eq(self.K.ptr(st, self.N[k]), 0)))
        return r

    def strong(self, ex, st, v, d):
        gset(st, 'held', add(gget(st, 'held'), ite(eq(ex.as_int(v), self.ctl), d, 0)))

    def erased(self, ex, st, cont, nd):
        for k in (0, 1):
            gone = eq(nd, self.N[k])
            ex.prove(st, 'emission/erases-only-disconnected', bor(bnot(gone), eq(self.K.ptr(st, nd), 0)), 'a connected slot is erased from the list')
            pos = gget(st, 'pos%d' % k)
            S = self.K.seq(st)
            i = gget(st, 'deref')
            gset(st, 'pos%d' % k, ite(gone, -1, ite(bor(lt(pos, 0), lt(pos, S.ixof(ex, st, nd) if False else self.at(st, nd))), pos, sub(pos, 1))))

    def at(self, st, nd):
        d = gget(st, 'at')
        return d

    def deref(self, ex, st, cont, S, i, nd):
        gset(st, 'at', i)
        for k in (0, 1):
            pos = gget(st, 'pos%d' % k)
            # list nodes are distinct; a slot is in the list at most once
            ex.assume(st, band(implies(eq(i, pos), eq(nd, self.N[k])), bor(eq(i, pos), bnot(eq(nd, self.N[k])))))
            ex.assume(st, bor(eq(nd, self.N[k]), bnot(eq(self.K.ptr(st, nd), self.P[k]))))
        # pointer and control block of an entry belong together
        ex.assume(st, implies(eq(self.K.ptr(st, nd), self.P[0]), eq(ex.as_int(ex.read(st, Ptr(nd, 8), 'm', 8, ex.init_ptr)), self.ctl)))

    def call(self, ex, st, c):
        K = self.K
        f = ex.as_int(c.args[0])
        ex.prove(st, 'emission/arguments-passed', eq(ex.read(st, c.args[1], 'm', 4, lambda s, b, o, e: ex.init_int(s, b, o, e, 4)), self.v0),
                 'a slot is called with other arguments than the signal was emitted with')
        ex.prove(st, 'emission/protected-iteration', K.notifying(st), 'a slot runs while the list is not marked as being notified: what it disconnects is erased under the iteration')
        for k in (0, 1):
            mine = eq(f, self.P[k])
            there = eq(K.ptr(st, self.N[k]), self.P[k])
            n = gget(st, 'calls%d' % k)
            ex.prove(st, 'emission/disconnected-not-called', implies(mine, there), 'a slot is called that was disconnected earlier in the same emission')
            ex.prove(st, 'emission/at-most-once', implies(mine, eq(n, 0)), 'a slot is called twice by one emission')
            if k == 0:
                ex.prove(st, 'emission/slot-alive', implies(mine, lt(0, gget(st, 'held'))), 'nothing keeps the slot alive while it runs: it is destroyed when it disconnects itself')
                ex.prove(st, 'emission/order', implies(mine, eq(gget(st, 'calls1'), 0)), 'slots are not called in the order they were connected')
            gset(st, 'calls%d' % k, add(n, ite(mine, 1, 0)))
        # the slot called may connect and disconnect anything; while the list is being notified the keeper only appends entries
        # or empties them (guarantee of add, addUnique, remove and clear, proved for each of them)
        old = [K.ptr(st, self.N[k]) for k in (0, 1)]
        ex.havoc(st, lambda B, KD, O, S: (bnot(eq(uf('RG')(B), 0)) if not isc(B) and KD == 'm' else False), 'slots', None)
        for k in (0, 1):
            now = K.ptr(st, self.N[k])
            ex.assume(st, bor(eq(now, old[k]), band(bnot(self.keep[k]), eq(now, 0))))
        S = K.seq(st)
        stl.set_seq(ex, st, K.list, stl.SeqCat(S, stl.SeqInit(ex, st, region=S.region())))
        if ex.choose(st, 2) == 1:
            ex.throw_state(st, '_ZTISt9exception')
            return '$throw'
        return None

    def inv(self, ex, entry, head, rec, fi, norm):
        K = self.K
        out = []
        for k in (0, 1):
            def ok(st, k=k):
                p, S = gget(st, 'pos%d' % k), K.seq(st)
                return bor(eq(p, -1), band(le(0, p), lt(p, S.n)))
            out.append(('pos%d' % k, ok))
            out.append(('node%d' % k, lambda st, k=k: implies(le(0, gget(st, 'pos%d' % k)), eq(K.seq(st).node(ex, st, gget(st, 'pos%d' % k)), self.N[k]))))
            out.append(('gone%d' % k, lambda st, k=k: implies(eq(gget(st, 'pos%d' % k), -1), eq(K.ptr(st, self.N[k]), 0))))
            out.append(('entry%d' % k, lambda st, k=k: bor(eq(K.ptr(st, self.N[k]), self.P[k]), band(bnot(self.keep[k]), eq(K.ptr(st, self.N[k]), 0)))))
            for sl in iters(ex, head, rec, fi, K.list):
                def idx(st, sl=sl):
                    return stl.iter_idx(ex, st, sl.get(ex, st, fi))
                c, p = (lambda st, k=k: gget(st, 'calls%d' % k)), (lambda st, k=k: gget(st, 'pos%d' % k))
                out.append(('pending%d:%s' % (k, sl.name), lambda st, c=c, p=p, idx=idx: implies(band(le(0, p(st)), le(idx(st), p(st))), eq(c(st), 0))))
                out.append(('done%d:%s' % (k, sl.name), lambda st, c=c, p=p, idx=idx, k=k: implies(band(le(0, p(st)), lt(p(st), idx(st)), eq(K.ptr(st, self.N[k]), self.P[k])), eq(c(st), 1))))
                out.append(('once%d:%s' % (k, sl.name), lambda st, c=c: bor(eq(c(st), 0), eq(c(st), 1))))
        out.append(('order', lambda st: implies(band(le(0, gget(st, 'pos0')), le(0, gget(st, 'pos1'))), lt(gget(st, 'pos0'), gget(st, 'pos1')))))
        out.append(('held', lambda st: eq(gget(st, 'held'), 0)))
        out.append(('held>=', lambda st: le(0, gget(st, 'held'))))
        out.append(('b-after-a', lambda st: implies(band(le(0, gget(st, 'pos0')), eq(K.ptr(st, self.N[0]), self.P[0]), eq(gget(st, 'calls0'), 0)), eq(gget(st, 'calls1'), 0))))
        return out

    def run(self):
        K, ex = self.K, self.ex

        def post(s, r):
            ex.mark('completes')
            for k in (0, 1):
                ex.prove(s, 'emission/every-slot-called', implies(self.keep[k], eq(gget(s, 'calls%d' % k), 1)),
                         'a slot that stays connected is not called by the emission')
            end(s)

        def end(s):
            ex.prove(s, 'emission/leaves-notifying-state', bnot(K.notifying(s)), 'the signal still counts as being notified after the emission')
            S = K.seq(s)
            for k in (0, 1):
                ex.prove(s, 'emission/keeps-connections', implies(self.keep[k], eq(K.ptr(s, self.N[k]), self.P[k])))
            ex.prove(s, 'emission/keeps-order', implies(band(le(0, gget(s, 'pos0')), le(0, gget(s, 'pos1'))), lt(gget(s, 'pos0'), gget(s, 'pos1'))))

        def unwind(s, v):
            ex.mark('slot throws')
            end(s)
        self.t.need('completes', 'slot throws')
        self.t.run(K.f, K.st, [K.this, self.arg], post, unwind=unwind)


def t_notify(t):
    Emission(t).run()


# ------------------------------------------------------------------ single-slot keeper
class Single:
    def __init__(self, t, meth):
        self.t, self.ex = t, t.ex
        self.st = st = t.state()
        self.this = t.obj(st, 'keeper')
        rec = r'maf::signal_slots::details::SingleSlotKeeper<int>'
        self.cell = self.this.at(t.off(rec, 'slots_'))
        self.flag = self.this.at(t.off(rec, 'notifying_'))
        self.f = t.fn(SS + meth)
        self.p0 = self.ptr(st)
        self.c0 = self.ex.read_int(st, self.cell.at(8), 8)
        f0 = self.ex.read_int(st, self.flag, 1)
        self.ex.assume(st, bor(eq(f0, 0), eq(f0, 1)))
        # a slot object that is connected holds a function (connect() requires one)
        self.ex.contracts['std::function::operator bool'] = lambda ex, st, c: True

    def ptr(self, st):
        return self.ex.read_int(st, self.cell, 8)

    def slot(self, name='slot'):
        p = self.t.obj(self.st, name)
        v = self.ex.read_int(self.st, p, 8)
        self.ex.assume(self.st, bnot(eq(v, 0)))
        return p, v


def t_single_add(meth):
    def run(t):
        K = Single(t, meth)
        p, v = K.slot()

        def post(s, r):
            ex = K.ex
            if ex.decide(s, eq(K.p0, 0)):
                ex.prove(s, 'single/accepts-first', band(ex.to_bool(r), eq(K.ptr(s), v)), 'a signal without a connection refuses one')
                ex.mark('free')
            else:
                ex.prove(s, 'single/refuses-second', band(bnot(ex.to_bool(r)), eq(K.ptr(s), K.p0)), 'a second connection replaces the first or is reported as made')
                ex.mark('taken')
        t.need('free', 'taken')
        t.run(K.f, K.st, [K.this, p], post)
    return run


def t_single_remove(t):
    K = Single(t, 'remove')
    p, v = K.slot()

    def post(s, r):
        ex = K.ex
        same = eq(K.p0, v)
        ex.prove(s, 'single/remove-reports', eq(ex.as_int(r), ite(same, 1, 0)), 'the result does not tell whether the slot was connected')
        ex.prove(s, 'single/remove-effect', eq(K.ptr(s), ite(same, 0, K.p0)), 'a slot stays connected, or another one is disconnected')
    t.run(K.f, K.st, [K.this, p], post)


def t_single_query(t):
    for meth in ('valid', 'size', 'clear'):
        K = Single(t, meth)

        def post(s, r, K=K, meth=meth):
            ex = K.ex
            if meth == 'clear':
                ex.prove(s, 'single/cleared', eq(K.ptr(s), 0))
            else:
                ex.prove(s, 'single/%s-exact' % meth, eq(ex.as_int(r), ite(eq(K.p0, 0), 0, 1)))
                ex.prove(s, 'single/query-keeps', eq(K.ptr(s), K.p0))
        t.run(K.f, K.st, [K.this], post, cover=meth)
    K = Single(t, 'has')
    p, v = K.slot()
    t.run(K.f, K.st, [K.this, p], lambda s, r: K.ex.prove(s, 'single/has-exact', eq(K.ex.as_int(r), ite(eq(K.p0, v), 1, 0))), cover='has')


def t_single_notify(t):
    K = Single(t, 'notify')
    ex, st = K.ex, K.st
    ex.write(st, K.flag, 'm', 1, 0)
    arg = t.obj(st, 'arg')
    v0 = ex.read_int(st, arg, 4)
    st.ghost['calls'] = st.ghost['held'] = 0
    ex.assume(st, eq(eq(K.p0, 0), eq(K.c0, 0)) if False else implies(bnot(eq(K.p0, 0)), bnot(eq(K.c0, 0))))

    def strong(ex, st, v, d):
        gset(st, 'held', add(gget(st, 'held'), ite(eq(ex.as_int(v), K.c0), d, 0)))
    ex.hooks['strong'] = strong

    def call(ex, st, c):
        ex.prove(st, 'emission/arguments-passed', eq(ex.read_int(st, c.args[1], 4), v0))
        ex.prove(st, 'emission/right-slot', eq(ex.as_int(c.args[0]), K.p0), 'calls something that is not connected')
        ex.prove(st, 'emission/slot-alive', lt(0, gget(st, 'held')), 'nothing keeps the slot alive while it runs: it is destroyed when it disconnects itself')
        gadd(st, 'calls')
        ex.havoc_region(st, K.cell, 16)      # the slot may disconnect itself, and connect another one
        if ex.choose(st, 2) == 1:
            ex.throw_state(st, '_ZTISt9exception')
            return '$throw'
        return None
    ex.contracts['std::function::operator()'] = call

    def end(s):
        ex.prove(s, 'emission/leaves-notifying-state', eq(ex.read_int(s, K.flag, 1), 0), 'the signal still counts as being notified after the emission')
        ex.prove(s, 'emission/once', eq(gget(s, 'calls'), ite(eq(K.p0, 0), 0, 1)), 'the connected slot is not called exactly once')

    def unwind(s, v):
        ex.mark('slot throws')
        end(s)
    t.need('slot throws')
    t.run(K.f, st, [K.this, arg], lambda s, r: end(s), unwind=unwind)


# ------------------------------------------------------------------ signals over keepers: locking and delegation
class Signal:
    """a (thread-safe) signal object whose keeper operations are taken by contract"""

    def __init__(self, t, single=False):
        self.t, self.ex = t, t.ex
        ex = t.ex
        self.st = st = t.state()
        kk = 'Single' if single else 'Multi'
        self.NS = D + kk + 'SlotKeeper::'
        self.pat = 'AtomicObject<maf::signal_slots::details::%sSlotKeeper<int>, std::recursive_mutex>' % kk
        self.rec = r'maf::signal_slots::details::BasicSignalThreadSafe<std::recursive_mutex, maf::signal_slots::details::%sSlotKeeper, int>' % kk
        self.krec = r'maf::signal_slots::details::BasicSignal_<maf::threading::AtomicObject<maf::signal_slots::details::%sSlotKeeper<int>, std::recursive_mutex>, int>::MyKeeper_' % kk
        self.this = t.obj(st, 'signal')
        self.sk = self.this.at(t.off(self.rec, 'slotKeeper_'))
        self.keeper = t.obj(st, 'keeper')        # MyKeeper_
        self.ctl = t.obj(st, 'kctl')
        ex.write(st, self.sk, 'm', 8, self.keeper)
        ex.write(st, self.sk.at(8), 'm', 8, self.ctl)
        stl.mark_alive(ex, st, self.ctl)
        self.data = self.keeper.at(t.off(self.krec, 'data_'))
        self.mutex = self.keeper.at(t.off(self.krec, 'mutex_'))
        self.hub = self.keeper.at(t.off(self.krec, '~ConnectableIF'))
        for m in ('add', 'addUnique', 'remove', 'clear', 'has', 'valid', 'size', 'notify'):
            ex.contracts[self.NS + m] = self.op(m)
        st.ghost['ops'] = ()
        self.havoc = None

    def op(self, m):
        def f(ex, st, c):
            ex.prove(st, 'locking/keeper-of-this-signal', ex.ptr_eq(c.args[0], self.data), 'another signal\'s slots are accessed')
            ex.prove(st, 'locking/under-lock', stl.held(ex, st, self.mutex) is not None, 'the slot list is accessed without its mutex: ' + m)
            extra = None
            if m in ('add', 'addUnique', 'remove', 'has'):
                extra = ex.read_int(st, c.args[1], 8)
                if m == 'add' or m == 'addUnique':
                    gset(st, 'added_ctl', as_ptr(ex.read(st, c.args[1].at(8), 'm', 8, ex.init_ptr)))
                    gset(st, 'added', as_ptr(ex.read(st, c.args[1], 'm', 8, ex.init_ptr)))
            elif m == 'notify':
                extra = ex.read_int(st, c.args[1], 4)
            if m in ('clear', 'notify'):
                r = None
                if m == 'notify' and ex.choose(st, 2) == 1:
                    gset(st, 'ops', gget(st, 'ops') + ((m, extra, None),))
                    ex.throw_state(st, '_ZTISt9exception')
                    return '$throw'
            elif m == 'size':
                r = ex.fresh_int(st, 'size', 0, 1 << 47)
            else:
                r = ex.fresh_bool(st, m)
            gset(st, 'ops', gget(st, 'ops') + ((m, extra, r),))
            return r
        return f

    def fn(self, meth, pred=None):
        return self.t.fn(D + 'BasicSignal_::' + meth, lambda d: self.pat in d and (pred is None or re.search(pred, d)) and 'MyKeeper_' not in d.split('(')[0].replace(self.pat, ''))

    def one(self, s, name, m, extra=None):
        """exactly one keeper operation m happened; returns its result"""
        ops = gget(s, 'ops')
        self.ex.prove(s, 'delegation/' + name, len(ops) == 1 and ops[0][0] == m and (extra is None or eq(ops[0][1], extra)),
                      'does not perform exactly %s on the slots, but %s' % (m, [o[0] for o in ops]))
        self.ex.prove(s, 'locking/released', len(s.locks) == 0, 'the mutex stays locked')
        return ops[0][2] if ops else None


def t_signal(single):
    def run(t):
        for meth, m in (('notify', 'notify'), ('operator()', 'notify')):
            G = Signal(t, single)
            arg = t.obj(G.st, 'arg')
            v = G.ex.read_int(G.st, arg, 4)
            t.run(G.fn(meth), G.st, [G.this, arg], lambda s, r, G=G, v=v: G.one(s, 'emits', 'notify', v),
                  unwind=lambda s, e, G=G, v=v: G.one(s, 'emits', 'notify', v), cover=meth)
        G = Signal(t, single)
        t.run(G.fn('connected'), G.st, [G.this], lambda s, r: G.ex.prove(s, 'delegation/result', eq(G.ex.to_bool(r), G.ex.to_bool(G.one(s, 'connected', 'valid')))), cover='connected')
        G2 = Signal(t, single)
        t.run(G2.fn('connectionCount'), G2.st, [G2.this], lambda s, r: G2.ex.prove(s, 'delegation/result', eq(G2.ex.as_int(r), G2.one(s, 'count', 'size'))), cover='count')
        G3 = Signal(t, single)
        t.run(G3.fn('disconnect', r'disconnect\(\)'), G3.st, [G3.this], lambda s, r: G3.one(s, 'disconnect-all', 'clear'), cover='disconnect all')
        G4 = Signal(t, single)
        p = t.obj(G4.st, 'slot')
        v = G4.ex.read_int(G4.st, p, 8)
        t.run(G4.fn('disconnect', r'disconnect\(std'), G4.st, [G4.this, p], lambda s, r: G4.ex.prove(s, 'delegation/result', eq(G4.ex.to_bool(r), G4.ex.to_bool(G4.one(s, 'disconnect', 'remove', v)))), cover='disconnect')
        # what a connection calls
        for meth, m in (('connect', 'addUnique'), ('disconnect', 'remove'), ('connectedTo', 'has')):
            G5 = Signal(t, single)
            p = t.obj(G5.st, 'slot')
            v = G5.ex.read_int(G5.st, p, 8)
            G5.ex.assume(G5.st, bnot(eq(v, 0)))
            f = t.fn(D + 'BasicSignal_::MyKeeper_::' + meth, lambda d: G5.pat in d)
            t.run(f, G5.st, [G5.hub, p], lambda s, r, G5=G5, v=v, m=m: G5.ex.prove(s, 'delegation/result', eq(G5.ex.to_bool(r), G5.ex.to_bool(G5.one(s, 'hub-' + m, m, v)))), cover='hub ' + meth)
        # destruction disconnects everything, also of a moved-from signal
        G6 = Signal(t, single)
        t.run(G6.fn('~BasicSignal_'), G6.st, [G6.this], lambda s, r: G6.one(s, 'destruction-disconnects', 'clear'), cover='destruction')
        G7 = Signal(t, single)
        G7.ex.write(G7.st, G7.sk, 'm', 8, NULL)
        G7.ex.write(G7.st, G7.sk.at(8), 'm', 8, NULL)
        t.run(G7.fn('~BasicSignal_'), G7.st, [G7.this], lambda s, r: G7.ex.prove(s, 'delegation/moved-from-destruction', len(gget(s, 'ops')) == 0), cover='moved-from destruction')
    return run


S01 = [('MultiSlotKeeper::add', t_add), ('MultiSlotKeeper::addUnique', t_add_unique), ('MultiSlotKeeper::has', t_has),
       ('MultiSlotKeeper::remove', t_remove), ('MultiSlotKeeper::clear', t_clear), ('MultiSlotKeeper::size', t_size),
       ('MultiSlotKeeper::valid', t_valid), ('MultiSlotKeeper::notify', t_notify),
       ('SingleSlotKeeper::add', t_single_add('add')), ('SingleSlotKeeper::addUnique', t_single_add('addUnique')),
       ('SingleSlotKeeper::remove', t_single_remove), ('SingleSlotKeeper::queries', t_single_query), ('SingleSlotKeeper::notify', t_single_notify),
       ('Signal', t_signal(False)), ('SCSignal', t_signal(True))]
TASKS = S01


# ------------------------------------------------------------------ S02: connections
def vtable(t, pat):
    for m in t.prog.mods:
        for g in m.global_lines:
            if g.startswith('_ZTV') and re.search(pat, m.demangle(g)):
                return t.ex.global_ptr(g, m)
    raise Unsupported('vtable of ' + pat)


CON = D + 'Connection'


class Conn(Signal):
    """a connection object in an arbitrary state to an arbitrary signal"""

    def __init__(self, t, single=False):
        Signal.__init__(self, t, single)
        ex, st = self.ex, self.st
        self.con = t.obj(st, 'connection')
        self.fields(self.con)
        kk = 'Single' if single else 'Multi'
        ex.write(st, self.hub, 'm', 8, vtable(t, r'vtable for .*%sSlotKeeper<int>, std::recursive_mutex>, int>::MyKeeper_$' % kk).at(16))
        self.idx0, self.slot0, self.sctl0 = self.read(st, self.con)
        ex.assume(st, bor(eq(self.idx0, 0), eq(self.idx0, 1)))
        # pointer and control block of a smart pointer are null together
        ex.assume(st, eq(ex.as_int(ite(eq(self.slot0, 0), 1, 0)), ex.as_int(ite(eq(self.sctl0, 0), 1, 0))))
        # the signal this connection belongs to: this one, or none
        self.hctl = t.obj(st, 'hubctl')
        hp = ex.fresh_bool(st, 'has_hub')
        self.has_hub = hp
        ex.write(st, self.con.at(self.o_hub), 'm', 8, Ptr(ite(hp, self.hub.base, 0), ite(hp, self.hub.off, 0) if not (isc(self.hub.off) and self.hub.off == 0) else 0))
        ex.write(st, self.con.at(self.o_hub + 8), 'm', 8, Ptr(ite(hp, self.hctl.base, 0), 0))
        st.ghost['hub_alive'] = st.ghost['slot_alive'] = None
        ex.hooks['weak_lock'] = self.weak_lock
        # a strong reference held by the connection keeps the slot alive
        self.sym_alive = True

    def fields(self, p):
        t = self.t
        self.o_ctor = t.off('maf::signal_slots::details::Connection', 'ctor_')
        self.o_idx = t.off('maf::signal_slots::details::Connection', 'ctor_._M_index')
        self.o_hub = t.off('maf::signal_slots::details::Connection', 'hubref_')

    def read(self, st, p):
        ex = self.ex
        return ex.read_int(st, p.at(self.o_idx), 1), ex.read_int(st, p.at(self.o_ctor), 8), ex.read_int(st, p.at(self.o_ctor + 8), 8)

    def weak_lock(self, ex, st, v):
        v = ex.as_int(v)
        for name, ctl in (('hub_alive', self.hctl.base), ('slot_alive', self.sctl0)):
            if ex.entails(st, eq(v, ctl)):
                g = gget(st, name)
                if g is None:
                    g = ex.choose(st, 2) == 0
                    gset(st, name, g)
                return g
        return None


def t_con_connected(t):
    G = Conn(t)
    ex = G.ex

    def post(s, r):
        r = ex.to_bool(r)
        ops = gget(s, 'ops')
        if ops:
            ex.mark('asked')
            ex.prove(s, 'connection/asks-its-signal', eq(r, ex.to_bool(G.one(s, 'connected', 'has', G.slot0))), 'the answer is not the one of its signal')
            ex.prove(s, 'connection/connected-state', band(eq(G.idx0, 0), gget(s, 'slot_alive') is True, gget(s, 'hub_alive') is True))
        else:
            ex.mark('not asked')
            ex.prove(s, 'connection/connected-without-slot', bnot(r), 'a connection without a live slot and signal reports to be connected')
            ex.prove(s, 'connection/connected-complete', bor(eq(G.idx0, 1), eq(G.slot0, 0), gget(s, 'slot_alive') is False, bnot(G.has_hub), gget(s, 'hub_alive') is False),
                     'the signal is not asked although slot and signal are alive')
        ex.prove(s, 'locking/released', len(s.locks) == 0)
    t.need('asked', 'not asked')
    t.run(t.fn(CON + '::connected'), G.st, [G.con], post)


def t_con_disconnect(t):
    G = Conn(t)
    ex = G.ex

    def post(s, r):
        r = ex.to_bool(r)
        ops = gget(s, 'ops')
        idx, slot, sctl = G.read(s, G.con)
        ex.prove(s, 'locking/released', len(s.locks) == 0)
        if ops:
            ex.mark('asked')
            res = ex.to_bool(G.one(s, 'disconnect', 'remove', G.slot0))
            ex.prove(s, 'connection/disconnect-reports', eq(r, res), 'the result is not the one of the signal')
            ex.prove(s, 'connection/slot-kept-for-reconnection', implies(r, band(eq(idx, 1), eq(slot, G.slot0), eq(sctl, G.sctl0))), 'after disconnecting the slot is not kept')
            ex.prove(s, 'connection/still-connected-kept', implies(bnot(r), band(eq(idx, 0), eq(slot, G.slot0))))
        else:
            ex.mark('not asked')
            ex.prove(s, 'connection/nothing-to-disconnect', bnot(r), 'reports a disconnection that did not happen')
            ex.prove(s, 'connection/disconnect-complete', bor(eq(G.idx0, 1), eq(G.slot0, 0), gget(s, 'slot_alive') is False, bnot(G.has_hub), gget(s, 'hub_alive') is False),
                     'the slot is not disconnected although slot and signal are alive')
    t.need('asked', 'not asked')
    t.run(t.fn(CON + '::disconnect'), G.st, [G.con], post)


def t_con_reconnect(t):
    G = Conn(t)
    ex = G.ex

    def post(s, r):
        r = ex.to_bool(r)
        ops = gget(s, 'ops')
        idx, slot, sctl = G.read(s, G.con)
        ex.prove(s, 'locking/released', len(s.locks) == 0)
        if ops:
            ex.mark('asked')
            res = ex.to_bool(G.one(s, 'reconnect', 'addUnique', G.slot0))
            ex.prove(s, 'connection/reconnect-reports', eq(r, res))
            ex.prove(s, 'connection/reconnected-state', implies(r, band(eq(idx, 0), eq(slot, G.slot0), eq(sctl, G.sctl0))), 'a reconnected connection does not refer to its slot')
        else:
            ex.mark('not asked')
            ex.prove(s, 'connection/nothing-to-reconnect', bnot(r), 'reports a reconnection that did not happen')
            ex.prove(s, 'connection/reconnect-complete', bor(eq(G.idx0, 0), eq(G.slot0, 0), bnot(G.has_hub), gget(s, 'hub_alive') is False),
                     'the slot is not reconnected although the signal is alive')
    t.need('asked', 'not asked')
    t.run(t.fn(CON + '::reconnect'), G.st, [G.con], post)


# -- connection objects as values
def t_con_move(kind):
    """moving a connection (kind: 'ctor', 'assign', 'scoped assign', 'scoped dtor')"""
    def run(t):
        G = Conn(t)
        ex, st = G.ex, G.st
        calls = {}

        def con_op(m):
            def f(ex, st, c):
                who = 'b' if ex.entails(st, ex.ptr_eq(c.args[0], b)) is True else 'a'
                gset(st, 'cops', gget(st, 'cops') + ((m, who, G.read(st, c.args[0])),))
                return gget(st, 'acon') if m == 'connected' else ex.fresh_bool(st, m)
            return f
        st.ghost['cops'] = ()
        st.ghost['acon'] = ex.fresh_bool(st, 'a_connected')
        b = t.obj(st, 'other')
        i0, s0, c0 = G.read(st, b)
        ex.assume(st, bor(eq(i0, 0), eq(i0, 1)))
        h0 = ex.read_int(st, b.at(G.o_hub), 8)
        hc0 = ex.read_int(st, b.at(G.o_hub + 8), 8)

        def same(s, p, what, note):
            i, sl, cc = G.read(s, p)
            ex.prove(s, what, band(eq(i, i0), eq(sl, s0), eq(cc, c0), eq(ex.read_int(s, p.at(G.o_hub), 8), h0), eq(ex.read_int(s, p.at(G.o_hub + 8), 8), hc0)), note)

        def given_up(s, p):
            i, sl, cc = G.read(s, p)
            ex.prove(s, 'connection/moved-from-empty', eq(cc, 0), 'the moved-from connection still refers to the slot')

        def post(s, r):
            same(s, G.con, 'connection/moved-intact', 'the moved connection does not refer to the slot and signal of its source')
            given_up(s, b)
            if kind == 'scoped assign':
                cops = gget(s, 'cops')
                was = gget(s, 'acon')
                dis = [o for o in cops if o[0] == 'disconnect']
                ex.prove(s, 'scoped/old-connection-ended', implies(was, len(dis) == 1 and dis[0][1] == 'a' and band(eq(dis[0][2][1], G.slot0), eq(dis[0][2][0], G.idx0))),
                         'the connection the object held is not disconnected when another one is assigned')
                ex.prove(s, 'scoped/only-old-connection-ended', all(o[1] == 'a' for o in dis), 'the assigned connection is disconnected')
        if kind == 'ctor':
            t.run(t.fn(CON + '::Connection', r'Connection::Connection\(maf::signal_slots::details::Connection&&\)'), st, [G.con, b], post)
            return
        if kind == 'assign':
            t.run(t.fn(CON + '::operator='), st, [G.con, b], post)
        else:
            ex.contracts[CON + '::connected'] = con_op('connected')
            ex.contracts[CON + '::disconnect'] = con_op('disconnect')
            S = D + 'ScopedConnection::'
            if kind == 'scoped dtor':
                def pd(s, r):
                    dis = [o for o in gget(s, 'cops') if o[0] == 'disconnect']
                    ex.prove(s, 'scoped/end-of-life-disconnects', implies(gget(s, 'acon'), len(dis) == 1 and eq(dis[0][2][1], G.slot0)), 'the connection outlives the scoped object')
                t.run(t.fn(S + '~ScopedConnection'), st, [G.con], pd)
                return
            t.run(t.fn(S + 'operator='), st, [G.con, b], post)
        # self assignment
        G2 = Conn(t)
        G = G2
        st = G2.st
        i0, s0, c0 = G2.idx0, G2.slot0, G2.sctl0
        h0 = G2.ex.read_int(st, G2.con.at(G2.o_hub), 8)
        hc0 = G2.ex.read_int(st, G2.con.at(G2.o_hub + 8), 8)
        st.ghost['cops'] = ()
        st.ghost['acon'] = ex.fresh_bool(st, 'a_connected')

        def selfpost(s, r):
            same(s, G2.con, 'connection/self-assignment-keeps', 'assigning a connection to itself loses it')
            ex.prove(s, 'scoped/self-assignment-keeps', not [o for o in gget(s, 'cops') if o[0] == 'disconnect'], 'assigning a scoped connection to itself disconnects it')
        t.run(t.fn((CON if kind == 'assign' else D + 'ScopedConnection') + '::operator='), st, [G2.con, G2.con], selfpost, cover='self assignment')
    return run


# -- connecting
class Connect(Signal):
    def __init__(self, t, single=False, rec=None, pat=None):
        Signal.__init__(self, t, single)
        ex, st = self.ex, self.st
        kk = 'Single' if single else 'Multi'
        ex.write(st, self.hub, 'm', 8, vtable(t, r'vtable for .*%sSlotKeeper<int>, std::recursive_mutex>, int>::MyKeeper_$' % kk).at(16))
        self.ret = Ptr(ex.fresh_base(st), 0)
        self.o_ctor = t.off('maf::signal_slots::details::Connection', 'ctor_')
        self.o_idx = t.off('maf::signal_slots::details::Connection', 'ctor_._M_index')
        self.o_hub = t.off('maf::signal_slots::details::Connection', 'hubref_')
        # the user's function
        self.fobj = t.obj(st, 'function')
        self.inv = t.obj(st, 'invoker')
        mgr = ex.fresh_int(st, 'manager', 1, HEAP_LIMIT - 1)
        self.f0 = ex.read(st, self.fobj, 'm', 8, ex.init_ptr)
        ex.write(st, self.fobj.at(16), 'm', 8, Ptr(mgr, 0))
        ex.write(st, self.fobj.at(24), 'm', 8, self.inv)
        self.execobj = t.obj(st, 'executor')
        self.execp = t.obj(st, 'executorptr')
        self.ectl = t.obj(st, 'executorctl')
        stl.mark_alive(ex, st, self.ectl)
        ex.write(st, self.execp, 'm', 8, self.execobj)
        ex.write(st, self.execp.at(8), 'm', 8, self.ectl)
        ex.write(st, self.execobj, 'm', 8, t.obj(st, 'evtbl'))
        ex.icall_hook = self.icall
        st.ghost.update(jobs=(), ucalls=(), order=())

    def icall(self, ex, st, p, args, ins):
        if ex.entails(st, ex.ptr_eq(p, self.inv)) is True:
            ex.prove(st, 'slot/the-users-function', ex.ptr_eq(as_ptr(ex.read(st, args[0], 'm', 8, ex.init_ptr)), as_ptr(self.f0)) if self.f0 is not None else True,
                     'what is called is not the function that was given')
            ex.prove(st, 'slot/called-outside-the-signal-lock', True)
            if self.on_user:
                self.on_user(st)
            v = ex.read_int(st, args[-1], 4)
            con = None
            if len(args) == 3:
                con = ex.read(st, args[1], 'm', 8, ex.init_ptr)
            gset(st, 'ucalls', gget(st, 'ucalls') + ((v, con),))
            if con is not None and self.user_aware:
                self.user_aware(ex, st, as_ptr(con))
            return None
        if ex.entails(st, ex.ptr_eq(args[0], self.execobj)) is True:
            job = Ptr(ex.fresh_base(st), 0)
            src = args[1]
            ex.copy_region(st, job, src, 32)
            gset(st, 'jobs', gget(st, 'jobs') + (job,))
            if ex.choose(st, 2) == 1:      # the executor refuses the job
                return False
            return True
        raise Unsupported('call of an unknown function')

    user_aware = on_user = None

    def check_con(self, s, con, added, actl, what='connection'):
        ex = self.ex
        rd = lambda o: as_ptr(ex.read(s, con.at(o), 'm', 8, ex.init_ptr))
        ex.prove(s, what + '/refers-to-the-slot', band(eq(ex.read_int(s, con.at(self.o_idx), 1), 0), ex.ptr_eq(rd(self.o_ctor), added), ex.ptr_eq(rd(self.o_ctor + 8), actl)),
                 'the connection does not control the slot that was connected')
        ex.prove(s, what + '/refers-to-the-signal', ex.ptr_eq(as_ptr(ex.read(s, con.at(self.o_hub), 'm', 8, ex.init_ptr)), self.hub), 'the connection belongs to another signal')

    def check_result(self, s):
        """the returned connection: connected to the added slot, or empty"""
        ex = self.ex
        ops = gget(s, 'ops')
        res = self.one(s, 'connect', 'add')
        added, actl = gget(s, 'added'), gget(s, 'added_ctl')
        ex.prove(s, 'locking/released', len(s.locks) == 0)
        ok = ex.to_bool(res)
        con = self.ret
        ctl = ex.read_int(s, con.at(self.o_ctor + 8), 8)
        rd = lambda o: as_ptr(ex.read(s, con.at(o), 'm', 8, ex.init_ptr))
        ex.prove(s, 'connection/refers-to-the-slot', implies(ok, band(eq(ex.read_int(s, con.at(self.o_idx), 1), 0), ex.ptr_eq(rd(self.o_ctor), added), ex.ptr_eq(rd(self.o_ctor + 8), actl))),
                 'the connection does not control the slot that was connected')
        hub = as_ptr(ex.read(s, con.at(self.o_hub), 'm', 8, ex.init_ptr))
        ex.prove(s, 'connection/refers-to-the-signal', implies(ok, ex.ptr_eq(hub, self.hub)), 'the connection belongs to another signal')
        ex.prove(s, 'connection/refused-is-empty', implies(bnot(ok), band(eq(ex.read_int(s, con.at(self.o_idx), 1), 0), eq(ctl, 0))), 'a refused slot yields a connection that refers to something')
        return as_ptr(added)


def slot_call(t):
    return t.fn('std::function::operator()', r'std::function<void \(int const&\)>::operator\(\)')


def emit_on(G, s, slot, post, v=None):
    """call the added slot with an arbitrary value, the way an emission does"""
    ex = G.ex
    a = G.t.obj(s, 'arg')
    v = ex.read_int(s, a, 4)
    G.t.run(slot_call(G.t), s, [slot, a], lambda s2, r: post(s2, a, v), cover='emission')


def t_save_slot(single):
    def run(t):
        G = Connect(t, single)
        ps = t.obj(G.st, 'slot')
        v = G.ex.read_int(G.st, ps, 8)
        G.ex.assume(G.st, bnot(eq(v, 0)))

        def post(s, r):
            G.check_result(s)
            G.ex.prove(s, 'connect/the-given-slot', eq(gget(s, 'ops')[0][1], v), 'another slot is connected')
        t.run(G.fn('saveSlot'), G.st, [G.ret, G.this, ps], post)
    return run


def t_connect_plain(single):
    def run(t):
        G = Connect(t, single)

        def post(s, r):
            slot = G.check_result(s)

            def called(s2, a, v):
                G.ex.prove(s2, 'slot/called-once-per-emission', len(gget(s2, 'ucalls')) == 1, 'the connected function is not called once per emission')
                if gget(s2, 'ucalls'):
                    G.ex.prove(s2, 'slot/value-passed', eq(gget(s2, 'ucalls')[0][0], v), 'the function receives another value')
            emit_on(G, s, slot, called)
        t.run(G.fn('connect', r'int>::connect\(std::function<void \(int const&\)>\)'), G.st, [G.ret, G.this, G.fobj], post)
    return run


def t_connect_executor(t):
    G = Connect(t)
    ex = G.ex

    def run_job(s, k, vs, then):
        job = gget(s, 'jobs')[k]
        n0 = len(gget(s, 'ucalls'))

        def ran(s2, r):
            u = gget(s2, 'ucalls')
            ex.prove(s2, 'executor/job-calls-once', len(u) == n0 + 1, 'running the job does not call the function once')
            if len(u) == n0 + 1:
                ex.prove(s2, 'executor/value-of-the-emission', eq(u[n0][0], vs[k]), 'the job does not deliver the value of its emission (it must own a copy)')
            then(s2)
        t.run(t.fn('std::function::operator()', r'std::function<void \(\)>::operator\(\)'), s, [job], ran, cover='job')

    def emitted(n, vs, then):
        def f(s2, a, v):
            ex.prove(s2, 'executor/one-job-per-emission', len(gget(s2, 'jobs')) == n, 'an emission does not hand exactly one job to the executor')
            ex.prove(s2, 'executor/not-called-by-the-emitter', len(gget(s2, 'ucalls')) == 0, 'the function runs on the emitting thread')
            # after the emission the argument may change or disappear
            ex.write(s2, a, 'm', 4, ex.fresh_int(s2, 'changed', -(1 << 31), (1 << 31) - 1))
            vs.append(v) if len(vs) < n else vs.__setitem__(n - 1, v)
            then(s2)
        return f

    def post(s, r):
        slot = G.check_result(s)
        vs = []
        emit_on(G, s, slot, emitted(1, vs, lambda s2: emit_on(G, s2, slot, emitted(2, vs, lambda s3:
                run_job(s3, 0, vs, lambda s4: run_job(s4, 1, vs, lambda s5: None) if len(gget(s4, 'jobs')) == 2 else None)))))
    t.run(G.fn('connect', r'int>::connect\(std::function<void \(int const&\)>, std::shared_ptr<maf::util::ExecutorIF>\)'), G.st, [G.ret, G.this, G.fobj, G.execp], post)


def t_connect_aware(t):
    G = Connect(t)
    ex = G.ex
    st0 = {}

    def aware(ex, st, con):
        G.check_con(st, con, gget(st, 'added'), gget(st, 'added_ctl'), 'aware')
        if ex.choose(st, 2) == 1:          # the function disconnects its connection, which then owns the slot
            gset(st, 'disconnected', True)
            ex.write(st, con.at(G.o_idx), 'm', 1, 1)
            ex.write(st, con.at(G.o_ctor), 'm', 8, gget(st, 'added'))
            ex.write(st, con.at(G.o_ctor + 8), 'm', 8, gget(st, 'added_ctl'))
    G.user_aware = aware

    def post(s, r):
        slot = G.check_result(s)

        def called(s2, a, v):
            u = gget(s2, 'ucalls')
            ex.prove(s2, 'slot/called-once-per-emission', len(u) == 1, 'the connected function is not called once per emission')
            if u:
                ex.prove(s2, 'slot/value-passed', eq(u[0][0], v))
                con = as_ptr(u[0][1])
                if gget(s2, 'disconnected'):
                    ex.mark('self disconnect')
                    ex.prove(s2, 'aware/no-cycle-after-disconnect', eq(ex.read_int(s2, con.at(G.o_ctor + 8), 8), 0), 'the disconnected slot keeps itself alive through its connection')
        emit_on(G, s, slot, called)
    t.need('self disconnect')
    t.run(G.fn('connect', r'int>::connect\(std::function<void \(std::shared_ptr<maf::signal_slots::details::Connection> const&, int const&\)>\)'), G.st, [G.ret, G.this, G.fobj], post)


def t_connect_tracked(t):
    G = Connect(t)
    ex, st = G.ex, G.st
    obj = t.obj(st, 'tracked')
    octl = t.obj(st, 'trackedctl')
    op = t.obj(st, 'trackedptr')
    ex.write(st, op, 'm', 8, obj)
    ex.write(st, op.at(8), 'm', 8, octl)

    def weak_lock(ex, st, v):
        if ex.entails(st, eq(ex.as_int(v), octl.base)) is True:
            a = ex.choose(st, 2) == 0
            gset(st, 'alive', a)
            return a
        return None
    ex.hooks['weak_lock'] = weak_lock

    def strong(ex, st, v, d):
        gset(st, 'tracked_held', add(gget(st, 'tracked_held'), ite(eq(ex.as_int(v), octl.base), d, 0)))

    def disc(ex, st, c):
        G.check_con(st, c.args[0], gget(st, 'added'), gget(st, 'added_ctl'), 'tracked')
        gadd(st, 'ndisc')
        return ex.fresh_bool(st, 'disc')
    ex.contracts[CON + '::disconnect'] = disc
    G.on_user = lambda st: ex.prove(st, 'tracked/object-kept-alive-during-the-call', lt(0, gget(st, 'tracked_held')), 'nothing keeps the tracked object alive while its function runs')

    def post(s, r):
        slot = G.check_result(s)
        ex.hooks['strong'] = strong
        s.ghost['tracked_held'] = 0

        def called(s2, a, v):
            u = gget(s2, 'ucalls')
            alive = gget(s2, 'alive')
            ex.prove(s2, 'tracked/asks-for-the-object', alive is not None, 'the slot does not depend on the tracked object')
            if alive:
                ex.mark('alive')
                ex.prove(s2, 'tracked/called-while-alive', len(u) == 1 and eq(u[0][0], v), 'the function is not called with the emitted value although the tracked object is alive')
                ex.prove(s2, 'tracked/connected-while-alive', eq(gget(s2, 'ndisc', 0), 0), 'disconnected although the tracked object is alive')
            elif alive is False:
                ex.mark('dead')
                ex.prove(s2, 'tracked/not-called-after-death', len(u) == 0, 'the function is called after the tracked object was destroyed')
                ex.prove(s2, 'tracked/disconnected-after-death', eq(gget(s2, 'ndisc', 0), 1), 'the slot of a destroyed object stays connected')
        emit_on(G, s, slot, called)
    t.need('alive', 'dead')
    t.run(G.fn('connect', r'int>::connect\(std::shared_ptr<void>, std::function<void \(int const&\)>\)'), st, [G.ret, G.this, op, G.fobj], post)


def t_shared_sc(t):
    """which slot keeper the single-connection signal with a shared mutex is made of"""
    st = t.state()
    fs = t.ex.find(D + 'BasicSignal_::saveSlot', lambda d: 'MutexReference' in d)
    t.ex.prove(st, 'single/shared-mutex-signal-is-single', len(fs) > 0 and all('SingleSlotKeeper' in t.ex.mods[0].demangle(f.name) for f in fs),
               'a single-connection signal with a shared mutex keeps a list of slots')


S02 = [('Connection::connected', t_con_connected), ('Connection::disconnect', t_con_disconnect), ('Connection::reconnect', t_con_reconnect),
       ('Connection::Connection(&&)', t_con_move('ctor')), ('Connection::operator=', t_con_move('assign')),
       ('ScopedConnection::operator=', t_con_move('scoped assign')), ('ScopedConnection::~ScopedConnection', t_con_move('scoped dtor')),
       ('Signal::saveSlot', t_save_slot(False)), ('SCSignal::saveSlot', t_save_slot(True)),
       ('Signal::connect(function)', t_connect_plain(False)), ('SCSignal::connect(function)', t_connect_plain(True)),
       ('Signal::connect(executor)', t_connect_executor), ('Signal::connect(aware)', t_connect_aware), ('Signal::connect(tracked)', t_connect_tracked)]
S01 = S01 + [('SharedMutexSCSignal', t_shared_sc)]
TASKS = S01 + S02

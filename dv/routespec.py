"""Contracts of the routing between processors (R01): Router, routing::*, Processor::create.

The table of processors is a set ordered by id under the router's lock.  A processor X with an arbitrary id is tracked:
whether it is in the table, what it was asked and what was posted to it.  Processors obey the contracts of P01 and P02."""
from procspec import *

RT = N + 'details::Router'
RO = N + 'routing::'
REACH, UNREACH = 0, 1


class Rout:
    def __init__(self, t):
        self.t, self.ex = t, t.ex
        ex = self.ex
        self.st = st = t.state()
        ex.gfld['same_region'] = True
        self.r = t.obj(st, 'router')
        off = t.off(RT, 'messageprocessors_')
        rec = r'maf::threading::Lockable<std::set<std::shared_ptr<maf::messaging::Processor.*'
        self.mtx, self.set = self.r.at(off + t.off(rec, '_mutex')), self.r.at(off + t.off(rec, '_protected'))
        ex.gfld.setdefault('keyreaders', {})['std::shared_ptr<maf::messaging::Processor>'] = self.kr
        ex.gfld.setdefault('lookup', {})['std::shared_ptr<maf::messaging::Processor>'] = self.lookup
        C = ex.contracts
        C['maf::pattern::SingletonObject::instance'] = lambda ex, st, c: self.r
        C[PR + '::id'] = self.c_id
        C[PR + '::connected'] = self.c_connected
        C[PR + '::post'] = self.c_post
        C[PR + '::waitablePost'] = self.c_wpost
        C['std::future::get'] = self.c_get
        C['std::__basic_future::wait'] = self.c_get
        C['dv_future_of'] = self.c_future_of
        C['std::future::~future'] = C['std::__basic_future::~__basic_future'] = lambda ex, st, c: None
        ex.hooks['lock'], ex.hooks['unlock'] = self.lock, self.unlock
        ex.hooks['container_access'] = self.access
        ex.hooks['erased'], ex.hooks['inserted'] = self.erased, self.inserted
        ex.hooks['seq_init'] = lambda ex, st, p, S, ep: setattr(S, 'ep', ep)
        ex.hooks['seq_node'] = self.seq_node
        ex.hooks['seq_store'] = self.stored
        ex.loop_hooks.append(self.inv)
        # ids of the processors
        self.X = ex.fresh_int(st, 'tracked id', 1, (1 << 48) - 1)
        self.px = {}
        for k in ('locked', 'askx', 'nox', 'postx', 'anyok', 'tells', 'erx', 'insx', 'made', 'getx', 'getsum', 'sigx', 'newtold', 'newno', 'posts', 'asks'):
            gset(st, k, 0)
        gset(st, 'new', NULL)
        self.table(st)

    # -- ids
    def pid(self, p):
        b = p.base if not isc(p.base) else z3.IntVal(p.base)
        return uf('pid')(b)

    def kr(self, ex, st, p):
        q = rp(ex, st, p)
        i = self.pid(q)
        ex.assume(st, band(lt(0, i), lt(i, 1 << 48)))
        return (i,)

    def lookup(self, ex, st, p):
        # heterogeneous find(): by an id
        return (get_str(ex, st, p),)

    def c_id(self, ex, st, c):
        q = Ptr(ex.fresh_base(st), 0)
        i = self.pid(as_ptr(c.args[0]))
        ex.assume(st, band(lt(0, i), lt(i, 1 << 48)))
        set_str(ex, st, q, i)
        return q

    # -- the table
    def table(self, st):
        return stl.get_seq(self.ex, st, self.set, self.kr)

    def mine(self, p, what=None):
        w = what or self.set
        return eq(p.base, w.base) is True and eq(p.off, w.off) is True

    def lock(self, ex, st, p):
        if not self.mine(p, self.mtx):
            return
        if gget(st, 'locked'):
            stl.set_seq(ex, st, self.set, stl.SeqInit(ex, st, self.kr))
        gset(st, 'locked', gget(st, 'locked') + 1)
        gset(st, 'M0', self.table(st))
        if gget(st, 'locked') == 1:
            gset(st, 'first M0', self.table(st))

    def unlock(self, ex, st, p):
        if self.mine(p, self.mtx):
            if gget(st, 'locked') == 1:
                gset(st, 'first M1', self.table(st))
            gset(st, 'M1', self.table(st))

    def access(self, ex, st, p, *a):
        if self.mine(p):
            ex.prove(st, 'routing/table-locked', bool(st.locks), 'the table of processors is used without its lock')

    def at(self, st, M, k):
        """(is k in the table, its processor)"""
        ex = self.ex
        c = M.contains(ex, st, (k,))
        q = rp(ex, st, Ptr(M.node(ex, st, M.pos(ex, st, (k,))), 0))
        ex.assume(st, implies(c, band(bnot(eq(q.base, 0)), eq(q.off, 0))))
        return c, q

    def erased(self, ex, st, cont, nd):
        if self.mine(cont):
            gset(st, 'erx', gget(st, 'erx') + 1)
            gset(st, 'erased', rp(ex, st, Ptr(nd, 0)))

    def inserted(self, ex, st, cont, nd):
        if self.mine(cont):
            gset(st, 'insx', gget(st, 'insx') + 1)
            gset(st, 'added', rp(ex, st, Ptr(nd, 0)))

    # -- processors
    def isx(self, p):
        return eq(self.pid(p), self.X)

    def tells(self, st, m):
        """the processor and the status in a status message"""
        ex = self.ex
        d = rp(ex, st, m.at(8))
        return rp(ex, st, d), ex.read_int(st, d.at(16), 1)

    def c_connected(self, ex, st, c):
        if 'Data' in c.dem:
            return '$body'
        p = as_ptr(c.args[0])
        ty = rd(ex, st, c.args[1])
        ex.prove(st, 'routing/asks-about-the-message', bor(eq(ty, gget(st, 'type', -1)), eq(ty, gget(st, 'any type', -1))), 'asks a processor about another kind of message')
        r = ex.fresh_int(st, 'connected', 0, 1)
        x = self.isx(p)
        gset(st, 'nox', ite(x, ite(eq(r, 0), 1, gget(st, 'nox')), gget(st, 'nox')))
        n = ex.ptr_eq(p, gget(st, 'new'))
        gset(st, 'newno', ite(band(n, eq(r, 0)), 1, gget(st, 'newno')))
        gadd(st, 'asks')
        return eq(r, 1)

    def note(self, ex, st, p, m):
        x = self.isx(p)
        gadd(st, 'posts')
        h = getattr(self, 'on_post', None)
        if h:
            x = h(st, p, m, x)
        gset(st, 'postx', add(gget(st, 'postx'), ite(x, 1, 0)))
        return x

    def c_post(self, ex, st, c):
        if 'ProcessorStatusUpdateMsg' in c.dem:
            return '$body'
        p = as_ptr(c.args[0])
        self.note(ex, st, p, as_ptr(c.args[1]))
        r = ex.fresh_int(st, 'accepted', 0, 1)
        gset(st, 'anyok', ite(eq(r, 1), 1, gget(st, 'anyok')))
        gset(st, 'okx', r)
        gset(st, 'posted to', p)
        return eq(r, 1)

    def sig(self, p):
        b = p.base if not isc(p.base) else z3.IntVal(p.base)
        return uf('sigof')(b)

    def c_wpost(self, ex, st, c):
        out, p, m = c.args[0], as_ptr(c.args[1]), as_ptr(c.args[2])
        ex.prove(st, 'routing/no-lock-while-handlers-run', not st.locks, 'handlers may run while a lock is held')
        x = self.note(ex, st, p, m)
        r = ex.fresh_int(st, 'accepted', 0, 1)
        s = self.sig(p)
        ex.assume(st, band(lt(0, s), lt(s, HEAP_LIMIT), eq(uf('sigowner')(s), self.pid(p))))
        ok = eq(r, 1)
        gset(st, 'anyok', ite(ok, 1, gget(st, 'anyok')))
        gset(st, 'sigx', ite(band(x, ok), s, gget(st, 'sigx')))
        gset(st, 'posted to', p)
        ex.write(st, out, 'm', 8, Ptr(ite(ok, s, 0), 0))
        ex.write(st, out.at(8), 'm', 8, NULL)
        return None

    def c_get(self, ex, st, c):
        ex.prove(st, 'routing/no-lock-while-waiting', not st.locks)
        f = rp(ex, st, c.args[0])
        s = gget(st, 'sigx')
        ex.prove(st, 'routing/waits-for-a-signal', bnot(eq(f.base, 0)), 'waits for nothing: fails')
        gset(st, 'getx', add(gget(st, 'getx'), ite(band(eq(f.base, s), bnot(eq(s, 0))), 1, 0)))
        return None

    def c_future_of(self, ex, st, c):
        gset(st, 'made', gget(st, 'made') + 1)
        gset(st, 'policy', ex.as_int(c.args[1]))
        g = Ptr(ex.fresh_base(st), 0)
        ex.copy_region(st, g, c.args[2], 32)
        ex.write(st, c.args[2].at(16), 'm', 8, NULL)
        gset(st, 'function', g)
        ex.write(st, c.args[0], 'm', 8, Ptr(ex.fresh_base(st), 0))
        ex.write(st, c.args[0].at(8), 'm', 8, NULL)
        return None

    # -- lists of signals: the one of X is at posx, or not in it (-1)
    def posx(self, st, S):
        ex = self.ex
        if isinstance(S, stl.SeqEmpty):
            return -1
        if isinstance(S, stl.SeqCopy):
            return self.posx(st, S.src)
        if isinstance(S, stl.SeqIns):
            j = self.posx(st, S.par)
            e = self.sigisx(st, S.base)
            return ite(e, S.p, ite(le(S.p, j), add(j, 1), j))
        if isinstance(S, stl.SeqCat):
            a, b = self.posx(st, S.a), self.posx(st, S.b)
            return ite(le(0, a), a, ite(le(0, b), add(b, S.a.n), -1))
        if isinstance(S, stl.SeqInit):
            c = self.px.get(S.uid)
            if c is None:
                c = self.px[S.uid] = z3.Int('posx:' + S.uid)
            ex.assume(st, band(c >= -1, lt(c, S.n)))
            return c
        raise Unsupported('position in this list %s' % type(S).__name__)

    def sigisx(self, st, nd):
        s = gget(st, 'sigx')
        return band(eq(rp(self.ex, st, Ptr(nd, 0)).base, s), bnot(eq(s, 0)))

    def seq_node(self, ex, st, S, i, nd):
        if S.kr is None:
            f = rp(ex, st, Ptr(nd, 0))
            s = gget(st, 'sigx')
            ib = band(le(0, i), lt(i, S.n))
            ex.assume(st, implies(ib, band(eq(self.sigisx(st, nd), eq(self.posx(st, S), i)), bnot(eq(f.base, 0)), eq(f.off, 0))))

    def stored(self, ex, st, p, S, *a):
        # where the list of signals is
        if S.kr is None and not isinstance(S, stl.SeqEmpty):
            gset(st, 'list', p)

    # -- loops
    def inv(self, ex, entry, head, rec, fi, norm):
        out = []
        vecs = [sl for sl in rec.slots if getattr(sl, 'kind', None) == 'seq' and isinstance(sl.get(ex, head, fi), stl.Seq) and sl.get(ex, head, fi).kr is None]
        for sl in signalspec.iters(ex, head, rec, fi, None):
            v = sl.get(ex, head, fi)

            def idx(st, sl=sl):
                return stl.iter_idx(ex, st, sl.get(ex, st, fi))
            if v.seq.kr is None:
                S, g0 = v.seq, gget(entry, 'getx')
                out.append(('waited:' + sl.name, lambda st, S=S, idx=idx, g0=g0: eq(gget(st, 'getx'), add(g0, ite(band(le(0, self.posx(st, S)), lt(self.posx(st, S), idx(st))), 1, 0)))))
                continue
            M = v.seq

            def passed(st, idx=idx, M=M):
                return band(M.contains(ex, st, (self.X,)), lt(M.pos(ex, st, (self.X,)), idx(st)))
            p0, n0, k0, w0, s0 = [gget(entry, k) for k in ('postx', 'nox', 'newtold', 'newno', 'sigx')]
            out.append(('before:' + sl.name, lambda st, p=passed: implies(bnot(p(st)), band(eq(gget(st, 'postx'), p0), eq(gget(st, 'nox'), n0), eq(gget(st, 'sigx'), s0)))))
            out.append(('once:' + sl.name, lambda st, p=passed: implies(p(st), bor(eq(gget(st, 'postx'), add(p0, 1)), band(eq(gget(st, 'postx'), p0), eq(gget(st, 'nox'), 1))))))
            out.append(('kept:' + sl.name, lambda st: band(eq(gget(st, 'postx'), p0), eq(gget(st, 'nox'), n0))))
            out.append(('newbefore:' + sl.name, lambda st, p=passed: implies(bnot(p(st)), eq(gget(st, 'newtold'), k0))))
            out.append(('newonce:' + sl.name, lambda st, p=passed: implies(p(st), bor(eq(gget(st, 'newtold'), add(k0, 1)), band(eq(gget(st, 'newtold'), k0), eq(gget(st, 'newno'), 1))))))
            out.append(('newkept:' + sl.name, lambda st: eq(gget(st, 'newtold'), k0)))
            for w in vecs:
                out.append(('collected:' + sl.name, lambda st, w=w: eq(le(0, self.posx(st, w.get(ex, st, fi))), bnot(eq(gget(st, 'sigx'), 0)))))
                out.append(('any:' + sl.name, lambda st, w=w: eq(eq(w.get(ex, st, fi).n, 0), eq(gget(st, 'anyok'), 0))))
        # how many have taken it, counted
        its = [sl for sl in signalspec.iters(ex, head, rec, fi, None)]
        for o in rec.slots:
            v = o.get(ex, head, fi) if not isinstance(o, loops.GhostSlot) and getattr(o, 'kind', None) != 'seq' else None
            if v is None or isinstance(v, (Ptr, IterVal, stl.Seq, bool)) or not (isc(v) or z3.is_int(v)):
                continue
            out.append(('counted ' + o.name, lambda st, o=o: eq(lt(0, o.get(ex, st, fi)), eq(gget(st, 'anyok'), 1))))
            for sl in its:
                out.append(('counted-at-most %s %s' % (o.name, sl.name), lambda st, o=o, sl=sl: le(o.get(ex, st, fi), stl.iter_idx(ex, st, sl.get(ex, st, fi)))))
        out.append(('noanswer', lambda st: band(le(0, gget(st, 'nox')), le(gget(st, 'nox'), 1), le(0, gget(st, 'newno')), le(gget(st, 'newno'), 1), le(0, gget(st, 'anyok')), le(gget(st, 'anyok'), 1))))
        out.append(('sigx', lambda st: band(le(0, gget(st, 'sigx')), implies(bnot(eq(gget(st, 'sigx'), 0)), band(eq(uf('sigowner')(gget(st, 'sigx')), self.X), eq(gget(st, 'anyok'), 1))))))
        at = gget(entry, 'list')
        for o in rec.slots:
            if isinstance(o, loops.GhostSlot):
                continue

            def val_(st, o=o):
                x = o.get(ex, st, fi)
                if isinstance(x, (Ptr, IterVal, stl.Seq)) or x is None:
                    raise Unsupported('not a number')
                return ex.as_int(x)
            try:
                val_(entry)
            except (Unsupported, Fork, PathEnd):
                continue
            if isinstance(at, Ptr):
                # counting through the list
                S, g0 = stl.get_seq(ex, entry, at), gget(entry, 'getx')
                out.append(('counted:' + o.name, lambda st, S=S, val_=val_, g0=g0: eq(gget(st, 'getx'), add(g0, ite(band(le(0, self.posx(st, S)), lt(self.posx(st, S), val_(st))), 1, 0)))))
            out.append(('flag:%s' % o.name, lambda st, val_=val_: eq(bnot(eq(val_(st), 0)), bnot(eq(gget(st, 'anyok'), 0)))))
        return out

    # -- inputs
    def message(self, st):
        m = self.t.obj(st, 'msg')
        mgr, data = rd(self.ex, st, m), rd(self.ex, st, m.at(8))
        self.ex.assume(st, bnot(eq(mgr, 0)))
        gset(st, 'mgr', mgr)
        gset(st, 'data', data)
        gset(st, 'type', uf('anytype')(mgr))

        def on_post(s, p, q, x):
            self.ex.prove(s, 'routing/the-message', band(eq(rd(self.ex, s, q), mgr), eq(rd(self.ex, s, q.at(8)), data)), 'a processor gets another message than the one sent')
            return x
        self.on_post = on_post
        return m

    def sp(self, st, name, null=False):
        """a shared pointer to a processor"""
        ex, t = self.ex, self.t
        h, p, ctl = t.obj(st, name + 'sp'), t.obj(st, name), t.obj(st, name + 'ctl')
        ex.write(st, p, 'm', 8, p)
        ex.write(st, p.at(8), 'm', 8, ctl)
        ex.write(st, h, 'm', 8, NULL if null else p)
        ex.write(st, h.at(8), 'm', 8, NULL if null else ctl)
        i = self.pid(p)
        ex.assume(st, band(lt(0, i), lt(i, 1 << 48)))
        return h, p

    def id(self, st):
        i = self.ex.fresh_int(st, 'id', 0, (1 << 48) - 1)
        h = Ptr(self.ex.fresh_base(st), 0)
        set_str(self.ex, st, h, i)
        return h, i


def t_find(which):
    def task(t):
        R = Rout(t)
        ex, st = R.ex, R.st
        f = t.fn(which, r'findProcessor')
        h, i = R.id(st)
        out = Ptr(ex.fresh_base(st), 0)
        t.need('found', 'unknown')

        def post(s, r):
            M = gget(s, 'first M0')
            if M is None:
                ex.fail(s, 'routing/table-used', 'the table is not looked at')
                return
            c, q = R.at(s, M, i)
            got = rp(ex, s, out)
            if ex.decide(s, c):
                ex.mark('found')
                ex.prove(s, 'routing/finds-it', ex.ptr_eq(got, q), 'a routed processor is not found')
            else:
                ex.mark('unknown')
                ex.prove(s, 'routing/finds-nothing', eq(got.base, 0), 'something is found for an unknown id')
            ex.prove(s, 'routing/table-kept', R.table(s) is M and not s.locks)
        args = [out] + ([R.r] if which.startswith(RT) else []) + [h]
        t.run(f, st, args, post)
    return task


def t_to_one(which, wait):
    def task(t):
        R = Rout(t)
        ex, st = R.ex, R.st
        f = t.fn(which, r'std::any')
        h, i = R.id(st)
        m = R.message(st)
        ex.assume(st, eq(i, R.X))
        out = Ptr(ex.fresh_base(st), 0)
        t.need('delivered', 'unknown', 'refused')

        def post(s, r):
            M = gget(s, 'first M0')
            if M is None:
                ex.fail(s, 'routing/table-used', 'the table is not looked at')
                return
            c, q = R.at(s, M, i)
            ok = bnot(eq(rp(ex, s, out).base, 0)) if wait else ex.to_bool(r)
            if ex.decide(s, c):
                ex.mark('delivered')
                ex.prove(s, 'routing/to-it-once', band(eq(gget(s, 'posts'), 1), eq(gget(s, 'postx'), 1)), 'the message does not go exactly once to the processor of that id')
                if gget(s, 'posts'):
                    ex.prove(s, 'routing/to-that-one', ex.ptr_eq(gget(s, 'posted to'), q), 'another processor gets the message')
                    if wait:
                        ex.prove(s, 'routing/its-signal', ex.ptr_eq(rp(ex, s, out), Ptr(ite(eq(gget(s, 'anyok'), 1), R.sig(q), 0), 0)), 'what is waited for is not the handling of this message')
                    else:
                        ex.prove(s, 'routing/its-answer', eq(ok, eq(gget(s, 'anyok'), 1)), 'the result is not that of the processor')
                    if not ex.decide(s, eq(gget(s, 'anyok'), 1)):
                        ex.mark('refused')
            else:
                ex.mark('unknown')
                ex.prove(s, 'routing/nobody', band(eq(gget(s, 'posts'), 0), bnot(ok)), 'a message to an unknown id is accepted')
            ex.prove(s, 'routing/locks-released', not s.locks)
        args = ([out] if wait else []) + ([R.r] if which.startswith(RT) else []) + [h, m]
        t.run(f, st, args, post)
    return task


def t_to_all(which, wait):
    def task(t):
        R = Rout(t)
        ex, st = R.ex, R.st
        f = t.fn(which, r'std::any')
        m = R.message(st)
        out = Ptr(ex.fresh_base(st), 0)
        t.need('joined', 'not joined', 'accepted', 'nobody')

        def post(s, r):
            M = gget(s, 'first M0')
            if M is None:
                ex.fail(s, 'routing/table-used', 'the table is not looked at')
                return
            c, q = R.at(s, M, R.X)
            any_ = eq(gget(s, 'anyok'), 1)
            ok = bnot(eq(rp(ex, s, out).base, 0)) if wait else ex.to_bool(r)
            ex.prove(s, 'routing/result', eq(ok, any_), 'accepted is reported although nobody takes the message, or the reverse')
            ex.prove(s, 'routing/locks-released', not s.locks)
            if ex.decide(s, c):
                ex.mark('joined')
                n = gget(s, 'postx')
                ex.prove(s, 'routing/each-once', bor(eq(n, 1), band(eq(n, 0), eq(gget(s, 'nox'), 1))), 'a processor that handles the message does not get it exactly once')
            else:
                ex.mark('not joined')
                ex.prove(s, 'routing/only-routed-ones', eq(gget(s, 'postx'), 0), 'a processor that is not routed gets the message')
            if not ex.decide(s, any_):
                ex.mark('nobody')
                return
            ex.mark('accepted')
            if wait:
                ex.prove(s, 'routing/one-thing-to-wait-for', eq(gget(s, 'made'), 1))
                if not gget(s, 'made'):
                    return
                ex.prove(s, 'routing/waits-when-asked', eq(gget(s, 'policy'), 2), 'waiting starts before somebody asks for it')
                ex.prove(s, 'routing/not-yet-waited', eq(gget(s, 'getx'), 0), 'waits for the handlers before returning')

                def after(s2, r2):
                    ex.prove(s2, 'routing/waits-for-all', implies(bnot(eq(gget(s2, 'sigx'), 0)), eq(gget(s2, 'getx'), 1)), 'waiting ends before all have handled the message')
                t.run(call_op(t), s, [gget(s, 'function')], after, cover='waited')
        args = ([out] if wait else []) + ([R.r] if which.startswith(RT) else []) + [m]
        t.run(f, st, args, post)
    return task


def status(R, who, kind, new=False):
    """posts are status messages about `who`; with new: what `who` itself is told about X is counted too"""
    ex = R.ex

    def on_post(s, p, m, x):
        about, st = R.tells(s, m)
        if new and ex.decide(s, ex.ptr_eq(p, who)):
            ex.prove(s, 'routing/tells-reachable', eq(st, REACH), 'the new one is told that others are gone')
            gset(s, 'newtold', add(gget(s, 'newtold'), ite(eq(R.pid(about), R.X), 1, 0)))
            ex.prove(s, 'routing/tells-about-routed', R.at(s, gget(s, 'M0'), R.pid(about))[0], 'the new one is told about one that is not routed')
            return False
        ex.prove(s, 'routing/tells-about-it', band(ex.ptr_eq(about, who), eq(st, kind)), 'others are told about another processor or another status')
        return x
    R.on_post = on_post


def statustype(R):
    """the type of status messages; library: an any made from one says so"""
    ex = R.ex
    ty = ex.as_int(typeinfo(R.t, r'_ZTIN3maf9messaging7routing24ProcessorStatusUpdateMsgE$'))
    fs = [k for m in R.t.prog.mods for k in m.funcs if 'ProcessorStatusUpdateMsg' in k and '_S_manage' in k]
    if not fs:
        raise Unsupported('status messages')
    gset(R.st, 'any type', uf('anytype')(z3.IntVal(ex.fn_ptr(fs[0]).base)))
    return ty


def t_add(t):
    R = Rout(t)
    ex = R.ex
    f = t.fn(RT + '::addProcessor')
    t.need('nothing', 'taken', 'added', 'told')
    for null in (True, False):
        ty = statustype(R)
        st = R.st.clone()
        h, p = R.sp(st, 'new', null)
        gset(st, 'new', NULL if null else p)
        gset(st, 'type', ty)
        status(R, p, REACH, True)
        if not null:
            ex.assume(st, bnot(eq(R.pid(p), R.X)))

        def post(s, r, null=null, p=p):
            r = ex.to_bool(r)
            ex.prove(s, 'routing/locks-released', not s.locks)
            n, e = gget(s, 'insx'), gget(s, 'erx')
            ex.prove(s, 'routing/none-removed', eq(e, 0), 'adding a processor removes another one')
            if null:
                ex.mark('nothing')
                ex.prove(s, 'routing/no-processor', band(bnot(r), eq(n, 0), eq(gget(s, 'posts'), 0)))
                return
            M = gget(s, 'first M0')
            if M is None:
                ex.fail(s, 'routing/table-used', 'the table is not looked at')
                return
            if ex.decide(s, M.contains(ex, s, (R.pid(p),))):
                ex.mark('taken')
                ex.prove(s, 'routing/id-taken', band(bnot(r), eq(n, 0), eq(gget(s, 'posts'), 0)), 'a second processor of the same id is accepted or announced')
                return
            ex.mark('added')
            ex.prove(s, 'routing/added', band(r, eq(n, 1)), 'a processor with a new id is not added, or that is not reported')
            if n:
                ex.prove(s, 'routing/added-itself', ex.ptr_eq(gget(s, 'added'), p), 'something else is added')
            ex.prove(s, 'routing/checked-and-added-at-once', eq(gget(s, 'locked'), 1), 'another processor may take the id in between')
            c, q = R.at(s, M, R.X)
            if ex.decide(s, c):
                ex.mark('told')
                k = gget(s, 'postx')
                ex.prove(s, 'routing/others-told', bor(eq(k, 1), band(eq(k, 0), eq(gget(s, 'nox'), 1))), 'a processor is not told exactly once that another one has come')
                k = gget(s, 'newtold')
                ex.prove(s, 'routing/new-one-told', bor(eq(k, 1), band(eq(k, 0), eq(gget(s, 'newno'), 1))), 'the new one is not told exactly once about one that is there')
            else:
                ex.prove(s, 'routing/no-others-told', band(eq(gget(s, 'postx'), 0), eq(gget(s, 'newtold'), 0)))
        t.run(f, st, [R.r, h], post)


def t_remove(t):
    R = Rout(t)
    ex, st = R.ex, R.st
    f = t.fn(RT + '::removeProcessor')
    t.need('removed', 'not there', 'another one', 'told')
    h, p = R.sp(st, 'leaving')
    gset(st, 'type', statustype(R))
    status(R, p, UNREACH)
    ex.assume(st, bnot(eq(R.pid(p), R.X)))

    def post(s, r):
        r = ex.to_bool(r)
        ex.prove(s, 'routing/locks-released', not s.locks)
        M = gget(s, 'first M0')
        n = gget(s, 'erx')
        if M is None:
            ex.fail(s, 'routing/table-used', 'the table is not looked at')
            return
        ex.prove(s, 'routing/none-added', eq(gget(s, 'insx'), 0))
        c, q = R.at(s, M, R.pid(p))
        if not ex.decide(s, c):
            ex.mark('not there')
            ex.prove(s, 'routing/nothing-removed', band(bnot(r), eq(n, 0), eq(gget(s, 'posts'), 0)), 'a processor that is not routed is removed or announced as gone')
            return
        if not ex.decide(s, ex.ptr_eq(q, p)):
            ex.mark('another one')
            ex.prove(s, 'routing/other-one-kept', band(bnot(r), eq(n, 0), eq(gget(s, 'posts'), 0)), 'another processor with the same id is removed')
            return
        ex.mark('removed')
        ex.prove(s, 'routing/removed', band(r, eq(n, 1)), 'a processor is not removed, or that is not reported')
        if n:
            ex.prove(s, 'routing/removed-itself', ex.ptr_eq(gget(s, 'erased'), p), 'another processor is removed')
        M2 = gget(s, 'M0')
        c, q = R.at(s, M2, R.X)
        if ex.decide(s, c):
            ex.mark('told')
            k = gget(s, 'postx')
            ex.prove(s, 'routing/others-told', bor(eq(k, 1), band(eq(k, 0), eq(gget(s, 'nox'), 1))), 'a processor is not told exactly once that another one has gone')
        else:
            ex.prove(s, 'routing/no-others-told', eq(gget(s, 'postx'), 0))
    t.run(f, st, [R.r, h], post)


def t_create(t):
    """a processor without a name gets one and is not routed; one with a name exists only when routing takes it"""
    R = Rout(t)
    ex = R.ex
    f = t.fn(PR + '::create')
    t.need('anonymous', 'routed', 'refused')
    C = ex.contracts
    del C[PR + '::id']
    gid = ex.fresh_int(R.st, 'generated', 1, (1 << 48) - 1)

    def gen(ex, st, c):
        gadd(st, 'gens')
        set_str(ex, st, c.args[0], gid)
    C[N + 'generateAnonymousID'] = gen
    C[N + 'isAnonymous'] = lambda ex, st, c: False       # names given by the user (asserted)
    for k in ('close', 'clear', 'ThreadSafeQueue', '~ThreadSafeQueue'):
        C[Q + k] = lambda ex, st, c: None

    def add_(ex, st, c):
        gadd(st, 'adds')
        q = rp(ex, st, as_ptr(c.args[1]))
        gset(st, 'given', q)
        gset(st, 'given id', get_str(ex, st, rp(ex, st, q.at(t.off(PR, 'd_'))).at(t.off(PD, 'id'))))
        r = ex.fresh_int(st, 'took', 0, 1)
        gset(st, 'took', r)
        return eq(r, 1)

    def find_(ex, st, c):
        # says nothing about what others do right after
        ex.write(st, c.args[0], 'm', 8, Ptr(ex.fresh_int(st, 'who', 0, HEAP_LIMIT - 1), 0))
        ex.write(st, c.args[0].at(8), 'm', 8, NULL)
    C[RT + '::addProcessor'], C[RT + '::findProcessor'] = add_, find_
    for k in ('adds', 'gens'):
        gset(R.st, k, 0)
    for named in (False, True):
        st = R.st.clone()
        h, i = R.id(st)
        ex.assume(st, bnot(eq(i, 0)) if named else eq(i, 0))
        out = Ptr(ex.fresh_base(st), 0)

        def post(s, r, named=named, i=i):
            p = rp(ex, s, out)
            n = gget(s, 'adds')
            got = bnot(eq(p.base, 0))
            if not named:
                ex.mark('anonymous')
                ex.prove(s, 'routing/anonymous-exists', got, 'there is no processor')
                ex.prove(s, 'routing/anonymous-not-routed', eq(n, 0), 'a processor without a name is routed')
                ex.prove(s, 'routing/anonymous-id', eq(gget(s, 'gens'), 1))
                want = gid
            else:
                want = i
                ex.prove(s, 'routing/offered-once', eq(n, 1), 'a processor with a name is not offered to routing exactly once')
                if not n:
                    return
                ok = eq(gget(s, 'took'), 1)
                ex.prove(s, 'routing/offered-under-its-name', eq(gget(s, 'given id'), i), 'routing gets it under another name')
                ex.prove(s, 'routing/exists-if-routed', eq(got, ok), 'a processor with a name that is in use is handed out, or a routed one is not')
                if not ex.decide(s, ok):
                    ex.mark('refused')
                    return
                ex.mark('routed')
                ex.prove(s, 'routing/routed-itself', ex.ptr_eq(gget(s, 'given'), p), 'another processor than the routed one is handed out')
            if ex.decide(s, got):
                d = rp(ex, s, p.at(t.off(PR, 'd_')))
                ex.prove(s, 'routing/name', eq(get_str(ex, s, d.at(t.off(PD, 'id'))), want), 'the processor has another name')
        t.run(f, st, [out, h], post)


def t_compare(t):
    """the table is ordered by id (what makes it a set of processors with different ids)"""
    R = Rout(t)
    ex = R.ex
    t.need('processors', 'with id', 'id with')
    cmp = N + 'details::ProcessorCompare::operator()'
    for nm, rx in (('processors', r'\(std::shared_ptr<.*std::shared_ptr<'), ('with id', r'\(std::shared_ptr<.*string<(?!.*shared_ptr)'), ('id with', r'\(std::(__cxx11::)?basic_string<.*shared_ptr<')):
        f = t.fn(cmp, rx)
        st = R.st.clone()
        this = t.obj(st, 'cmp')
        a, pa = R.sp(st, 'a')
        b, pb = R.sp(st, 'b')
        k, i = R.id(st)
        args, x, y = {'processors': ([a, b], R.pid(pa), R.pid(pb)), 'with id': ([a, k], R.pid(pa), i), 'id with': ([k, b], i, R.pid(pb))}[nm]

        def post(s, r, nm=nm, x=x, y=y):
            ex.mark(nm)
            ex.prove(s, 'routing/ordered-by-id', eq(ex.to_bool(r), ite(eq(x, y), False, stl.strorder(ex, s, x, y)) if eq(x, y) is not True else False), 'the table is not ordered by id')
        t.run(f, st, [this] + args, post)
        if nm == 'processors':
            def post(s, r):
                ex.prove(s, 'routing/one-is-not-before-itself', bnot(ex.to_bool(r)))
            t.run(f, st, [this, a, a], post)


def t_typed(name, one, wait):
    def task(t):
        R = Rout(t)
        ex, st = R.ex, R.st
        f = t.fn(RO + name, r'%s<Data' % name)
        h, i = R.id(st)
        d = t.obj(st, 'data')
        v = rd(ex, st, d)
        out = Ptr(ex.fresh_base(st), 0)
        t.need('sent')

        def go(ex, st, c):
            if '<Data' in c.dem.split('(')[0]:
                return '$body'
            a = list(c.args)
            if wait:
                o = a.pop(0)
                ex.write(st, o, 'm', 8, Ptr(uf('sent')(z3.IntVal(7)), 0))
                ex.write(st, o.at(8), 'm', 8, NULL)
            gadd(st, 'sends')
            if one:
                gset(st, 'to', get_str(ex, st, as_ptr(a[0])))
            m = as_ptr(a[-1])
            mgr = rd(ex, st, m)
            fs = [ex.fn_ptr(k).base for q in t.prog.mods for k in q.funcs if '4Data' in k and '_S_manage' in k]
            gset(st, 'kind', bor(*[eq(mgr, b) for b in fs]))
            # a small value is kept in the message itself
            gset(st, 'value', rd(ex, st, m.at(8)))
            r = ex.fresh_int(st, 'result', 0, 1)
            gset(st, 'result', r)
            return None if wait else eq(r, 1)
        gset(st, 'sends', 0)
        ex.contracts[RO + name] = go

        def post(s, r):
            ex.mark('sent')
            ex.prove(s, 'routing/typed-sent-once', eq(gget(s, 'sends'), 1), 'the message is not sent exactly once')
            if not gget(s, 'sends'):
                return
            if one:
                ex.prove(s, 'routing/typed-receiver', eq(gget(s, 'to'), i), 'the message is sent to another processor')
            ex.prove(s, 'routing/typed-kind', gget(s, 'kind'), 'a message of another kind is sent')
            ex.prove(s, 'routing/typed-contents', eq(gget(s, 'value'), v), 'other contents are sent')
            ex.prove(s, 'routing/typed-result', eq(ex.to_bool(r), eq(gget(s, 'result'), 1)) if not wait else eq(rp(ex, s, out).base, uf('sent')(z3.IntVal(7))), 'another result is reported')
        t.run(f, st, ([out] if wait else []) + ([h] if one else []) + [d], post)
    return task


TASKS = [('findProcessor', t_find(RT + '::findProcessor')), ('routing findProcessor', t_find(RO + 'findProcessor')), ('Processor findProcessor', t_find(PR + '::findProcessor')),
         ('post', t_to_one(RT + '::post', False)), ('send', t_to_one(RT + '::send', True)), ('routing post', t_to_one(RO + 'post', False)), ('routing send', t_to_one(RO + 'send', True)),
         ('postToAll', t_to_all(RT + '::postToAll', False)), ('sendToAll', t_to_all(RT + '::sendToAll', True)),
         ('routing postToAll', t_to_all(RO + 'postToAll', False)), ('routing sendToAll', t_to_all(RO + 'sendToAll', True)),
         ('addProcessor', t_add), ('removeProcessor', t_remove)]
TASKS += [('create', t_create), ('compare', t_compare)]
TASKS += [('typed ' + n, t_typed(n, o, w)) for n, o, w in (('post', True, False), ('postToAll', False, False), ('send', True, True), ('sendToAll', False, True))]
TASKS_ALL = TASKS

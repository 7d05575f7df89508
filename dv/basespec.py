"""Contracts of servers and clients as such: B01 (dispatch, one party per service), B02 (availability of services).

A table maps services to parties (providers of a server, requesters of a client) under its lock.  An arbitrary service X
is tracked; parties of different services are different objects.  Parties are foreign code."""
from reqspec import *
from provspec import SP

SB, CB = N + 'ServerBase', N + 'ClientBase'
TUS = ['@base.cpp'] + [CSD + x for x in ('ServerBase.cpp', 'ClientBase.cpp', 'CSMessage.cpp', 'Address.cpp')]
OPAV, OPUN = None, None


class Base(Msgs, Tracked):
    """a server or a client in an arbitrary state"""

    def __init__(self, t, cls, mock=None, server=None):
        Msgs.__init__(self, t)
        Tracked.__init__(self)
        ex = self.ex
        self.cls = cls
        self.server = cls == SB if server is None else server
        ex.gfld['same_region'] = True
        install_opaque(ex)
        self.st = st = t.state()
        self.this = t.obj(st, 'this')
        self.tab = 'providers_' if self.server else '_requestersMap'
        self.maps = (self.tab,) if self.server else (self.tab, '_serviceStatusMap')
        self.mtx, self.map = {}, {}
        for k in self.maps:
            self.mtx[k] = self.this.at(t.off(cls, k + '._mutex'))
            self.map[k] = self.this.at(t.off(cls, k + '._protected'))
        self.mock = mock or ('TServer' if self.server else 'TClient')
        vt = r'vtable for %s$' % self.mock
        ex.write(st, self.this, 'm', 8, signalspec.vtable(t, vt).at(16))
        ex.write(st, self.this.at(8), 'm', 8, vtable2(t, vt))
        # shared_from_this
        self.ctl = t.obj(st, 'ctl')
        w = self.this.at(t.off(cls, '_M_weak_this'))
        ex.write(st, w, 'm', 8, self.this)
        ex.write(st, w.at(8), 'm', 8, self.ctl)
        stl.mark_alive(ex, st, self.ctl)
        ex.hooks['weak_lock'] = lambda ex, st, v: True if ex.ptr_eq(as_ptr(v), self.ctl) is True else None
        self.party = 'PrMock' if self.server else 'RqMock'
        self.pvt = signalspec.vtable(t, r'vtable for %s$' % self.party).at(16)
        self.pvt2 = None if self.server else vtable2(t, r'vtable for %s$' % self.party)
        self.kinds = set()
        # objects that are not parties
        self.others = [self.this, self.ctl]
        ex.hooks['vptr'] = lambda ex, st, b: self.pvt if b.get_id() in self.kinds else None
        ex.hooks['vptr2'] = lambda ex, st, b: self.pvt2 if b.get_id() in self.kinds else None
        ex.hooks['lock'], ex.hooks['unlock'] = self.lock, self.unlock
        ex.hooks['seq_node'] = self.seq_node
        ex.hooks['container_access'] = self.access
        ex.hooks['erased'], ex.hooks['inserted'] = self.erased, self.inserted
        ex.loop_hooks.append(self.inv)
        C = ex.contracts
        for k in ('onIncomingMessage', 'init', 'deinit', 'stopServing', 'onServiceStatusChanged', 'availability'):
            C['%s::%s' % (self.party, k)] = C['non-virtual thunk to %s::%s' % (self.party, k)] = lambda ex, st, c, k=k: self.call(st, k, c)
        C[N + ('ServiceProvider::ServiceProvider' if self.server else 'ServiceRequester::ServiceRequester')] = self.make
        C[SP + '::~ServiceProvider'] = C[SR + '::~ServiceRequester'] = lambda ex, st, c: None
        C['TServer::notifyServiceStatusToClient'] = self.notify
        C['TClient::sendMessageToServer'] = self.tosend
        self.X = ex.fresh_int(st, 'X', 0, (1 << 48) - 1)
        for k in ('made', 'notes', 'ins', 'ers', 'pos:made', 'sends', 'sendsx', 'last'):
            gset(st, k, 0)
        self.calls0 = ('onIncomingMessage', 'init', 'deinit', 'stopServing', 'onServiceStatusChanged', 'availability')
        for k in self.calls0:
            gset(st, k, 0)
            gset(st, k + ' x', 0)
        gset(st, 'newp', NULL)
        for k in self.maps:
            self.mapof(st, k)

    # -- tables
    def kr(self, ex, st, p):
        return (get_str(ex, st, p),)

    def mapof(self, st, k):
        return stl.get_seq(self.ex, st, self.map[k], self.kr)

    def which(self, p, what):
        for k, m in what.items():
            if eq(p.base, m.base) is True and eq(p.off, m.off) is True:
                return k

    def lock(self, ex, st, p):
        k = self.which(p, self.mtx)
        if k is None:
            return
        n = gget(st, 'locked ' + k, 0)
        if n:
            # other threads were here
            stl.set_seq(ex, st, self.map[k], stl.SeqInit(ex, st, self.kr))
        gset(st, 'locked ' + k, n + 1)
        M = self.mapof(st, k)
        gset(st, 'M0 ' + k, M)
        if n == 0:
            gset(st, 'F0 ' + k, M)
        gset(st, 'at ' + k, self.at(st, M, self.X, k))
        h = getattr(self, 'locked', None)
        if h:
            h(st, k)
        if k == '_serviceStatusMap':
            gset(st, 'table lock held when status was read', self.holds(st, self.tab))

    def holds(self, st, k):
        return stl.held(self.ex, st, self.mtx[k]) is not None

    def unlock(self, ex, st, p):
        k = self.which(p, self.mtx)
        if k is None:
            return
        gset(st, 'unlocked ' + k, gget(st, 'unlocked ' + k, 0) + 1)
        M = self.mapof(st, k)
        gset(st, 'M1 ' + k, M)
        gset(st, 'end ' + k, self.at(st, M, self.X, k))
        h = getattr(self, 'unlocked', None)
        if h:
            h(st, k, gget(st, 'M0 ' + k), M)

    def access(self, ex, st, p, *a):
        k = self.which(p, self.map)
        if k:
            ex.prove(st, 'table/locked', self.holds(st, k), 'a table is used without its lock')

    def at(self, st, M, key, k):
        """(is key in the table, what is there)"""
        ex = self.ex
        c = M.contains(ex, st, (key,))
        if c is False:
            return c, NULL if k == self.tab else 0
        nd = M.node(ex, st, M.pos(ex, st, (key,)))
        if k == self.tab:
            q = rp(ex, st, Ptr(nd, 32))
            self.entry(st, nd, c)
            return c, q
        return c, rd(ex, st, Ptr(nd, 32), 1)

    def sidof(self, p):
        b = p.base if not isc(p.base) else z3.IntVal(p.base)
        return uf('sidof')(b)

    def entry(self, st, nd, ok=True):
        """invariant of the table: there is a party, of that service"""
        ex = self.ex
        q = rp(ex, st, Ptr(nd, 32))
        ct = rp(ex, st, Ptr(nd, 40))
        if not isc(q.base):
            self.kinds.add(q.base.get_id())
            ex.assume(st, implies(ok, band(bnot(eq(q.base, 0)), eq(q.off, 0), eq(uf('RG')(q.base), 0), eq(self.sidof(q), get_str(ex, st, Ptr(nd, 0))))))
            for b in self.others:
                ex.assume(st, bnot(eq(q.base, b.base)))
            if not isc(ct.base):
                stl.mark_alive(ex, st, ct)

    def seq_node(self, ex, st, S, i, nd):
        if S.kr is None:
            self.tracked(ex, st, S, i, nd)
            q = rp(ex, st, Ptr(nd, 0))
            if not isc(q.base):
                self.kinds.add(q.base.get_id())
                ex.assume(st, band(bnot(eq(q.base, 0)), eq(uf('RG')(q.base), 0), *[bnot(eq(q.base, b.base)) for b in self.others]))
        elif getattr(S, 'of', None) != 'status' and self.ismain(S):
            self.entry(st, nd, band(le(0, i), lt(i, S.n)))
        elif not self.ismain(S):
            v = rd(ex, st, Ptr(nd, 32), 1)
            ex.assume(st, le(v, 2))

    def ismain(self, S):
        return self.server or self.kind_of(S) == self.tab

    def kind_of(self, S):
        while isinstance(S, stl.SeqCopy) or hasattr(S, 'par'):
            S = S.src if isinstance(S, stl.SeqCopy) else S.par
        return getattr(S, 'table', self.tab)

    def isx(self, st, nd):
        # lists of parties
        return eq(self.sidof(rp(self.ex, st, Ptr(nd, 0))), self.X)

    def erased(self, ex, st, cont, nd):
        if self.which(cont, self.map):
            gset(st, 'ers', gget(st, 'ers') + 1)

    def inserted(self, ex, st, cont, nd):
        k = self.which(cont, self.map)
        if k == self.tab:
            gset(st, 'ins', gget(st, 'ins') + 1)
            gset(st, 'ins sid', get_str(ex, st, Ptr(nd, 0)))
            gset(st, 'ins node', Ptr(nd, 0))
            gset(st, 'ins at', gget(st, 'locked ' + k, 0))

    # -- parties
    def make(self, ex, st, c):
        """a new provider or requester: of that service, and of this server or client"""
        p = as_ptr(c.args[0])
        gset(st, 'made', gget(st, 'made') + 1)
        gset(st, 'made sid', get_str(ex, st, as_ptr(c.args[1])))
        gset(st, 'made for', rp(ex, st, as_ptr(c.args[2])))
        gset(st, 'newp', p)
        ex.write(st, p, 'm', 8, self.pvt)
        if self.pvt2 is not None:
            ex.write(st, p.at(8), 'm', 8, self.pvt2)
        ex.assume(st, eq(self.sidof(p), gget(st, 'made sid')))
        return None

    def call(self, st, k, c):
        ex = self.ex
        off = 8 if c.dem.startswith('non-virtual thunk') or (k == 'onServiceStatusChanged' and not self.server) else 0
        p = as_ptr(c.args[0]).at(-off)
        x = eq(self.sidof(p), self.X)
        gadd(st, k)
        gset(st, k + ' x', add(gget(st, k + ' x'), ite(x, 1, 0)))
        h = getattr(self, 'on_' + k, None)
        if h:
            return h(st, p, x, c)
        return None

    def nolock(self, st, what):
        self.ex.prove(st, 'parties/no-lock-while-' + what, not st.locks, 'foreign code runs while a lock is held')

    def on_onIncomingMessage(self, st, p, x, c):
        self.nolock(st, 'a-message-is-handled')
        gset(st, 'to', p)
        gset(st, 'got', rp(self.ex, st, as_ptr(c.args[1])))
        r = self.ex.fresh_int(st, 'handled', 0, 1)
        gset(st, 'handled', r)
        return eq(r, 1)

    def notify(self, ex, st, c):
        gset(st, 'notes', gget(st, 'notes') + 1)
        gset(st, 'note', (get_str(ex, st, as_ptr(c.args[1])), ex.as_int(c.args[2]), ex.as_int(c.args[3])))
        ex.prove(st, 'parties/no-lock-while-announcing', not st.locks, 'foreign code runs while a lock is held')
        return None

    def tosend(self, ex, st, c):
        m = self.msg(st, rp(ex, st, as_ptr(c.args[1])))
        gadd(st, 'sends')
        gset(st, 'sendsx', add(gget(st, 'sendsx'), ite(eq(m['sid'], self.X), 1, 0)))
        h = getattr(self, 'on_send', None)
        if h:
            h(st, m)
        return ex.fresh_int(st, 'sendstatus', 0, 9)

    # -- loops over a table, a copy of it, or a list of parties: X gets its call when it is passed
    def inv(self, ex, entry, head, rec, fi, norm):
        out = []
        ks = [k + ' x' for k in self.calls0] + ['sendsx']
        g0 = {k: gget(entry, k) for k in ks}
        vecs = self.vecs(entry, rec, fi) and self.vecs(head, rec, fi)
        for sl in signalspec.iters(ex, head, rec, fi, None):
            v = sl.get(ex, head, fi)
            M = v.seq

            def idx(st, sl=sl):
                return stl.iter_idx(ex, st, sl.get(ex, st, fi))
            if M.kr is None:
                def passed(st, M=M, idx=idx):
                    return band(le(0, self.posx(st, M)), lt(self.posx(st, M), idx(st)))
            else:
                def passed(st, M=M, idx=idx):
                    return band(M.contains(ex, st, (self.X,)), lt(M.pos(ex, st, (self.X,)), idx(st)))
            for k in ks:
                out.append(('passed:%s:%s' % (k, sl.name), lambda st, k=k, p=passed: eq(gget(st, k), add(g0[k], ite(p(st), 1, 0)))))
            for w in vecs:
                out.append(('collected:' + sl.name, lambda st, w=w, p=passed: eq(le(0, self.posx(st, w.get(ex, st, fi))), p(st))))
        for k in ks:
            out.append(('kept:' + k, lambda st, k=k: eq(gget(st, k), g0[k])))
        return out

    # -- inputs
    def new_message(self):
        p, sp = self.new(self.st, 'msg')
        self.others += [p, sp]
        return p, sp

    def sidarg(self, st, i=None):
        h = self.t.obj(st, 'sid')
        if i is not None:
            set_str(self.ex, st, h, i)
        return h, get_str(self.ex, st, h)


def t_get(cls):
    """asking for the party of a service"""
    def task(t):
        B = Base(t, cls)
        ex, st = B.ex, B.st
        k = B.tab
        f = t.fn(cls + ('::getServiceProvider' if B.server else '::getServiceRequester'))
        h, i = B.sidarg(st, B.X)
        out = Ptr(ex.fresh_base(st), 0)
        t.need('known', 'new')
        if not B.server:
            t.need('status known', 'status unknown')

            def told(s, p, x, c):
                a = c.args
                ex.prove(s, 'status/told-to-the-new-one', ex.ptr_eq(p, gget(s, 'newp')), 'another requester is told')
                ex.prove(s, 'status/told-about-its-service', eq(get_str(ex, s, as_ptr(a[1])), i), 'the status of another service is told')
                gset(s, 'told', ex.as_int(a[3]))
                gset(s, 'told before insertion or under lock', B.holds(s, k))
            B.on_onServiceStatusChanged = told

        def post(s, r):
            got = rp(ex, s, out)
            ex.prove(s, 'table/locks-released', not s.locks)
            if gget(s, 'F0 ' + k) is None:
                ex.fail(s, 'table/used', 'the table is not looked at')
                return
            # the table at the last time it was locked decides
            c, q = gget(s, 'at ' + k)
            ex.prove(s, 'table/nothing-removed', gget(s, 'ers') == 0)
            if ex.decide(s, c):
                ex.mark('known')
                ex.prove(s, 'party/same-one', ex.ptr_eq(got, q), 'another party is handed out although there is one for the service')
                ex.prove(s, 'party/not-replaced', gget(s, 'ins') == 0, 'the party of a service is replaced')
                return
            ex.mark('new')
            ex.prove(s, 'party/one-made', band(gget(s, 'made') >= 1, gget(s, 'ins') == 1), 'no party is made or kept for the service')
            if not gget(s, 'made') or not gget(s, 'ins'):
                return
            p = gget(s, 'newp')
            ex.prove(s, 'party/handed-out', ex.ptr_eq(got, p), 'the party that is handed out is not the new one')
            ex.prove(s, 'party/of-the-service', band(eq(gget(s, 'made sid'), i), eq(gget(s, 'ins sid'), i)), 'the new party is made or kept for another service')
            ex.prove(s, 'party/kept', ex.ptr_eq(rp(ex, s, gget(s, 'ins node').at(32)), p), 'another party is kept than is handed out')
            ex.prove(s, 'party/belongs-here', ex.ptr_eq(gget(s, 'made for'), B.this), 'the new party belongs to another server or client')
            ex.prove(s, 'party/checked-and-kept-at-once', gget(s, 'ins at') == gget(s, 'locked ' + k), 'two parties may be made for one service')
            if B.server:
                return
            ex.prove(s, 'party/initialised', band(eq(gget(s, 'init'), 1), eq(gget(s, 'init x'), 1)), 'the new requester is not initialised exactly once')
            if gget(s, 'F0 _serviceStatusMap') is None:
                ex.fail(s, 'status/looked-up', 'the status of the service is not looked up')
                return
            c, v = gget(s, 'at _serviceStatusMap')
            n = gget(s, 'onServiceStatusChanged')
            if ex.decide(s, c):
                ex.mark('status known')
                ex.prove(s, 'status/new-one-told', eq(n, 1), 'a new requester is not told the status of its service')
                if gget(s, 'told') is not None:
                    ex.prove(s, 'status/new-one-told-what-is-known', eq(gget(s, 'told'), v), 'a new requester is told another status')
                    ex.prove(s, 'status/no-change-missed', gget(s, 'told before insertion or under lock') and gget(s, 'table lock held when status was read'), 'a change of the status may pass the new requester by')
            else:
                ex.mark('status unknown')
                ex.prove(s, 'status/new-one-not-told', eq(n, 0), 'a new requester is told a status nobody announced')
        t.run(f, st, [out, B.this, h], post)
    return task


def t_has(cls):
    def task(t):
        B = Base(t, cls)
        ex, st = B.ex, B.st
        k = B.tab
        f = t.fn(cls + ('::hasServiceProvider' if B.server else '::hasServiceRequester'))
        h, i = B.sidarg(st, B.X)
        t.need('there', 'not there')

        def post(s, r):
            if gget(s, 'F0 ' + k) is None:
                ex.fail(s, 'table/used', 'the table is not looked at')
                return
            c, q = gget(s, 'at ' + k)
            ex.prove(s, 'has/answer', eq(ex.to_bool(r), c), 'a wrong answer whether there is a party for the service')
            ex.prove(s, 'has/table-kept', B.mapof(s, k) is gget(s, 'M0 ' + k) and not s.locks and gget(s, 'ins') == 0 and gget(s, 'ers') == 0, 'asking changes the table')
            ex.mark('there' if ex.decide(s, c) else 'not there')
        t.run(f, st, [B.this, h], post)
    return task


def t_dispatch(cls, make=None):
    """a message that is not about the availability of services"""
    def task(t):
        B = make(t) if make else Base(t, cls)
        ex, st = B.ex, B.st
        k = B.tab
        f = t.fn(cls + '::onIncomingMessage')
        p, sp = B.new_message()
        m0 = B.msg(st, p)
        ex.assume(st, eq(m0['sid'], B.X))
        if not B.server:
            ex.assume(st, bnot(eq(m0['code'], OPC['ServiceStatusUpdate'])))
        if make:
            ex.assume(st, B.ordinary(m0))
        t.need('delivered', 'nobody')

        def post(s, r):
            ex.prove(s, 'table/locks-released', not s.locks)
            if gget(s, 'F0 ' + k) is None:
                ex.fail(s, 'table/used', 'the table is not looked at')
                return
            c, q = gget(s, 'at ' + k)
            r = ex.to_bool(r)
            n = gget(s, 'onIncomingMessage')
            ex.prove(s, 'dispatch/table-kept', B.mapof(s, k) is gget(s, 'M0 ' + k) and gget(s, 'ins') == 0 and gget(s, 'ers') == 0, 'a message changes the table')
            if ex.decide(s, c):
                ex.mark('delivered')
                ex.prove(s, 'dispatch/once', eq(n, 1), 'a message is not handed exactly once to the party of its service')
                if gget(s, 'to') is not None:
                    ex.prove(s, 'dispatch/to-the-party-of-its-service', ex.ptr_eq(gget(s, 'to'), q), 'a message goes to another service')
                    ex.prove(s, 'dispatch/the-message', ex.ptr_eq(gget(s, 'got'), p), 'another message is handed on')
                    ex.prove(s, 'dispatch/result', eq(r, eq(gget(s, 'handled'), 1)), 'it is not reported whether the message was handled')
            else:
                ex.mark('nobody')
                ex.prove(s, 'dispatch/nobody', band(eq(n, 0), bnot(r)), 'a message for a service that is not here is reported as handled')
        t.run(f, st, [B.this, sp], post)
    return task


def t_deinit(cls):
    """the end of a server or client"""
    def task(t):
        B = Base(t, cls)
        ex, st = B.ex, B.st
        k = B.tab
        f = t.fn(cls + '::deinit')
        t.need('there', 'not there')

        def stop(s, p, x, c):
            B.nolock(s, 'a-service-stops')
            ex.prove(s, 'end/stops-first', implies(x, eq(gget(s, 'deinit x'), 0)), 'a service stops after its end')
        B.on_stopServing = stop

        def send(s, m):
            ex.prove(s, 'end/unregisters', eq(m['code'], OPC['UnregisterServiceStatus']), 'another message is sent at the end')
        B.on_send = send

        def post(s, r):
            ex.prove(s, 'table/locks-released', not s.locks)
            if gget(s, 'F0 ' + k) is None:
                ex.fail(s, 'table/used', 'the table is not looked at')
                return
            c, q = B.at(s, gget(s, 'F0 ' + k), B.X, k)
            for m in B.maps:
                M1 = gget(s, 'M1 ' + m)
                ex.prove(s, 'end/table-emptied' if m == k else 'end/statuses-forgotten', M1 is not None and eq(M1.n, 0), 'something is left')
            n = 1 if ex.decide(s, c) else 0
            ex.mark('there' if n else 'not there')
            ex.prove(s, 'end/each-once', eq(gget(s, 'deinit x'), n), 'a party does not learn exactly once that this is the end')
            if B.server:
                ex.prove(s, 'end/each-stops-once', eq(gget(s, 'stopServing x'), n), 'a service does not stop exactly once')
            else:
                c, v = B.at(s, gget(s, 'F0 _serviceStatusMap'), B.X, '_serviceStatusMap')
                ex.prove(s, 'end/each-unregistered-once', eq(gget(s, 'sendsx'), ite(c, 1, 0)), 'the client does not sign off exactly once from a service it knows')
        t.run(f, st, [B.this], post)
    return task


# ------------------------------------------------------------------ availability (B02)
class Stat(Base):
    """a client learns about the availability of services; X is the service in question, Y another one"""

    def __init__(self, t):
        Base.__init__(self, t, CB)
        ex, st = self.ex, self.st
        self.Y = ex.fresh_int(st, 'Y', 0, (1 << 48) - 1)
        self.sm = '_serviceStatusMap'
        for k in ('tolds', 'toldx'):
            gset(st, k, 0)

    def same_at(self, st, M0, M1, key, k):
        ex = self.ex
        a, u = self.at(st, M0, key, k)
        b, v = self.at(st, M1, key, k)
        return band(eq(a, b), implies(a, eq(u, v) if not isinstance(u, Ptr) else ex.ptr_eq(u, v)))

    def locked(self, st, k):
        if k == self.tab and gget(st, 'first table lock') is None:
            gset(st, 'first table lock', gget(st, 'locked ' + self.sm, 0))

    def on_onServiceStatusChanged(self, st, p, x, c):
        self.nolock(st, 'a-change-is-announced')
        a = c.args
        ex = self.ex
        ex.prove(st, 'status/about-its-service', eq(get_str(ex, st, as_ptr(a[1])), self.sidof(p)), 'a requester is told about another service')
        ex.prove(st, 'status/the-new-one', eq(ex.as_int(a[3]), self.new), 'another status is announced')
        ex.prove(st, 'status/the-old-one', eq(ex.as_int(a[2]), self.old), 'another previous status is announced')


def status_effect(B, s, i):
    """the last known status of service i is B.new, nobody else's changes, and its requester is told"""
    ex = B.ex
    ex.prove(s, 'table/locks-released', not s.locks)
    if gget(s, 'M1 ' + B.sm) is None:
        ex.fail(s, 'status/kept', 'the status of the service is not remembered')
        return
    c, v = gget(s, 'end ' + B.sm)
    ex.prove(s, 'status/kept', band(c, eq(v, B.new)), 'the status of the service is not remembered')
    ex.prove(s, 'table/parties-kept', gget(s, 'ins') == 0 and gget(s, 'made') == 0, 'a change of a status makes a requester')
    if gget(s, 'F0 ' + B.tab) is None:
        ex.fail(s, 'status/requester-looked-up', 'the requester of the service is not looked up')
        return
    ex.prove(s, 'status/remembered-first', gget(s, 'first table lock') >= 1, 'a requester made meanwhile misses the change')
    c, q = gget(s, 'at ' + B.tab)
    n = gget(s, 'onServiceStatusChanged')
    nx = gget(s, 'onServiceStatusChanged x')
    if ex.decide(s, c):
        ex.mark('told')
        ex.prove(s, 'status/requester-told-once', band(eq(n, 1), eq(nx, 1)), 'the requester of the service is not told exactly once')
    else:
        ex.mark('nobody')
        ex.prove(s, 'status/nobody-told', eq(n, 0), 'the requester of another service is told')


def t_service_status(t):
    B = Stat(t)
    ex, st = B.ex, B.st
    f = t.fn(CB + '::onServiceStatusChanged', r'^maf')
    h, i = B.sidarg(st, B.X)
    B.old, B.new = ex.fresh_int(st, 'old', 0, 2), ex.fresh_int(st, 'new', 0, 2)
    t.need('told', 'nobody')

    def unlocked(s, k, M0, M1):
        if k == B.sm:
            ex.prove(s, 'status/others-kept', implies(bnot(eq(B.Y, i)), B.same_at(s, M0, M1, B.Y, k)), 'the status of another service changes')
    B.unlocked = unlocked
    t.run(f, st, [B.this, h, B.old, B.new], lambda s, r: status_effect(B, s, i))


def t_status_message(t):
    """what a server announces"""
    B = Stat(t)
    ex = B.ex
    f = t.fn(CB + '::onIncomingMessage')
    p, sp = B.new_message()
    m0 = B.msg(B.st, p)
    t.need('told', 'nobody', 'nonsense')
    for op, old, new in (('service_available.property', 0, 1), ('service_unavailable.property', 1, 0), (None, None, None)):
        st = B.st.clone()
        B.old, B.new = old, new
        ex.assume(st, band(eq(m0['sid'], B.X), bnot(eq(m0['sid'], 0)), eq(m0['code'], OPC['ServiceStatusUpdate'])))
        k = [stl.str_id('service_available.property'), stl.str_id('service_unavailable.property')]
        ex.assume(st, eq(m0['op'], stl.str_id(op)) if op else band(*[bnot(eq(m0['op'], j)) for j in k]))

        def unlocked(s, k, M0, M1):
            if k == B.sm:
                ex.prove(s, 'status/others-kept', implies(bnot(eq(B.Y, B.X)), B.same_at(s, M0, M1, B.Y, k)), 'the status of another service changes')
                if op is None:
                    ex.prove(s, 'status/nothing-learned', B.same_at(s, M0, M1, B.X, k), 'a message that announces nothing changes a status')
        B.unlocked = unlocked

        def post(s, r, op=op):
            ex.prove(s, 'status/handled', ex.to_bool(r), 'an announcement is reported as not handled')
            ex.prove(s, 'status/not-handed-on', eq(gget(s, 'onIncomingMessage'), 0))
            if op:
                status_effect(B, s, B.X)
            else:
                ex.mark('nonsense')
                ex.prove(s, 'status/nobody-told', band(eq(gget(s, 'onServiceStatusChanged'), 0), eq(gget(s, 'ins'), 0)), 'a requester is told what was not announced')
        t.run(f, st, [B.this, sp], post)


def t_server_status(t):
    """the server has come or gone"""
    B = Stat(t)
    ex = B.ex
    f = t.fn(CB + '::onServerStatusChanged', r'^maf')
    t.need('told', 'nobody', 'come')
    for new in (0, 1, 2):
        st = B.st.clone()
        B.new, B.old = new, ex.fresh_int(st, 'old', 0, 2)

        def post(s, r, new=new):
            ex.prove(s, 'table/locks-released', not s.locks)
            ex.prove(s, 'table/parties-kept', gget(s, 'ins') == 0 and gget(s, 'ers') == 0)
            n = gget(s, 'onServiceStatusChanged x')
            if new == AV['Available']:
                ex.mark('come')
                ex.prove(s, 'status/services-still-unknown', band(gget(s, 'F0 ' + B.sm) is None or gget(s, 'M1 ' + B.sm) is gget(s, 'F0 ' + B.sm), eq(gget(s, 'onServiceStatusChanged'), 0)), 'a service counts as available because its server is')
                return
            M1 = gget(s, 'M1 ' + B.sm)
            ex.prove(s, 'status/forgotten', M1 is not None and eq(M1.n, 0), 'statuses from a server that has gone are remembered')
            if gget(s, 'F0 ' + B.tab) is None:
                ex.fail(s, 'status/requesters-looked-up', 'the requesters are not looked at')
                return
            ex.prove(s, 'status/forgotten-first', gget(s, 'first table lock') >= 1, 'a requester made meanwhile believes in a service that has gone')
            c, q = B.at(s, gget(s, 'F0 ' + B.tab), B.X, B.tab)
            there = ex.decide(s, c)
            ex.mark('told' if there else 'nobody')
            ex.prove(s, 'status/each-told-once', eq(n, 1 if there else 0), 'a requester is not told exactly once that the server has gone')
        t.run(f, st, [B.this, B.old, new], post)


def t_getstatus(t):
    B = Stat(t)
    ex, st = B.ex, B.st
    f = t.fn(CB + '::getServiceStatus')
    h, i = B.sidarg(st, B.X)
    t.need('known', 'unknown')

    def post(s, r):
        if gget(s, 'F0 ' + B.sm) is None:
            ex.fail(s, 'status/used', 'the statuses are not looked at')
            return
        c, v = gget(s, 'at ' + B.sm)
        known = ex.decide(s, c)
        ex.mark('known' if known else 'unknown')
        ex.prove(s, 'status/answer', eq(ex.as_int(r), v if known else AV['Unavailable']), 'the status that is reported is not the last one announced')
        ex.prove(s, 'status/only-asked', gget(s, 'M1 ' + B.sm) is gget(s, 'F0 ' + B.sm) and not s.locks, 'asking changes what is known')
    t.run(f, st, [B.this, h], post)


def t_announce(t):
    """a service of a server becomes available or not"""
    B = Base(t, SB)
    ex, st = B.ex, B.st
    f = t.fn(SB + '::onServiceStatusChanged', r'^maf')
    h, i = B.sidarg(st, B.X)
    old, new = ex.fresh_int(st, 'old', 0, 2), ex.fresh_int(st, 'new', 0, 2)
    t.need('announced', 'unknown service', 'no change')

    def post(s, r):
        ex.prove(s, 'table/locks-released', not s.locks)
        n = gget(s, 'notes')
        if not ex.decide(s, bnot(eq(old, new))):
            ex.mark('no change')
            ex.prove(s, 'announce/only-changes', eq(n, 0), 'something is announced although nothing changed')
            return
        if gget(s, 'F0 ' + B.tab) is None:
            ex.fail(s, 'announce/looked-up', 'it is not looked up whether the service is here')
            return
        c, q = gget(s, 'at ' + B.tab)
        if not ex.decide(s, c):
            ex.mark('unknown service')
            ex.prove(s, 'announce/only-own-services', eq(n, 0), 'a service that is not here is announced')
            return
        ex.mark('announced')
        ex.prove(s, 'announce/once', eq(n, 1), 'a change is not announced exactly once')
        if gget(s, 'note') is not None:
            a, b, c = gget(s, 'note')
            ex.prove(s, 'announce/what-changed', band(eq(a, i), eq(b, old), eq(c, new)), 'another change is announced')
    t.run(f, st, [B.this, h, old, new], post)


TASKS = [('%s %s' % (c.split('::')[-1], n), f(c)) for c in (SB, CB) for n, f in (('get', t_get), ('has', t_has), ('dispatch', t_dispatch), ('deinit', t_deinit))]
STASKS = [('service status', t_service_status), ('status message', t_status_message), ('server status', t_server_status), ('getServiceStatus', t_getstatus), ('announce', t_announce)]
TASKS_ALL = TASKS + STASKS

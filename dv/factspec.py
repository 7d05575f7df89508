"""Contracts of the factories of clients and servers, and of the functions that hand out proxies' and stubs' ends: B03.

A factory maps (connection type, address) to a client or server under its lock.  An arbitrary entry X is tracked; clients of
different entries are told apart by where they are kept."""
from reqspec import *

TUS = ['@factory.cpp'] + [CSD + x for x in ('ClientFactory.cpp', 'ServerFactory.cpp', 'CSMgmt.cpp', 'Address.cpp', 'CSMessage.cpp')]
TYPES = {'itc': 'itc.messaging.maf', 'ipc::local': 'local.ipc.messaging.maf'}


class Fact(Msgs):
    def __init__(self, t, server):
        Msgs.__init__(self, t)
        ex = self.ex
        ex.gfld['same_region'] = True
        self.server = server
        self.name = 'Server' if server else 'Client'
        self.cls = N + self.name + 'Factory'
        self.impl = self.cls + 'Impl'
        self.st = st = t.state()
        self.fac, self.this = t.obj(st, 'factory'), t.obj(st, 'impl')
        ex.write(st, self.fac, 'm', 8, self.this)
        m = 'serverMap_' if server else '_clientMap'
        self.mtx, self.map = self.this.at(t.off(self.impl, m + '._mutex')), self.this.at(t.off(self.impl, m + '._protected'))
        self.party = 'SvMock' if server else 'ClMock'
        self.vt = signalspec.vtable(t, r'vtable for %s$' % self.party).at(16)
        self.kinds = set()
        ex.hooks['vptr'] = lambda ex, st, b: self.vt if b.get_id() in self.kinds else None
        ex.hooks['lock'], ex.hooks['unlock'] = self.lock, self.unlock
        ex.hooks['seq_alias'] = self.alias
        ex.hooks['seq_node'] = self.seq_node
        ex.hooks['container_access'] = self.access
        ex.loop_hooks.append(self.inv)
        C = ex.contracts
        self.calls0 = ('init', 'start', 'stop', 'deinit')
        for k in self.calls0:
            C['%s::%s' % (self.party, k)] = C['non-virtual thunk to %s::%s' % (self.party, k)] = lambda ex, st, c, k=k: self.call(st, k, c)
        for k in TYPES:
            C['%s%s::make%s' % (N, k, self.name)] = lambda ex, st, c, k=k: self.make(st, k, c)
        self.T = ex.fresh_int(st, 'T', 0, (1 << 48) - 1)
        self.A = (ex.fresh_int(st, 'A name', 0, (1 << 48) - 1), ex.fresh_int(st, 'A port', 0, 65535))
        for k in self.calls0 + ('made',):
            gset(st, k, 0)
            gset(st, k + ' x', 0)
        gset(st, 'newp', NULL)
        gset(st, 'locked', 0)
        self.outer(st)

    # -- the table
    def tkr(self, ex, st, p):
        return (get_str(ex, st, p),)

    def outer(self, st):
        return stl.get_seq(self.ex, st, self.map, self.tkr)

    def inner(self, st, nd):
        return stl.get_seq(self.ex, st, Ptr(nd, 32), self.addr)

    def alias(self, ex, st, p, ep):
        """the map in a node of the map"""
        if eq(p.off, 32) is True and not isc(p.base):
            return stl.SeqFam(ex, st, 'inner%s' % ep, p.base, self.addr)

    def at(self, st, M, T, A):
        """(is there an entry, what is there)"""
        ex = self.ex
        c = M.contains(ex, st, (T,))
        if not ex.decide(st, c):
            return False, NULL
        S = self.inner(st, M.node(ex, st, M.pos(ex, st, (T,))))
        c = S.contains(ex, st, A)
        if not ex.decide(st, c):
            return False, NULL
        nd = S.node(ex, st, S.pos(ex, st, A))
        return True, rp(ex, st, Ptr(nd, 40))

    def home(self, p):
        b = p.base if not isc(p.base) else z3.IntVal(p.base)
        return [uf('home%d' % i)(b) for i in range(3)]

    def isx(self, p):
        return band(*[eq(a, b) for a, b in zip(self.home(p), (self.T,) + self.A)])

    def seq_node(self, ex, st, S, i, nd):
        if not isinstance(S, stl.SeqFam):
            return
        q, ct = rp(ex, st, Ptr(nd, 40)), rp(ex, st, Ptr(nd, 48))
        if isc(q.base):
            return
        self.kinds.add(q.base.get_id())
        KEEP.append(q.base)
        T = get_str(ex, st, Ptr(S.owner, 0))
        A = self.addr(ex, st, Ptr(nd, 0))
        ok = band(le(0, i), lt(i, S.n))
        ex.assume(st, implies(ok, band(bnot(eq(q.base, 0)), eq(q.off, 0), eq(uf('RG')(q.base), 0), *[eq(a, b) for a, b in zip(self.home(q), (T,) + A)])))
        for b in (self.this, self.fac):
            ex.assume(st, bnot(eq(q.base, b.base)))
        if not isc(ct.base):
            stl.mark_alive(ex, st, ct)

    def mine(self, p, m):
        return eq(p.base, m.base) is True and eq(p.off, m.off) is True

    def lock(self, ex, st, p):
        if not self.mine(p, self.mtx):
            return
        if gget(st, 'locked'):
            stl.set_seq(ex, st, self.map, stl.SeqInit(ex, st, self.tkr))
        gset(st, 'locked', gget(st, 'locked') + 1)
        M = self.outer(st)
        gset(st, 'M0', M)
        if gget(st, 'locked') == 1:
            gset(st, 'F0', M)
            h = getattr(self, 'first', None)
            if h:
                h(st, M)
        h = getattr(self, 'locked', None)
        if h:
            h(st, M)

    def unlock(self, ex, st, p):
        if self.mine(p, self.mtx):
            M = self.outer(st)
            gset(st, 'M1', M)
            h = getattr(self, 'unlocked', None)
            if h:
                h(st, M)

    def access(self, ex, st, p, *a):
        if self.mine(p, self.map):
            ex.prove(st, 'table/locked', stl.held(ex, st, self.mtx) is not None, 'the table is used without its lock')

    # -- clients and servers
    def make(self, st, k, c):
        ex = self.ex
        q = rp_new(ex, st)
        self.kinds.add(q.base.get_id())
        KEEP.append(q.base)
        ct = rp_new(ex, st)
        for b in (self.this, self.fac):
            ex.assume(st, band(q.base != b.base, ct.base != b.base))
        ex.assume(st, q.base != ct.base)
        stl.mark_alive(ex, st, ct)
        p = as_ptr(c.args[0])
        ex.write(st, p, 'm', 8, q)
        ex.write(st, p.at(8), 'm', 8, ct)
        gset(st, 'made', gget(st, 'made') + 1)
        gset(st, 'made kind', k)
        gset(st, 'made in', gget(st, 'locked'))
        gset(st, 'newp', q)
        return None

    def call(self, st, k, c):
        ex = self.ex
        p = as_ptr(c.args[0])
        gadd(st, k)
        gset(st, k + ' x', add(gget(st, k + ' x'), ite(self.isx(p), 1, 0)))
        h = getattr(self, 'on_' + k, None)
        if h:
            return h(st, p, c)
        if k in ('init', 'start'):
            return eq(ex.fresh_int(st, k + ' result', 0, 1), 1)
        return None

    def inv(self, ex, entry, head, rec, fi, norm):
        out = []
        ks = [k + ' x' for k in self.calls0]
        g0 = {k: gget(entry, k) for k in ks}
        for sl in signalspec.iters(ex, head, rec, fi, None):
            M = sl.get(ex, head, fi).seq

            def idx(st, sl=sl):
                return stl.iter_idx(ex, st, sl.get(ex, st, fi))
            if isinstance(M, stl.SeqFam):
                def passed(st, M=M, idx=idx):
                    T = get_str(ex, st, Ptr(M.owner, 0))
                    return band(eq(T, self.T), M.contains(ex, st, self.A), lt(M.pos(ex, st, self.A), idx(st)))
            elif M.kr is not None and len(M.kr(ex, head, Ptr(M.node(ex, head, 0), 0))) == 1:
                def passed(st, M=M, idx=idx):
                    i = M.pos(ex, st, (self.T,))
                    S = self.inner(st, M.node(ex, st, i))
                    return band(M.contains(ex, st, (self.T,)), lt(i, idx(st)), S.contains(ex, st, self.A))
            else:
                continue
            for k in ks:
                out.append(('passed:%s:%s' % (k, sl.name), lambda st, k=k, p=passed: eq(gget(st, k), add(g0[k], ite(p(st), 1, 0)))))
        for k in ks:
            out.append(('kept:' + k, lambda st, k=k: eq(gget(st, k), g0[k])))
        return out

    # -- inputs
    def args(self, st):
        ex, t = self.ex, self.t
        h, a = t.obj(st, 'type'), t.obj(st, 'address')
        set_str(ex, st, h, self.T)
        set_str(ex, st, a.at(self.an), self.A[0])
        ex.write(st, a.at(self.ap), 'm', 2, self.A[1])
        return h, a


def rp_new(ex, st, *others):
    """some object, perhaps one that is known already"""
    b = ex.fresh_int(st, 'obj', 1, HEAP_LIMIT - 1)
    ex.assume(st, band(uf('RG')(b) == 0, *[bnot(eq(b, x.base)) for x in others]))
    return Ptr(b, 0)


def t_get(server):
    """asking for the client or server of a connection type and address"""
    def task(t):
        B = Fact(t, server)
        ex, st = B.ex, B.st
        f = t.fn(B.cls + '::get' + B.name)
        h, a = B.args(st)
        out = Ptr(ex.fresh_base(st), 0)
        ids = {k: stl.str_id(v) for k, v in TYPES.items()}
        # another entry
        T2 = ex.fresh_int(st, 'T2', 0, (1 << 48) - 1)
        A2 = (ex.fresh_int(st, 'A2 name', 0, (1 << 48) - 1), ex.fresh_int(st, 'A2 port', 0, 65535))
        ex.assume(st, bnot(band(eq(T2, B.T), *[eq(x, y) for x, y in zip(A2, B.A)])))
        t.need('known', 'kept', 'no type', 'no start')

        def locked(s, M):
            gset(s, 'X0', B.at(s, M, B.T, B.A))
            gset(s, 'Y0', B.at(s, M, T2, A2))
        B.locked = locked

        def unlocked(s, M):
            gset(s, 'X1', B.at(s, M, B.T, B.A))
            c, q = B.at(s, M, T2, A2)
            c0, q0 = gget(s, 'Y0')
            ex.prove(s, 'table/others-kept', c == c0 and (not c or ex.ptr_eq(q, q0)), 'the entry of another type or address changes')
        B.unlocked = unlocked

        def init(s, p, c):
            ex.prove(s, 'new/initialised-is-new', ex.ptr_eq(p, gget(s, 'newp')), 'a client or server that is in use is initialised')
            ex.prove(s, 'new/initialised-for-its-address', same(B.addr(ex, s, as_ptr(c.args[1])), B.A), 'it is initialised for another address')
            r = ex.fresh_int(s, 'initialised', 0, 1)
            gset(s, 'ok', r)
            return eq(r, 1)
        B.on_init = init

        def start(s, p, c):
            ex.prove(s, 'new/started-is-new', ex.ptr_eq(p, gget(s, 'newp')), 'a client or server that is in use is started')
            ex.prove(s, 'new/initialised-before-start', eq(gget(s, 'ok', 0), 1), 'it starts although it is not initialised')
            return True
        B.on_start = start

        def post(s, r):
            got = rp(ex, s, out)
            ex.prove(s, 'table/locks-released', not s.locks)
            if gget(s, 'X0') is None:
                ex.fail(s, 'table/used', 'the table is not looked at')
                return
            c0, q0 = gget(s, 'X0')
            c1, q1 = gget(s, 'X1')
            if c0:
                ex.mark('known')
                ex.prove(s, 'get/same-one', ex.ptr_eq(got, q0), 'another client or server is handed out although there is one')
                ex.prove(s, 'get/not-replaced', c1 and ex.ptr_eq(q1, q0), 'the client or server in use is replaced or forgotten')
                ex.prove(s, 'get/only-that', eq(gget(s, 'start'), 0), 'one in use is started again')
                return
            known = [k for k in TYPES if ex.decide(s, eq(B.T, ids[k]))]
            if not known:
                ex.mark('no type')
                ex.prove(s, 'get/no-such-type', ex.ptr_eq(got, NULL), 'something is handed out for an unknown type')
                ex.prove(s, 'get/nothing-kept', not c1)
                return
            ex.prove(s, 'new/one-made', eq(gget(s, 'made'), 1), 'not exactly one is made')
            if not gget(s, 'made'):
                return
            ex.prove(s, 'new/of-its-type', gget(s, 'made kind') == known[0], 'it is made for another connection type')
            ex.prove(s, 'new/initialised-once', eq(gget(s, 'init'), 1), 'it is not initialised exactly once')
            p = gget(s, 'newp')
            if ex.decide(s, eq(gget(s, 'ok', 0), 1)):
                ex.mark('kept')
                ex.prove(s, 'new/handed-out', ex.ptr_eq(got, p), 'the new one is not handed out')
                ex.prove(s, 'new/started-once', eq(gget(s, 'start'), 1), 'it is not started exactly once')
                ex.prove(s, 'new/kept', c1 and ex.ptr_eq(q1, p), 'the one handed out is not kept for its type and address')
            else:
                ex.mark('no start')
                ex.prove(s, 'failed/not-handed-out', ex.ptr_eq(got, NULL), 'one that could not be initialised is handed out')
                ex.prove(s, 'failed/not-kept', not c1, 'one that could not be initialised is kept')
                ex.prove(s, 'failed/not-started', eq(gget(s, 'start'), 0))
        t.run(f, st, [out, B.fac, h, a], post)
    return task


def t_close(server):
    """the end of all clients or servers"""
    def task(t):
        B = Fact(t, server)
        ex, st = B.ex, B.st
        f = t.fn(B.cls + '::close')
        t.need('there', 'not there')

        def stop(s, p, c):
            ex.prove(s, 'end/stops-first', implies(B.isx(p), eq(gget(s, 'deinit x'), 0)), 'it stops after its end')
        B.on_stop = stop

        def first(s, M):
            gset(s, 'X0', B.at(s, M, B.T, B.A))
        B.first = first

        def post(s, r):
            ex.prove(s, 'table/locks-released', not s.locks)
            if gget(s, 'X0') is None:
                ex.fail(s, 'table/used', 'the table is not looked at')
                return
            c, q = gget(s, 'X0')
            n = 1 if c else 0
            ex.mark('there' if n else 'not there')
            ex.prove(s, 'end/each-stops-once', eq(gget(s, 'stop x'), n), 'one does not stop exactly once')
            ex.prove(s, 'end/each-ends-once', eq(gget(s, 'deinit x'), n), 'one does not end exactly once')
            ex.prove(s, 'end/none-starts', band(eq(gget(s, 'start'), 0), eq(gget(s, 'init'), 0)))
            if gget(s, 'locked') == 1:
                c1, q1 = B.at(s, gget(s, 'M1'), B.T, B.A)
                ex.prove(s, 'end/forgotten', not c1, 'one that has ended is still handed out')
        t.run(f, st, [B.fac], post)
    return task


def t_mgmt(server):
    """the functions that programs call: they use one factory"""
    def task(t):
        B = Fact(t, server)
        ex, st = B.ex, B.st
        f = t.fn(N + 'csmgmt::' + ('getServiceProvider' if server else 'getServiceRequester'))
        h, a = B.args(st)
        sid = t.obj(st, 'sid')
        out = Ptr(ex.fresh_base(st), 0)
        i = get_str(ex, st, sid)
        t.need('client', 'no client', 'closed', 'first use')
        for k in ('gets', 'asks', 'closes', 'guards', 'factories'):
            gset(st, k, 0)

        def acquire(ex, st, c):
            # the first use in the process makes the factory
            if gget(st, 'guards') == 0:
                n = ex.choose(st, 2)
                gset(st, 'first', n)
            gadd(st, 'guards')
            if gget(st, 'first') == 1 and gget(st, 'guards') == 1:
                ex.mark('first use')
                return 1
            return 0
        ex.contracts['__cxa_guard_acquire'] = acquire
        ex.contracts['__cxa_guard_release'] = lambda ex, st, c: None
        for k in ('Client', 'Server'):
            ex.contracts[N + k + 'Factory::%sFactory' % k] = lambda ex, st, c: gadd(st, 'factories')

        def getter(ex, st, c):
            gadd(st, 'gets')
            o, fac = as_ptr(c.args[0]), as_ptr(c.args[1])
            ex.prove(st, 'ends/type', eq(get_str(ex, st, as_ptr(c.args[2])), B.T), 'another connection type is asked for')
            ex.prove(st, 'ends/address', same(B.addr(ex, st, as_ptr(c.args[3])), B.A), 'another address is asked for')
            gset(st, 'fac', fac)
            n = ex.choose(st, 2)
            q = NULL
            if n:
                q = rp_new(ex, st, B.fac, B.this, h, a, sid)
                B.kinds.add(q.base.get_id())
                KEEP.append(q.base)
            gset(st, 'client', q)
            ex.write(st, o, 'm', 8, q)
            ex.write(st, o.at(8), 'm', 8, NULL)
            return None
        ex.contracts[B.cls + '::get' + B.name] = getter

        def ask(ex, st, c):
            gadd(st, 'asks')
            o, q, j = as_ptr(c.args[0]), as_ptr(c.args[1]), get_str(ex, st, as_ptr(c.args[2]))
            ex.prove(st, 'ends/of-the-client', ex.ptr_eq(q, gget(st, 'client', NULL)), 'another client or server is asked')
            ex.prove(st, 'ends/of-the-service', eq(j, i), 'another service is asked for')
            r = rp_new(ex, st, B.fac, B.this, h, a, sid)
            gset(st, 'end', r)
            ex.write(st, o, 'm', 8, r)
            ex.write(st, o.at(8), 'm', 8, NULL)
            return None
        ex.contracts[B.party + '::getService' + ('Provider' if server else 'Requester')] = ask

        def close(ex, st, c):
            gadd(st, 'closes')
            gset(st, 'closed', as_ptr(c.args[0]))
            return None
        ex.contracts[B.cls + '::close'] = close
        ex.contracts[N + ('Client' if server else 'Server') + 'Factory::close'] = lambda ex, st, c: gadd(st, 'other closes')
        gset(st, 'other closes', 0)

        def post(s, r):
            ex.prove(s, 'ends/asked-once', eq(gget(s, 'gets'), 1), 'no client or server is looked up')
            if not gget(s, 'gets'):
                return
            got = rp(ex, s, out)
            if ex.ptr_eq(gget(s, 'client'), NULL) is True:
                ex.mark('no client')
                ex.prove(s, 'ends/none', band(ex.ptr_eq(got, NULL), eq(gget(s, 'asks'), 0)), 'something is handed out without a client or server')
            else:
                ex.mark('client')
                ex.prove(s, 'ends/looked-up', eq(gget(s, 'asks'), 1))
                if gget(s, 'asks'):
                    ex.prove(s, 'ends/handed-out', ex.ptr_eq(got, gget(s, 'end')), 'something else is handed out')
            for g, other in (('shutdownAll' + B.name + 's', 0), ('shutdownAll', 1)):
                def post2(s2, r2, other=other):
                    ex.mark('closed')
                    ex.prove(s2, 'ends/closed-once', eq(gget(s2, 'closes'), 1), 'shutdown does not close exactly once')
                    ex.prove(s2, 'ends/others-closed', eq(gget(s2, 'other closes'), other), 'shutdown closes what it should not, or not all')
                    if gget(s2, 'closes'):
                        ex.prove(s2, 'ends/closed-is-the-one-in-use', ex.ptr_eq(gget(s2, 'closed'), gget(s2, 'fac')), 'another factory is closed than the one that is asked')
                t.run(t.fn(N + 'csmgmt::' + g), s.clone(), [], post2)
        t.run(f, st, [out, h, a, sid], post)
    return task


TASKS = [('%s %s' % ('server' if s else 'client', n), f(s)) for s in (False, True) for n, f in (('get', t_get), ('close', t_close))]
TASKS += [('handing out %s' % ('providers' if s else 'requesters'), t_mgmt(s)) for s in (False, True)]

"""Contracts of servers and clients between processes: B01 and B02, the parts that the transport adds.

Senders, receivers, the job thread and the timer are stand-ins that obey contracts (F01, F02, P01, M01 prove them)."""
from basespec import *

IPC = N + 'ipc::local::'
SV, CL = IPC + 'LocalIPCServer', IPC + 'LocalIPCClient'
TUS = ['@base.cpp'] + [CSD + x for x in ('ServerBase.cpp', 'ClientBase.cpp', 'CSMessage.cpp', 'Address.cpp', 'ipc/LocalIPCServer.cpp', 'ipc/LocalIPCClient.cpp')]
AVAIL, UNAVAIL = 'service_available.property', 'service_unavailable.property'


class Ipc(Base):
    def __init__(self, t, cls):
        Base.__init__(self, t, cls, cls, cls == SV)
        ex, st = self.ex, self.st
        self.snd, self.rcv = t.obj(st, 'sender'), t.obj(st, 'receiver')
        self.others += [self.snd, self.rcv]
        for p, f, v in ((self.snd, 'pSender_', 'SndMock'), (self.rcv, 'pReceiver_', 'RcvMock')):
            ex.write(st, p, 'm', 8, signalspec.vtable(t, r'vtable for %s$' % v).at(16))
            ex.write(st, self.this.at(t.off(cls, f)), 'm', 8, p)
        C = ex.contracts
        C['SndMock::send'] = self.send
        C['SndMock::checkReceiverStatus'] = self.check
        for k in ('init', 'start', 'stop', 'setObserver', 'address'):
            C['RcvMock::' + k] = lambda ex, st, c, k=k: self.receiver(st, k, c)
        C[IPC + 'LocalIPCMessage::toBytes'] = self.tobytes
        C[IPC + 'LocalIPCMessage::fromBytes'] = self.frombytes
        C['std::thread::_M_start_thread'] = self.launch
        C['std::thread::join'] = self.join
        C[N + 'single_threadpool::submit'] = self.submit
        if cls == SV:
            self.am, self.as_ = self.this.at(t.off(cls, 'registedClAddrs_._mutex')), self.this.at(t.off(cls, 'registedClAddrs_._protected'))
            self.A = (ex.fresh_int(st, 'A name', 0, (1 << 48) - 1), ex.fresh_int(st, 'A port', 0, 65535))
            self.addrs(st)
        for k in ('sent', 'sentx', 'encoded', 'jobs', 'launched', 'joined', 'asked', 'avx', 'resx', 'locked addrs', 'rinit', 'rstart', 'rstop', 'robs', 'decoded', 'monitor', 'wellformed'):
            gset(st, k, 0)
        gset(st, 'avx', 2)

    def observer_ptr(self):
        """this, as an observer of bytes: the second base class"""
        return self.this.at(self.t.off(self.cls, '~BytesComeObserver'))

    def ordinary(self, m0):
        return band(bnot(eq(m0['code'], OPC['RegisterServiceStatus'])), bor(bnot(eq(m0['code'], OPC['UnregisterServiceStatus'])), bnot(eq(m0['sid'], 0))))

    # -- registered clients
    def addrs(self, st):
        return stl.get_seq(self.ex, st, self.as_, self.akr)

    def akr(self, ex, st, p):
        return self.addr(ex, st, p)

    def lock(self, ex, st, p):
        if self.cls == SV and self.which(p, {'a': self.am}):
            if gget(st, 'locked addrs'):
                stl.set_seq(ex, st, self.as_, stl.SeqInit(ex, st, self.akr))
            gset(st, 'locked addrs', gget(st, 'locked addrs') + 1)
            gset(st, 'A0', self.addrs(st))
            return
        Base.lock(self, ex, st, p)

    def unlock(self, ex, st, p):
        if self.cls == SV and self.which(p, {'a': self.am}):
            gset(st, 'A1', self.addrs(st))
            return
        Base.unlock(self, ex, st, p)

    def access(self, ex, st, p, *a):
        if self.cls == SV and self.which(p, {'a': self.as_}):
            ex.prove(st, 'addresses/locked', stl.held(ex, st, self.am) is not None, 'the registered clients are used without their lock')
            return
        Base.access(self, ex, st, p, *a)

    def has(self, st, S, a):
        return S.contains(self.ex, st, a)

    def seq_node(self, ex, st, S, i, nd):
        # registered clients: nothing but an address
        if getattr(S, 'kr', None) == self.akr:
            return
        Base.seq_node(self, ex, st, S, i, nd)

    # -- transport
    def tobytes(self, ex, st, c):
        """M01: the bytes say what the message says"""
        i = ex.fresh_int(st, 'bytes', 1, (1 << 48) - 1)
        gadd(st, 'encoded')
        for k, v in self.msg(st, as_ptr(c.args[1])).items():
            gset(st, 'enc ' + k, v)
        gset(st, 'enc', i)
        set_str(ex, st, c.args[0], i)
        return None

    def send(self, ex, st, c):
        ex.prove(st, 'transport/its-sender', ex.ptr_eq(as_ptr(c.args[0]), self.snd))
        ex.prove(st, 'transport/the-message', eq(get_str(ex, st, as_ptr(c.args[1])), gget(st, 'enc', -1)), 'other bytes are sent than those of the message')
        to = self.addr(ex, st, as_ptr(c.args[2]))
        r = ex.fresh_int(st, 'sendstatus', 0, 9)
        gadd(st, 'sent')
        gset(st, 'sent to', to)
        gset(st, 'sent result', r)
        h = getattr(self, 'on_sent', None)
        if h:
            h(st, to, r)
        return r

    def check(self, ex, st, c):
        gset(st, 'checked', self.addr(ex, st, as_ptr(c.args[1])))
        return ex.fresh_int(st, 'server status', 0, 1)

    def receiver(self, st, k, c):
        ex = self.ex
        h = getattr(self, 'on_r' + k, None)
        if h:
            return h(st, c)
        if k == 'address':
            return self.myaddr
        gset(st, 'r' + k, gget(st, 'r' + k, 0) + 1)
        if k == 'setObserver':
            gset(st, 'observer', as_ptr(c.args[1]))
        if k in ('init', 'start'):
            r = ex.fresh_int(st, 'receiver ' + k, 0, 1)
            gset(st, 'receiver ' + k, r)
            return eq(r, 1)
        return None

    def frombytes(self, ex, st, c):
        gset(st, 'decoded', gget(st, 'decoded') + 1)
        gset(st, 'decoded from', get_str(ex, st, as_ptr(c.args[1])))
        gset(st, 'decoded to', as_ptr(c.args[0]))
        r = ex.fresh_int(st, 'wellformed', 0, 1)
        gset(st, 'wellformed', r)
        return eq(r, 1)

    def launch(self, ex, st, c):
        gset(st, 'launched', gget(st, 'launched') + 1)
        ex.prove(st, 'thread/one', eq(rd(ex, st, as_ptr(c.args[0])), 0))
        gset(st, 'thread state', rp(ex, st, as_ptr(c.args[1])))
        ex.write(st, as_ptr(c.args[1]), 'm', 8, NULL)
        ex.write(st, as_ptr(c.args[0]), 'm', 8, ex.fresh_int(st, 'thread', 1, 1 << 40))
        return None

    def join(self, ex, st, c):
        gset(st, 'joined', gget(st, 'joined') + 1)
        ex.prove(st, 'thread/joinable', bnot(eq(rd(ex, st, as_ptr(c.args[0])), 0)), 'waits for no thread: throws')
        ex.prove(st, 'thread/told-to-stop', gget(st, 'rstop') >= 1, 'waits for the receiving thread before it is told to stop')
        ex.write(st, as_ptr(c.args[0]), 'm', 8, 0)
        return None

    def submit(self, ex, st, c):
        """runs it later on the job thread (P01)"""
        gset(st, 'jobs', gget(st, 'jobs') + 1)
        p = as_ptr(c.args[0])
        g = Ptr(ex.fresh_base(st), 0)
        ex.copy_region(st, g, p, 32)
        ex.write(st, p.at(16), 'm', 8, NULL)
        gset(st, 'job', g)
        return ex.fresh_int(st, 'submitted', 0, 1)


# ------------------------------------------------------------------ servers
def t_register(t):
    """a client asks to be told about services"""
    B = Ipc(t, SV)
    ex, st = B.ex, B.st
    f = t.fn(SV + '::onIncomingMessage')
    p, sp = B.new_message()
    m0 = B.msg(st, p)
    ex.assume(st, eq(m0['code'], OPC['RegisterServiceStatus']))
    A = m0['src']
    t.need('available', 'not available', 'no such service')

    def avail(s, q, x, c):
        r = ex.fresh_int(s, 'av', 0, 2)
        gset(s, 'avx', ite(x, r, gget(s, 'avx')))
        gset(s, 'av', r)
        gset(s, 'av of', B.sidof(q))
        return r
    B.on_availability = avail

    def sent(s, to, r):
        ex.prove(s, 'register/to-that-client', same(to, A), 'another client is told')
        ex.prove(s, 'register/about-availability', band(eq(gget(s, 'enc code'), OPC['ServiceStatusUpdate']), eq(gget(s, 'enc op'), stl.str_id(AVAIL))), 'another message is sent')
        ex.prove(s, 'register/of-an-available-service', band(eq(gget(s, 'enc sid'), gget(s, 'av of', -1)), eq(gget(s, 'av', -1), 1)), 'a service that is not available is announced as such')
        gset(s, 'sentx', add(gget(s, 'sentx'), ite(eq(gget(s, 'enc sid'), B.X), 1, 0)))
    B.on_sent = sent

    def inv(ex, entry, head, rec, fi, norm):
        g0 = gget(entry, 'sentx')
        return [('toldx', lambda st: eq(gget(st, 'sentx'), add(g0, ite(eq(gget(st, 'avx'), 1), 1, 0)))),
                ('avx', lambda st: band(le(0, gget(st, 'avx')), le(gget(st, 'avx'), 2), implies(eq(gget(st, 'availability x'), 0), eq(gget(st, 'avx'), 2))))]
    ex.loop_hooks.append(inv)

    def locked(s, k):
        if k == B.tab and gget(s, 'registered before') is None:
            gset(s, 'registered before', gget(s, 'locked addrs'))
    B.locked = locked

    def post(s, r):
        ex.prove(s, 'table/locks-released', not s.locks)
        ex.prove(s, 'register/handled', ex.to_bool(r), 'the message is reported as not handled')
        if gget(s, 'A1') is None or gget(s, 'F0 ' + B.tab) is None:
            ex.fail(s, 'register/kept', 'the client is not registered, or the services are not looked at')
            return
        ex.prove(s, 'register/kept', B.has(s, gget(s, 'A1'), A), 'the client is not registered')
        ex.prove(s, 'register/others-kept', implies(bnot(same(A, B.A)), eq(B.has(s, gget(s, 'A0'), B.A), B.has(s, gget(s, 'A1'), B.A))), 'another client is registered or not any more')
        ex.prove(s, 'register/kept-first', gget(s, 'registered before') >= 1, 'a client misses a change between')
        c, q = B.at(s, gget(s, 'F0 ' + B.tab), B.X, B.tab)
        if not ex.decide(s, c):
            ex.mark('no such service')
            ex.prove(s, 'register/only-services-here', eq(gget(s, 'sentx'), 0), 'a service that is not here is announced')
            return
        ex.prove(s, 'register/looked-at-each', bnot(eq(gget(s, 'availability x'), 0)), 'a service is passed over')
        if ex.decide(s, eq(gget(s, 'avx'), 1)):
            ex.mark('available')
            ex.prove(s, 'register/told-once', eq(gget(s, 'sentx'), 1), 'the client is not told exactly once that a service is available')
        else:
            ex.mark('not available')
            ex.prove(s, 'register/not-told', eq(gget(s, 'sentx'), 0), 'an unavailable service is announced')
    t.run(f, st, [B.this, sp], post)


def t_signoff(t):
    """a client leaves"""
    B = Ipc(t, SV)
    ex, st = B.ex, B.st
    f = t.fn(SV + '::onIncomingMessage')
    p, sp = B.new_message()
    m0 = B.msg(st, p)
    ex.assume(st, band(eq(m0['code'], OPC['UnregisterServiceStatus']), eq(m0['sid'], 0)))
    A = m0['src']
    t.need('there', 'not there')

    def handle(s, q, x, c):
        m = B.msg(s, rp(ex, s, as_ptr(c.args[1])))
        ex.prove(s, 'signoff/message', band(eq(m['code'], OPC['UnregisterServiceStatus']), same(m['src'], A), eq(m['sid'], B.sidof(q))), 'a service gets another message')
        return True
    B.on_onIncomingMessage = handle

    def post(s, r):
        ex.prove(s, 'table/locks-released', not s.locks)
        ex.prove(s, 'signoff/handled', ex.to_bool(r), 'the message is reported as not handled')
        if gget(s, 'A1') is None or gget(s, 'F0 ' + B.tab) is None:
            ex.fail(s, 'signoff/removed', 'the client is still registered, or the services are not looked at')
            return
        ex.prove(s, 'signoff/removed', bnot(B.has(s, gget(s, 'A1'), A)), 'the client is still registered')
        ex.prove(s, 'signoff/others-kept', implies(bnot(same(A, B.A)), eq(B.has(s, gget(s, 'A0'), B.A), B.has(s, gget(s, 'A1'), B.A))), 'another client is registered or not any more')
        ex.prove(s, 'signoff/nothing-sent', eq(gget(s, 'sent'), 0))
        c, q = B.at(s, gget(s, 'F0 ' + B.tab), B.X, B.tab)
        there = ex.decide(s, c)
        ex.mark('there' if there else 'not there')
        ex.prove(s, 'signoff/each-service-once', eq(gget(s, 'onIncomingMessage x'), 1 if there else 0), 'a service does not learn exactly once that a client has left')
    t.run(f, st, [B.this, sp], post)


def t_ordinary(t):
    """a message that is about one service only: who is told of changes stays the same"""
    B = Ipc(t, SV)
    ex, st = B.ex, B.st
    f = t.fn(SV + '::onIncomingMessage')
    p, sp = B.new_message()
    m0 = B.msg(st, p)
    ex.assume(st, B.ordinary(m0))

    def post(s, r):
        ex.prove(s, 'table/locks-released', not s.locks)
        A0, A1 = gget(s, 'A0'), gget(s, 'A1')
        ex.mark('kept')
        if A0 is not None and A1 is not None:
            ex.prove(s, 'ordinary/clients-kept', eq(B.has(s, A0, B.A), B.has(s, A1, B.A)), 'a message about one service changes who is told of the changes of all services')
    t.need('kept')
    t.run(f, st, [B.this, sp], post)


def t_broadcast(t):
    """a service becomes available or not: each registered client is told, those that are gone are forgotten"""
    B = Ipc(t, SV)
    ex, st = B.ex, B.st
    f = t.fn(SV + '::notifyServiceStatusToClient', r'^maf.*\(std::[^&]*const&, maf::messaging::Availability')
    h, i = B.sidarg(st)
    old, new = ex.fresh_int(st, 'old', 0, 2), ex.fresh_int(st, 'new', 0, 2)
    ex.assume(st, bnot(eq(old, new)))
    t.need('told', 'gone', 'not registered')
    dead = lambda r: bor(eq(r, ST['ReceiverUnavailable']), eq(r, ST['FailedUnknown']))

    def sent(s, to, r):
        ex.prove(s, 'broadcast/message', band(eq(gget(s, 'enc code'), OPC['ServiceStatusUpdate']), eq(gget(s, 'enc sid'), i), eq(gget(s, 'enc op'), ite(eq(new, 1), stl.str_id(AVAIL), stl.str_id(UNAVAIL)))), 'another message is sent')
        x = same(to, B.A)
        gset(s, 'sentx', add(gget(s, 'sentx'), ite(x, 1, 0)))
        gset(s, 'resx', ite(x, r, gget(s, 'resx')))
    B.on_sent = sent

    def inv(ex, entry, head, rec, fi, norm):
        out = []
        M0 = gget(entry, 'A0')
        if M0 is None:
            return []
        c0 = B.has(entry, M0, B.A)
        for sl in signalspec.iters(ex, head, rec, fi, None):
            def cur(st):
                return B.addrs(st)

            def idx(st, sl=sl):
                v = sl.get(ex, st, fi)
                return stl.iter_idx(ex, st, v)

            def here(st):
                M = cur(st)
                return B.has(st, M, B.A), M.pos(ex, st, B.A)
            out.append(('before:' + sl.name, lambda st, idx=idx: implies(eq(gget(st, 'sentx'), 0), band(eq(here(st)[0], c0), implies(c0, le(idx(st), here(st)[1]))))))
            out.append(('after:' + sl.name, lambda st, idx=idx: implies(eq(gget(st, 'sentx'), 1), band(c0, eq(here(st)[0], bnot(dead(gget(st, 'resx')))), implies(here(st)[0], lt(here(st)[1], idx(st)))))))
        out.append(('sentx', lambda st: band(le(0, gget(st, 'sentx')), le(gget(st, 'sentx'), 1))))
        return out
    ex.loop_hooks.append(inv)

    def post(s, r):
        ex.prove(s, 'table/locks-released', not s.locks)
        if gget(s, 'A1') is None:
            ex.fail(s, 'broadcast/clients-looked-at', 'the registered clients are not looked at')
            return
        c0, c1 = B.has(s, gget(s, 'A0'), B.A), B.has(s, gget(s, 'A1'), B.A)
        if not ex.decide(s, c0):
            ex.mark('not registered')
            ex.prove(s, 'broadcast/only-registered', band(eq(gget(s, 'sentx'), 0), bnot(c1)), 'a client that is not registered is told')
            return
        ex.prove(s, 'broadcast/each-once', eq(gget(s, 'sentx'), 1), 'a registered client is not told exactly once')
        if ex.decide(s, dead(gget(s, 'resx'))):
            ex.mark('gone')
            ex.prove(s, 'broadcast/gone-forgotten', bnot(c1), 'a client that is gone stays registered')
        else:
            ex.mark('told')
            ex.prove(s, 'broadcast/others-kept', c1, 'a client that can be reached is not registered any more')
    t.run(f, st, [B.this, h, old, new], post)


def t_send(cls):
    def task(t):
        B = Ipc(t, cls)
        ex, st = B.ex, B.st
        server = cls == SV
        f = t.fn(cls + ('::sendMessageToClient' if server else '::sendMessageToServer'), r'^maf')
        p, sp = B.new_message()
        m0 = B.msg(st, p)
        to = t.obj(st, 'to') if server else B.this.at(t.off(cls, 'myServerAddress_'))
        a = B.addr(ex, st, to)
        my = t.obj(st, 'my')
        B.myaddr = my
        B.others.append(my)
        t.need('sent')

        def post(s, r):
            ex.mark('sent')
            ex.prove(s, 'send/once', eq(gget(s, 'sent'), 1), 'a message is not sent exactly once')
            if gget(s, 'sent to') is None:
                return
            ex.prove(s, 'send/to-the-other-side', same(gget(s, 'sent to'), a), 'a message is sent to somebody else')
            ex.prove(s, 'send/contents', band(*[eq(gget(s, 'enc ' + k), m0[k]) if k != 'payload' else ex.ptr_eq(gget(s, 'enc payload'), m0[k]) for k in ('sid', 'op', 'id', 'code', 'payload')]), 'another message is sent')
            if not server:
                ex.prove(s, 'send/says-from-where', same(gget(s, 'enc src'), B.addr(ex, s, my)), 'the receiver does not learn who sent the message')
            ex.prove(s, 'send/result', eq(ex.as_int(r), gget(s, 'sent result')), 'another result is reported')
        t.run(f, st, [B.this, sp] + ([to] if server else []), post)
    return task


def t_bytes(cls):
    """bytes come: the message in them is handled on the job thread"""
    def task(t):
        B = Ipc(t, cls)
        ex, st = B.ex, B.st
        f = t.fn(cls + '::onBytesCome', r'^maf')
        b = t.obj(st, 'bytes')
        i = get_str(ex, st, b)
        t.need('handled', 'not wellformed', 'gone')
        C = ex.contracts
        for k in ('alive', 'incoming'):
            gset(st, k, 0)
        gset(st, ('alive', B.ctl.base if isc(B.ctl.base) else B.ctl.base.get_id()), 0)

        def incoming(ex, st, c):
            gset(st, 'incoming', gget(st, 'incoming') + 1)
            ex.prove(st, 'bytes/to-itself', ex.ptr_eq(as_ptr(c.args[0]), B.this), 'another one handles the message')
            ex.prove(st, 'bytes/its-message', ex.ptr_eq(rp(ex, st, as_ptr(c.args[1])), gget(st, 'decoded to', NULL)), 'another message is handled')
            return ex.fresh_int(st, 'handled', 0, 1)
        C[cls + '::onIncomingMessage'] = C[CB + '::onIncomingMessage'] = C[SB + '::onIncomingMessage'] = incoming

        def weak(ex, st, v):
            if ex.ptr_eq(as_ptr(v), B.ctl) is True:
                r = ex.choose(st, 2) == 0
                gset(st, 'alive', 1 if r else 2)
                return r
        ex.hooks['weak_lock'] = weak

        def post(s, r):
            ex.prove(s, 'bytes/one-job', gget(s, 'jobs') == 1, 'the bytes do not make exactly one job')
            ex.prove(s, 'bytes/not-here', gget(s, 'decoded') == 0 and gget(s, 'incoming') == 0, 'the message is handled on the receiving thread')
            if gget(s, 'job') is None:
                return

            def after(s2, r2):
                ex.prove(s2, 'table/locks-released', not s2.locks)
                if gget(s2, 'alive') == 2:
                    ex.mark('gone')
                    ex.prove(s2, 'bytes/gone', gget(s2, 'incoming') == 0, 'a message is handled by an object that is gone')
                    return
                # who is gone must not be used: the job has to find out first
                ex.prove(s2, 'bytes/still-there', gget(s2, 'alive') == 1, 'the job uses an object that may be gone')
                ex.prove(s2, 'bytes/decoded', band(gget(s2, 'decoded') == 1, eq(gget(s2, 'decoded from', -1), i)), 'other bytes are decoded')
                w = ex.decide(s2, eq(gget(s2, 'wellformed'), 1))
                ex.mark('handled' if w else 'not wellformed')
                ex.prove(s2, 'bytes/handled-once' if w else 'bytes/nonsense-ignored', gget(s2, 'incoming') == (1 if w else 0), 'the message is not handled exactly once' if w else 'a message that is none is handled')
            t.run(call_op(t), s, [gget(s, 'job')], after, cover='job')
        t.run(f, st, [B.this, b], post)
    return task


def t_life(cls):
    """init, start, stop"""
    def task(t):
        server = cls == SV
        t.need('listens', 'does not listen', 'runs', 'joined', 'never started')
        # init
        B = Ipc(t, cls)
        ex, st = B.ex, B.st
        a = t.obj(st, 'address')
        A = B.addr(ex, st, a)
        ex.assume(st, band(bnot(eq(A[0], 0)), bnot(eq(A[1], -1))))
        ex.contracts['maf::util::process::pid'] = lambda ex, st, c: ex.fresh_int(st, 'pid', 1, 1 << 22)
        ex.contracts[N + 'Address::valid'] = lambda ex, st, c: True

        def rinit(s, c):
            gset(s, 'rinit', gget(s, 'rinit') + 1)
            gset(s, 'listens at', B.addr(ex, s, as_ptr(c.args[1])))
            gset(s, 'observed before', gget(s, 'robs'))
            r = ex.fresh_int(s, 'receiver init', 0, 1)
            gset(s, 'receiver init', r)
            return eq(r, 1)

        def observer(s, c):
            gset(s, 'robs', gget(s, 'robs') + 1)
            gset(s, 'observer', as_ptr(c.args[1]))
        B.on_rinit, B.on_rsetObserver = rinit, observer
        my = B.this.at(t.off(cls, 'myServerAddress_')) if not server else None

        def inited(s, r):
            ex.prove(s, 'init/listens-once', gget(s, 'rinit') == 1)
            if gget(s, 'listens at') is None:
                return
            ok = ex.decide(s, eq(gget(s, 'receiver init'), 1))
            ex.mark('listens' if ok else 'does not listen')
            ex.prove(s, 'init/result', eq(ex.to_bool(r), ok), 'it is not reported whether the address can be listened at')
            if server:
                ex.prove(s, 'init/its-address', same(gget(s, 'listens at'), A), 'the server listens somewhere else')
            else:
                ex.prove(s, 'init/own-address', bnot(same(gget(s, 'listens at'), A)), 'the client listens where its server does')
            if ok:
                ex.prove(s, 'init/observes', gget(s, 'robs') == 1 and ex.ptr_eq(gget(s, 'observer', NULL), B.observer_ptr()), 'what comes in does not get to the one who listens')
                if not server:
                    ex.prove(s, 'init/server-kept', same(B.addr(ex, s, my), A), 'the client talks to another server')
        t.run(t.fn(cls + '::init', r'^maf'), st, [B.this, a], inited, cover='init')
        # start
        B = Ipc(t, cls)
        ex, st = B.ex, B.st
        th = B.this.at(t.off(cls, 'listeningThread_' if server else 'receiverThread_'))
        ex.write(st, th, 'm', 8, 0)
        gset(st, 'monitored', 0)

        def monitor(ex, st, c):
            gset(st, 'monitored', gget(st, 'monitored') + 1)
            ex.prove(st, 'start/monitors-itself', ex.ptr_eq(as_ptr(c.args[0]), B.this))
        mon = ex.contracts[CL + '::monitorServerStatus'] = monitor

        def started(s, r):
            ex.prove(s, 'start/result', ex.to_bool(r), 'a start is reported as failed')
            ex.prove(s, 'start/one-thread', gget(s, 'launched') == 1, 'not exactly one thread listens')
            ex.prove(s, 'start/not-here', gget(s, 'rstart') == 0 and gget(s, 'monitored') == 0, 'the caller listens instead of a thread')
            if not server:
                ex.prove(s, 'start/watches-server', gget(s, 'jobs') == 1, 'the client does not look whether its server is there')
            if gget(s, 'thread state') is None:
                return
            state = gget(s, 'thread state')
            run = t.fn('std::thread::_State_impl::_M_run', '%s::start' % cls.split('::')[-1])

            def ran(s2, r2):
                ex.mark('runs')
                ex.prove(s2, 'start/thread-listens', gget(s2, 'rstart') == 1, 'the thread does not listen')
            t.run(run, s.clone(), [state], ran, cover='thread')
            if server or gget(s, 'job') is None:
                return
            for alive in (1, 0):
                s2 = s.clone()
                gset(s2, ('alive', B.ctl.base if isc(B.ctl.base) else B.ctl.base.get_id()), alive)
                ex.hooks['weak_lock'] = lambda ex, st, v: False

                def looked(s3, r3, alive=alive):
                    ex.prove(s3, 'start/first-look' if alive else 'start/gone', gget(s3, 'monitored') == alive, 'the first look at the server does not happen once' if alive else 'the job uses an object that may be gone')
                t.run(call_op(t), s2, [gget(s, 'job')], looked, cover='first look')
        t.run(t.fn(cls + '::start', r'^maf'), st, [B.this], started, cover='start')
        # stop
        for running in (1, 0):
            B = Ipc(t, cls)
            ex, st = B.ex, B.st
            th = B.this.at(t.off(cls, 'listeningThread_' if server else 'receiverThread_'))
            ex.write(st, th, 'm', 8, ex.fresh_int(st, 'thread', 1, 1 << 40) if running else 0)
            gset(st, 'timer stopped', 0)

            def tstop(ex, st, c):
                gset(st, 'timer stopped', gget(st, 'timer stopped') + 1)
            ex.contracts[N + 'Timer::stop'] = tstop

            def stopped(s, r, running=running):
                ex.mark('joined' if running else 'never started')
                ex.prove(s, 'stop/receiver', gget(s, 'rstop') >= 1, 'the receiver is not stopped')
                ex.prove(s, 'stop/waits', gget(s, 'joined') == running and eq(rd(ex, s, th), 0), 'the listening thread may go on after the stop')
                if not server:
                    ex.prove(s, 'stop/timer', gget(s, 'timer stopped') >= 1, 'the server is still watched after the stop')
            t.run(t.fn(cls + '::stop', r'^maf'), st, [B.this], stopped, cover='stop')
    return task


def t_client_server_status(t):
    """the server of a client has come or gone: asks it for its services, or learns that they are gone"""
    B = Ipc(t, CL)
    ex = B.ex
    f = t.fn(CL + '::onServerStatusChanged', r'^maf')
    cur = B.this.at(t.off(CL, 'currentServerStatus_'))
    t.need('registered', 'could not register', 'gone')

    def base(ex, st, c):
        gset(st, 'base', gget(st, 'base', 0) + 1)
        ex.prove(st, 'server/told-before-asking', gget(st, 'sent') == 0, 'the services of a server that is gone may be kept')
        ex.prove(st, 'server/change', band(eq(ex.as_int(c.args[1]), B.old), eq(ex.as_int(c.args[2]), B.new)), 'another change is announced')
    ex.contracts[CB + '::onServerStatusChanged'] = base
    B.myaddr = t.obj(B.st, 'my')
    B.others.append(B.myaddr)
    srv = B.addr(ex, B.st, B.this.at(t.off(CL, 'myServerAddress_')))
    for new in (0, 1, 2):
        st = B.st.clone()
        B.new, B.old = new, ex.fresh_int(st, 'old', 0, 2)
        ex.assume(st, bnot(eq(B.old, new)))
        c0 = rd(ex, st, cur, 1)

        def post(s, r, new=new, c0=c0):
            ex.prove(s, 'server/handled', gget(s, 'base', 0) == 1, 'the requesters are not told')
            ex.prove(s, 'table/locks-released', not s.locks)
            c1 = rd(ex, s, cur, 1)
            if new != AV['Available']:
                ex.mark('gone')
                ex.prove(s, 'server/gone', band(eq(gget(s, 'sent'), 0), eq(c1, new)), 'the client asks a server that is gone, or thinks it is there')
                return
            ex.prove(s, 'server/asked-once', eq(gget(s, 'sent'), 1), 'the server is not asked once for its services')
            if gget(s, 'sent to') is None:
                return
            ex.prove(s, 'server/the-server', same(gget(s, 'sent to'), srv), 'another server is asked')
            ex.prove(s, 'server/asked-for-services', band(eq(gget(s, 'enc code'), OPC['RegisterServiceStatus']), same(gget(s, 'enc src'), B.addr(ex, s, B.myaddr))), 'the server is asked something else, or by somebody else')
            ok = ex.decide(s, eq(gget(s, 'sent result'), ST['Success']))
            ex.mark('registered' if ok else 'could not register')
            ex.prove(s, 'server/known' if ok else 'server/tried-again', eq(c1, 1 if ok else c0), 'the next look at the server does not try again' if not ok else 'the client goes on asking')
        t.run(f, st, [B.this, B.old, B.new], post)


def t_monitor(t):
    """looks at the server now and then"""
    B = Ipc(t, CL)
    ex, st = B.ex, B.st
    f = t.fn(CL + '::monitorServerStatus')
    cur = B.this.at(t.off(CL, 'currentServerStatus_'))
    c0 = rd(ex, st, cur, 1)
    ex.assume(st, le(c0, 2))
    t.need('changed', 'as before', 'again', 'gone')
    srv = B.addr(ex, st, B.this.at(t.off(CL, 'myServerAddress_')))
    timer = B.this.at(t.off(CL, 'serverMonitorTimer_'))
    for k in ('checks', 'changes', 'armed', 'again'):
        gset(st, k, 0)

    def check(ex, st, c):
        gset(st, 'checks', gget(st, 'checks') + 1)
        ex.prove(st, 'monitor/its-server', same(B.addr(ex, st, as_ptr(c.args[1])), srv), 'another server is looked at')
        r = ex.fresh_int(st, 'server status', 0, 1)
        gset(st, 'server status', r)
        return r
    ex.contracts['SndMock::checkReceiverStatus'] = check

    def change(ex, st, c):
        gset(st, 'changes', gget(st, 'changes') + 1)
        gset(st, 'change', (ex.as_int(c.args[1]), ex.as_int(c.args[2])))
    for k in (CL, CB, 'TClient'):
        ex.contracts[k + '::onServerStatusChanged'] = change

    def arm(ex, st, c):
        gset(st, 'armed', gget(st, 'armed') + 1)
        ex.prove(st, 'monitor/its-timer', ex.ptr_eq(as_ptr(c.args[0]), timer))
        g = Ptr(ex.fresh_base(st), 0)
        p = as_ptr(c.args[2])
        ex.copy_region(st, g, p, 32)
        ex.write(st, p.at(16), 'm', 8, NULL)
        gset(st, 'next', g)
    ex.contracts[N + 'Timer::start'] = arm
    interval = ex.fresh_int(st, 'interval', 0, 1000)

    def post(s, r):
        ex.prove(s, 'monitor/looks', gget(s, 'checks') == 1, 'the server is not looked at')
        if gget(s, 'server status') is None:
            return
        v = gget(s, 'server status')
        ch = ex.decide(s, bnot(eq(v, c0)))
        ex.mark('changed' if ch else 'as before')
        ex.prove(s, 'monitor/each-change-once', gget(s, 'changes') == (1 if ch else 0), 'a change of the server is not noticed exactly once')
        if ch and gget(s, 'change') is not None:
            ex.prove(s, 'monitor/the-change', band(eq(gget(s, 'change')[0], c0), eq(gget(s, 'change')[1], v)), 'another change is announced')
        ex.prove(s, 'monitor/looks-again', gget(s, 'armed') == 1, 'the server is not looked at any more')
        if gget(s, 'next') is None:
            return
        for alive in (1, 0):
            s2 = s.clone()
            gset(s2, ('alive', B.ctl.base if isc(B.ctl.base) else B.ctl.base.get_id()), alive)
            ex.hooks['weak_lock'] = lambda ex, st, v: False
            old = ex.contracts.get(CL + '::monitorServerStatus')

            def again(ex, st, c):
                gset(st, 'again', gget(st, 'again') + 1)
                ex.prove(st, 'monitor/again-itself', ex.ptr_eq(as_ptr(c.args[0]), B.this))
            ex.contracts[CL + '::monitorServerStatus'] = again

            def fired(s3, r3, alive=alive):
                ex.mark('again' if alive else 'gone')
                ex.prove(s3, 'monitor/next-look' if alive else 'monitor/gone', gget(s3, 'again') == alive, 'the next look does not happen' if alive else 'the timer uses an object that may be gone')
            t.run(call_op(t), s2, [gget(s, 'next')], fired, cover='next look')
            ex.contracts.pop(CL + '::monitorServerStatus')
    t.run(f, st, [B.this, interval], post)


from procspec import call_op
BTASKS = [('LocalIPCServer dispatch', t_dispatch(SV, lambda t: Ipc(t, SV))), ('send to client', t_send(SV)), ('send to server', t_send(CL)),
          ('server bytes', t_bytes(SV)), ('client bytes', t_bytes(CL))]
LTASKS = [('server life', t_life(SV)), ('client life', t_life(CL))]
ATASKS = [('register', t_register), ('signoff', t_signoff), ('ordinary message', t_ordinary), ('broadcast', t_broadcast), ('client: server status', t_client_server_status), ('client: monitor', t_monitor)]
TASKS_ALL = BTASKS + LTASKS + ATASKS

"""Local socket framing: one connection per message, a 4-byte length followed by the payload"""
from spec import *
from serspec import Bytes, rdn, zi

UX = 'src/platforms/unix/maf/messaging/client-server/ipc/'
TUS = [UX + 'LocalIPCBufferSenderImpl.cpp', UX + 'LocalIPCBufferReceiverImpl.cpp', 'src/common/maf/messaging/client-server/Address.cpp']
LIM = 1 << 32
NS = 'maf::messaging::ipc::local::'
SUCCESS = 0


class Fds:
    """descriptors: every one opened is closed exactly once and not used after that"""

    def __init__(self, ex, st):
        self.ex = ex
        st.ghost['fds'] = ()

    def open(self, st, name):
        f = self.ex.fresh_int(st, name, 0, (1 << 31) - 1)
        for g, o in gget(st, 'fds'):
            if o:
                self.ex.assume(st, bnot(eq(f, g)))
        gset(st, 'fds', gget(st, 'fds') + ((f, True),))
        return f

    def is_open(self, st, f):
        for g, o in reversed(gget(st, 'fds')):
            if self.ex.entails(st, eq(f, g)):
                return o
        return None

    def close(self, ex, st, c):
        f = ex.as_int(c.args[0])
        o = self.is_open(st, f)
        ex.prove(st, 'descriptors/closed-once', o is True, 'closes a descriptor that is not open')
        gset(st, 'fds', tuple((g, False if (o and ex.entails(st, eq(f, g))) else w) for g, w in gget(st, 'fds')))
        return 0


def signed32(ex, st, v):
    return v


def strncpy(B):
    def f(ex, st, c):
        d, n = c.args[0], ex.as_int(c.args[2])
        # the name goes into the path of a socket address (110 bytes, path at 2, abstract names start one behind it)
        ex.prove(st, 'address/name-fits', band(eq(d.off, 3), le(add(n, 3), 110)) if isc(d.off) else False, 'the receiver name does not fit the socket address')
        q = B.buf_of(ex, st, c.args[1])
        name = stl.get_str(ex, st, q) if q is not None else -1
        ex.prove(st, 'address/whole-name', band(q is not None, eq(n, stl.slen(ex, st, name))), 'not the whole receiver name is used')
        ex.write(st, d, 'cname', 0, name)
        return d
    return f


def cname(ex, st, p):
    return ex.read(st, p.at(3), 'cname', 0, lambda s, b, o, e: -1)


class Sock:
    """contracts of the socket calls a sender makes; `name` is the receiver name the caller gave"""

    def __init__(self, t, payload=True):
        self.t, self.B = t, Bytes(t)
        self.ex, self.st = t.ex, self.B.st
        ex, st = self.ex, self.st
        self.F = Fds(ex, st)
        self.payload = t.obj(st, 'payload') if payload else None
        st.ghost.update(sent=0, err=False, conn=False)
        self.N = None
        if payload:
            self.N = stl.slen(ex, st, stl.get_str(ex, st, self.payload))
            ex.assume(st, lt(self.N, LIM))
        for k, v in dict(socket=self.socket, connect=self.connect, write=self.write, close=self.F.close, send=self.write, strncpy=strncpy(self.B)).items():
            ex.contracts[k] = v
        ex.contracts['__errno_location'] = lambda ex, st, c: Ptr(ex.fresh_base(st), 0)

    def bufs(self, *ps):
        self.st.ghost['bufs'] = tuple((self.ex.fresh_base(self.st), q, 0) for q in ps)

    def socket(self, ex, st, c):
        if ex.decide(st, ex.fresh_bool(st, 'nosocket')):
            return (1 << 32) - 1
        return self.F.open(st, 'fd')

    def connect(self, ex, st, c):
        ex.prove(st, 'descriptors/open-when-used', self.F.is_open(st, ex.as_int(c.args[0])) is True)
        n, w = cname(ex, st, c.args[1]), self.name(st)
        ex.prove(st, 'address/right-receiver', bor(eq(n, w), band(eq(n, -1), eq(stl.slen(ex, st, w), 0))), 'connects to something else than the receiver named')
        if ex.decide(st, eq(n, -1)):
            return (1 << 32) - 1
        if ex.decide(st, ex.fresh_bool(st, 'refused')):
            return (1 << 32) - 1
        gset(st, 'conn', ex.as_int(c.args[0]))
        return 0

    def write(self, ex, st, c):
        B, N = self.B, self.N
        if c.norm == 'write':
            ex.fail(st, 'framing/no-signal', 'a receiver that has gone kills the sender with SIGPIPE')
        else:
            fl = ex.as_int(c.args[3])
            ex.prove(st, 'framing/no-signal', isc(fl) and bool(fl & 0x4000), 'a receiver that has gone kills the sender with SIGPIPE')
        fd, p, n = ex.as_int(c.args[0]), c.args[1], ex.as_int(c.args[2])
        ex.prove(st, 'descriptors/open-when-used', band(self.F.is_open(st, fd) is True, eq(fd, gget(st, 'conn')) if gget(st, 'conn') is not False else False),
                 'writes to a descriptor that is not connected')
        sent = gget(st, 'sent')
        b = B.buf_of(ex, st, p)
        if b is None:
            ex.prove(st, 'framing/header-first', band(eq(sent, 0), eq(n, 4)), 'something other than the remaining header is written before the payload')
            ex.prove(st, 'framing/header-is-length', eq(rdn(ex, st, p, 4), N), 'the length announced is not the length of the payload')
        else:
            ex.prove(st, 'framing/payload-only', ex.ptr_eq(b, self.payload))
            ex.prove(st, 'memory-safety/buffer-bounds', band(le(0, p.off), le(add(p.off, n), N)), 'reads outside the payload')
            ex.prove(st, 'framing/payload-continues', band(le(4, sent), eq(p.off, sub(sent, 4))), 'the bytes written are not the next ones of the payload')
        if ex.decide(st, ex.fresh_bool(st, 'werr')):
            gset(st, 'err', True)
            return (1 << 64) - 1
        r = ex.fresh_int(st, 'written', 0, 1 << 47)
        ex.assume(st, band(le(r, n), implies(lt(0, n), lt(0, r))))
        if b is None and ex.decide(st, bnot(eq(r, n))):
            gset(st, 'err', True)         # a length that is not accepted at once counts as a failed call
        gset(st, 'sent', add(sent, r))
        return r


def t_send(t):
    S = Sock(t)
    ex, st = S.ex, S.st
    f = t.fn(NS + 'LocalIPCBufferSenderImpl::send', lambda d: 'Address' not in d)
    this, path = t.obj(st, 'this'), t.obj(st, 'path')
    S.bufs(S.payload, path)
    S.name = lambda st: stl.get_str(ex, st, path)
    N = S.N

    def inv(ex, entry, head, rec, fi, norm):
        return [('sent-in-range', lambda st: band(le(4, gget(st, 'sent')), le(gget(st, 'sent'), add(4, N))))]
    ex.loop_hooks.append(inv)

    def post(s, r):
        r = ex.as_int(r)
        ok = eq(r, SUCCESS)
        whole = eq(gget(s, 'sent'), add(4, N))
        ex.prove(s, 'framing/success-means-sent', implies(ok, whole), 'reports success although the message was not handed over completely')
        if gget(s, 'conn') is not False:
            ex.prove(s, 'framing/fails-only-on-error', bor(gget(s, 'err'), whole), 'gives up although no call failed')
        ex.prove(s, 'framing/reports-sent', implies(band(whole, bnot(gget(s, 'err'))), ok), 'reports a failure although the whole message was handed over')
        ex.prove(s, 'descriptors/no-leak', all(not o for g, o in gget(s, 'fds')), 'a descriptor stays open')
        ex.mark('success' if ex.decide(s, ok) else 'failure')
    t.need('success', 'failure')
    t.run(f, st, [this, S.payload, path], post)


def t_send_addr(t):
    """sending to an address sends to the receiver of that name (contract of the other overload)"""
    ex = t.ex
    st = t.state()
    this, payload, addr = t.obj(st, 'this'), t.obj(st, 'payload'), t.obj(st, 'address')
    nm = addr.at(t.off('maf::messaging::Address', 'name_'))
    name0 = stl.get_str(ex, st, nm)

    def inner(ex, st, c):
        if 'Address' in stl.param_text(c.dem):
            return '$body'
        ex.prove(st, 'address/right-receiver', band(ex.ptr_eq(c.args[1], payload), eq(stl.get_str(ex, st, c.args[2]), name0)))
        r = ex.fresh_int(st, 'status', 0, 7)
        gset(st, 'res', r)
        return r
    ex.contracts[NS + 'LocalIPCBufferSenderImpl::send'] = inner
    t.run(t.fn(NS + 'LocalIPCBufferSenderImpl::send', lambda d: 'Address' in d), st, [this, payload, addr],
          lambda s, r: ex.prove(s, 'framing/status-passed-on', eq(ex.as_int(r), gget(s, 'res', -1))))


def t_check(t):
    """availability is exactly: a connection to the receiver of that name succeeds"""
    S = Sock(t, payload=False)
    ex, st = S.ex, S.st
    this, addr = t.obj(st, 'this'), t.obj(st, 'address')
    nm = addr.at(t.off('maf::messaging::Address', 'name_'))
    S.bufs(nm)
    S.name = lambda st: stl.get_str(ex, st, nm)
    # per-thread caches kept by the function: an address and the socket address made from it
    cache = dict(sockaddr=[], addr=[])
    for m in ex.mods:
        for n, l in m.global_lines.items():
            if 'thread_local' in l and not n.startswith('_ZGV') and 'checkReceiverStatus' in n:
                if 'sockaddr_un' in l:
                    cache['sockaddr'].append(ex.global_ptr(n, m))
                elif 'maf::messaging::Address"' in l:
                    cache['addr'].append(ex.global_ptr(n, m))
    pairs = list(zip(cache['sockaddr'], cache['addr'])) if len(cache['sockaddr']) == len(cache['addr']) == 1 else []

    def cached(s):
        sa, a = pairs[0]
        return ex.read(s, sa.at(3), 'cname', 0, lambda s, b, o, e: -1), stl.get_str(ex, s, a.at(t.off('maf::messaging::Address', 'name_')))
    if pairs:
        sa, a = pairs[0]
        cn = stl.get_str(ex, st, a.at(t.off('maf::messaging::Address', 'name_')))
        S.bufs(nm, a.at(t.off('maf::messaging::Address', 'name_')))
        x = ex.fresh_int(st, 'cached_name', -1, 1 << 40)
        for m in ex.mods:
            for n in m.global_lines:
                if n.startswith('_ZGV') and 'checkReceiverStatus' in n:
                    g = ex.fresh_int(st, 'initialised', 0, 1)
                    ex.write(st, ex.global_ptr(n, m), 'm', 1, g)
                    ex.assume(st, implies(eq(g, 0), eq(x, -1)))
        ex.assume(st, bor(eq(x, cn), band(eq(x, -1), eq(stl.slen(ex, st, cn), 0))))
        ex.write(st, sa.at(3), 'cname', 0, x)

    def post(s, r):
        if pairs:
            x, y = cached(s)
            ex.prove(s, 'availability/cache-consistent', bor(eq(x, y), band(eq(x, -1), eq(stl.slen(ex, s, y), 0))), 'the cached socket address is not that of the cached receiver')
        ex.prove(s, 'availability/result', eq(eq(ex.as_int(r), 1), gget(s, 'conn') is not False), 'availability is not what connecting says')
        ex.prove(s, 'descriptors/no-leak', all(not o for g, o in gget(s, 'fds')), 'a descriptor stays open')
    t.run(t.fn(NS + 'LocalIPCBufferSenderImpl::checkReceiverStatus'), st, [this, addr], post)



RX = NS + 'LocalIPCBufferReceiverImpl::'


class Receiver:
    """contracts of the calls the receiving loop makes.  One session per connection that is being read:
    the peer announces L bytes and sends some or all of them, in pieces of any size"""

    def __init__(self, t):
        self.t, self.B = t, Bytes(t)
        self.ex, self.st = t.ex, self.B.st
        ex, st = self.ex, self.st
        st.ghost.update(active=0, afd=0, hdr=0, L=0, got=0, eof=0, dlv=0, sess=0, pend=0, listened=0, pb=0, po=0)
        self.this = t.obj(st, 'this')
        off = lambda n: t.off(RX[:-2], n)
        self.cb = self.this.at(off('bytesComeCallback_'))
        ex.contracts.update({'read': self.read, 'close': self.close, 'select': self.select, 'accept': self.accept,
                             'std::function::operator()': self.deliver, 'std::basic_string::resize': self.resize})
        ex.contracts[RX + 'changeCurrentStateAndInterruptIfStop'] = self.check_stop
        ex.contracts['__errno_location'] = lambda ex, st, c: Ptr(ex.fresh_base(st), 0)
        ex.hooks['prestore'] = self.on_store
        self.last = None

    def stream(self, s, j):
        t = uf('stream', 2)(zi(s), zi(j))
        setrange(t, 0, 255)
        return t

    def check_stop(self, ex, st, c):
        self.between(st)
        if ex.decide(st, ex.fresh_bool(st, 'stopped')):
            return '$end'
        return None

    def between(self, st):
        ex = self.ex
        ex.prove(st, 'connections/kept', eq(gget(st, 'pend'), 0), 'an accepted connection is neither kept nor closed')
        ex.prove(st, 'connections/finished', eq(gget(st, 'active'), 0), 'a connection is left half read')

    def select(self, ex, st, c):
        self.between(st)
        for a in (c.args[1],):
            if isc(a.base) and a.base > HEAP_LIMIT:
                ex.havoc_region(st, a, 128)
        return ex.fresh_int(st, 'ready', 0, (1 << 32) - 1)

    def accept(self, ex, st, c):
        self.between(st)
        if ex.decide(st, ex.fresh_bool(st, 'accept_fails')):
            return (1 << 32) - 1
        f = ex.fresh_int(st, 'accepted', 1, (1 << 31) - 1)
        gset(st, 'pend', f)
        ex.mark('accepted')
        return f

    def on_store(self, ex, st, p, size, v):
        if size == 4 and not isinstance(v, (Ptr, IterVal)) and not (isc(v) and v == 0) and ex.entails(st, band(lt(0, gget(st, 'pend')), eq(v, gget(st, 'pend')))):
            old = rdn(ex, st, p, 4)
            ex.prove(st, 'connections/slot-free', eq(old, 0), 'a connection replaces another one')
            gset(st, 'pend', 0)

    def read(self, ex, st, c):
        B, J = self.B, self.B.J
        fd, p, n = ex.as_int(c.args[0]), c.args[1], ex.as_int(c.args[2])
        b = B.buf_of(ex, st, p)
        if ex.decide(st, eq(gget(st, 'active'), 0)):
            ex.prove(st, 'framing/header-first', band(b is None, eq(n, 4)), 'the first bytes of a connection are its length')
            gset(st, 'active', 1); gset(st, 'afd', fd); gset(st, 'got', 0); gset(st, 'eof', 0); gset(st, 'dlv', 0)
            if ex.decide(st, ex.fresh_bool(st, 'no_header')):
                gset(st, 'hdr', 0)
                gset(st, 'L', 0)
                return ex.fresh_int(st, 'partial', 0, 3) if ex.decide(st, ex.fresh_bool(st, 'partial')) else (1 << 64) - 1
            L = ex.fresh_int(st, 'announced', 0, LIM - 1)
            gset(st, 'hdr', 1); gset(st, 'L', L); gset(st, 'sess', ex.fresh_int(st, 'session'))
            ex.write(st, p, 'm', 4, L)
            ex.mark('header')
            return 4
        ex.prove(st, 'framing/same-connection', eq(fd, gget(st, 'afd')), 'reads from another connection before this one is finished')
        ex.prove(st, 'framing/not-after-end', eq(gget(st, 'eof'), 0), 'keeps reading after the end of the stream or an error')
        if b is None:
            ex.prove(st, 'framing/payload-into-buffer', False, 'bytes of the payload are read into something else than the message')
            return (1 << 64) - 1
        got, L = gget(st, 'got'), gget(st, 'L')
        N = stl.slen(ex, st, stl.get_str(ex, st, b))
        ex.prove(st, 'memory-safety/buffer-bounds', band(le(0, p.off), le(add(p.off, n), N)), 'reads past the end of the message buffer')
        ex.prove(st, 'framing/payload-continues', eq(p.off, got), 'bytes are not placed where the previous ones ended')
        ex.prove(st, 'framing/only-this-message', le(add(got, n), L), 'reads more than the announced length')
        if ex.decide(st, ex.fresh_bool(st, 'stream_ends')):
            gset(st, 'eof', 1)
            ex.mark('truncated')
            return 0 if ex.decide(st, ex.fresh_bool(st, 'at_end')) else (1 << 64) - 1
        r = ex.fresh_int(st, 'received', 0, LIM)
        ex.assume(st, band(le(r, n), implies(lt(0, n), lt(0, r))))
        old = stl.get_str(ex, st, b)
        new = ex.fresh_int(st, 'filled', 0, (1 << 48) - 1)
        ex.assume(st, eq(stl.slen(ex, st, new), stl.slen(ex, st, old)))
        ex.assume(st, eq(B.at(new, J), ite(band(le(p.off, J), lt(J, add(p.off, r))), self.stream(gget(st, 'sess'), J), B.at(old, J))))
        stl.set_str(ex, st, b, new)
        gset(st, 'got', add(got, r))
        return r

    def resize(self, ex, st, c):
        self.B.resize(ex, st, c)
        self.B.data(ex, st, FakeCall([c.args[0]]))
        gset(st, 'pb', c.args[0].base)
        gset(st, 'po', c.args[0].off)
        return None

    def deliver(self, ex, st, c):
        ex.prove(st, 'framing/callback', ex.ptr_eq(c.args[0], self.cb))
        J, q = self.B.J, c.args[1]
        s = stl.get_str(ex, st, q)
        g = lambda k: gget(st, k)
        ex.prove(st, 'delivery/only-complete', band(eq(g('active'), 1), eq(g('hdr'), 1), eq(g('got'), g('L'))), 'an incomplete message is delivered')
        ex.prove(st, 'delivery/once', eq(g('dlv'), 0), 'a message is delivered twice')
        ex.prove(st, 'delivery/length', eq(stl.slen(ex, st, s), g('L')), 'the delivered message does not have the announced length')
        ex.prove(st, 'delivery/bytes', implies(lt(J, g('L')), eq(self.B.at(s, J), self.stream(g('sess'), J))), 'the delivered bytes are not those sent')
        gset(st, 'dlv', 1)
        ex.mark('delivered')
        return None

    def close(self, ex, st, c):
        g = lambda k: gget(st, k)
        fd = ex.as_int(c.args[0])
        if ex.decide(st, eq(g('active'), 0)):
            if ex.entails(st, eq(fd, g('pend'))):
                gset(st, 'pend', 0)
            return 0
        ex.prove(st, 'framing/same-connection', eq(fd, g('afd')), 'closes another connection')
        ex.prove(st, 'delivery/complete-delivered', implies(band(eq(g('hdr'), 1), eq(g('got'), g('L'))), eq(g('dlv'), 1)), 'a complete message is not delivered')
        gset(st, 'active', 0)
        return 0

    def inv(self, ex, entry, head, rec, fi, norm):
        g = gget
        J = self.B.J

        def buf(st):
            s = stl.get_str(ex, st, Ptr(g(st, 'pb'), g(st, 'po')))
            return implies(band(eq(g(st, 'active'), 1), eq(g(st, 'hdr'), 1)),
                           band(eq(stl.slen(ex, st, s), g(st, 'L')), implies(lt(J, g(st, 'got')), eq(self.B.at(s, J), self.stream(g(st, 'sess'), J)))))
        out = [('got-in-range', lambda st: band(le(0, g(st, 'got')), le(g(st, 'got'), g(st, 'L')))),
               ('not-ended', lambda st: eq(g(st, 'eof'), 0)), ('between', lambda st: eq(g(st, 'active'), 0)),
               ('nothing-pending', lambda st: eq(g(st, 'pend'), 0))]
        if not (isc(g(entry, 'pb')) and g(entry, 'pb') == 0):
            out.append(('received-so-far', buf))
        return out


class FakeCall:
    def __init__(self, args):
        self.args = args


def t_wait(t):
    R = Receiver(t)
    ex, st = R.ex, R.st
    ex.loop_hooks.append(R.inv)
    t.need('accepted', 'header', 'truncated', 'delivered')
    t.run(t.fn(RX + 'waitAndProcessConnections'), st, [R.this], lambda s, r: None)




UNINIT, INIT, RUN, WAIT, STOPPED = 0, 1, 2, 3, 4


class State:
    """the receiver's state, shared with the thread that stops it.  Rely: another thread may stop the receiver at any
    moment (by one atomic step from any state but uninitialised), and nothing else changes under the running thread.
    Guarantee: no step other than init leaves `Stopped`"""

    def __init__(self, t, role):
        self.t, self.ex, self.role = t, t.ex, role
        self.st = st = t.state()
        self.this = t.obj(st, 'this')
        st.ghost.update(cur=t.ex.fresh_int(st, 'state', 0, 4), steps=0, fd=0, fdok=0, ran=0, woken=0, first=0)
        st.ghost['first'] = st.ghost['cur']
        self.off = t.off(RX[:-2], 'state_')
        t.ex.atomic_hook = self.atom
        t.ex.loop_hooks.append(self.inv)
        t.ex.contracts['maf::messaging::Address::dump'] = lambda ex, st, c: stl.set_str(ex, st, c.args[0], ex.fresh_int(st, 'text', 0, 1 << 40))

    def inv(self, ex, entry, head, rec, fi, norm):
        g = gget
        out = [('state-range', lambda st: band(le(0, g(st, 'cur')), le(g(st, 'cur'), 4))),
               ('state-initialised', lambda st: eq(eq(g(st, 'cur'), UNINIT), eq(g(st, 'first'), UNINIT)))]
        for sl in rec.slots:
            def seen(st, k, sl=sl):
                v = sl.get(ex, st, fi)
                if isinstance(v, (Ptr, IterVal)) or v is None:
                    return False
                return eq(v, k)
            out.append(('seen-stop ' + sl.name, lambda st, f=seen: implies(f(st, STOPPED), eq(g(st, 'cur'), STOPPED))))
            out.append(('seen-uninit ' + sl.name, lambda st, f=seen: implies(f(st, UNINIT), eq(g(st, 'cur'), UNINIT))))
            out.append(('seen-range ' + sl.name, lambda st, sl=sl: le(sl.get(ex, st, fi), 4)))
        return out

    def rely(self, st):
        ex = self.ex
        n = ex.fresh_int(st, 'state', 0, 4)
        c = gget(st, 'cur')
        if self.role == 'runner':         # someone may call stop
            ex.assume(st, bor(eq(n, c), band(eq(n, STOPPED), bnot(eq(c, UNINIT)))))
        elif self.role == 'stopper':      # the runner moves between running and waiting; others may stop, too
            live = lambda x: bor(eq(x, RUN), eq(x, WAIT))
            ex.assume(st, bor(eq(n, c), band(eq(n, STOPPED), bnot(eq(c, UNINIT))), band(live(c), live(n)), band(eq(c, INIT), live(n))))
        else:
            ex.assume(st, eq(n, c))
        gset(st, 'cur', n)
        return n

    def atom(self, ex, st, kind, p, ty, v, mod):
        if not (isinstance(p, Ptr) and ex.entails(st, ex.ptr_eq(p, self.this.at(self.off)))):
            return None
        c = self.rely(st)
        if kind == 'load':
            return c
        if kind == 'store' or v[0] == 'xchg':
            n = v if kind == 'store' else v[1]
            self.step(st, c, n)
            return c
        if v[0] == 'cmpxchg':
            # a weak exchange may fail spuriously; both outcomes of a failure are covered by the case c != expected
            if ex.decide(st, eq(c, v[1])):
                self.step(st, c, v[2])
                return [c, True]
            return [c, False]
        ex.fail(st, 'state/transition', 'unexpected update of the state')
        raise PathEnd()

    def step(self, st, c, n):
        ex = self.ex
        if self.role != 'init':
            ex.prove(st, 'state/stop-is-final', implies(eq(c, STOPPED), eq(n, STOPPED)), 'a requested stop is forgotten')
            ex.prove(st, 'state/start-needs-init', implies(band(bor(eq(n, RUN), eq(n, WAIT)), bnot(eq(c, n))), bor(eq(c, INIT), eq(c, RUN), eq(c, WAIT))),
                     'runs without having been set up')
        gset(st, 'cur', n)


def t_check_stop(t):
    S = State(t, 'runner')
    ex, st = S.ex, S.st
    a, b = ex.fresh_int(st, 'expected', RUN, WAIT), ex.fresh_int(st, 'new', RUN, WAIT)
    ex.assume(st, bor(eq(gget(st, 'cur'), a), eq(gget(st, 'cur'), STOPPED)))

    def post(s, r):
        ex.prove(s, 'state/moves-on', bor(eq(gget(s, 'cur'), b), eq(gget(s, 'cur'), STOPPED)))
        ex.mark('goes-on')

    def thrown(s):
        ex.prove(s, 'state/interrupted-only-by-stop', eq(gget(s, 'cur'), STOPPED), 'interrupted although nobody stopped it')
        ex.mark('interrupted')
    t.need('goes-on', 'interrupted')
    # a stop requested before is noticed
    gset(st, 'first', gget(st, 'cur'))
    t.run(t.fn(RX + 'changeCurrentStateAndInterruptIfStop'), st, [S.this, a, b],
          lambda s, r: (ex.prove(s, 'state/stop-noticed', bnot(eq(gget(s, 'first'), STOPPED)), 'goes on after a stop request'), post(s, r)), unwind=lambda s, v: thrown(s))


def t_start(t):
    S = State(t, 'runner')
    ex, st = S.ex, S.st
    B = Bytes(t)
    fdp = S.this.at(t.off(RX[:-2], 'fdMySock_'))
    fd = ex.fresh_int(st, 'fd', 0, (1 << 31) - 1)
    ex.write(st, fdp, 'm', 4, fd)

    def loop(ex, st, c):
        ex.prove(st, 'state/running-in-loop', band(eq(gget(st, 'ran'), 0), bor(eq(gget(st, 'cur'), RUN), eq(gget(st, 'cur'), STOPPED))), 'the loop runs in the wrong state')
        ex.prove(st, 'state/runs-after-init', eq(gget(st, 'first'), INIT), 'runs without having been set up')
        gset(st, 'ran', 1)
        k = ex.choose(st, 3)
        if k == 0:
            return ite(ex.fresh_bool(st, 'r'), 1, 0)
        for m in ex.mods:
            for n in m.global_lines:
                if n.startswith('_ZTI') and 'StoppedInterruption' in n and k == 1:
                    ex.throw_state(st, n)
                    return '$throw'
        ex.throw_state(st, '_ZTISt9bad_alloc')
        return '$throw'

    def close(ex, st, c):
        ex.prove(st, 'descriptors/closed-once', band(eq(c.args[0], fd), eq(gget(st, 'fdok'), 0)), 'closes something else or twice')
        gset(st, 'fdok', 1)
        return 0
    ex.contracts[RX + 'waitAndProcessConnections'] = loop
    ex.contracts['close'] = close

    def post(s, r):
        ran = eq(gget(s, 'ran'), 1)
        ex.prove(s, 'state/runs-after-init', implies(ran, eq(gget(s, 'first'), INIT)), 'runs without having been set up')
        ex.prove(s, 'state/refuses', implies(bnot(ran), eq(ex.as_int(r), 0)), 'reports a run that did not happen')
        ex.prove(s, 'descriptors/listening-ends', implies(ran, eq(gget(s, 'fdok'), 1)), 'still accepts connections after the loop has ended')
        ex.prove(s, 'descriptors/owner-empty', implies(ran, eq(rdn(ex, s, fdp, 4), (1 << 32) - 1)))
        ex.mark('ran' if ex.decide(s, ran) else 'refused')
    t.need('ran', 'refused')
    t.run(t.fn(RX + 'start'), st, [S.this], post)


def t_stop(t):
    S = State(t, 'stopper')
    ex, st = S.ex, S.st
    B = Bytes(t)

    def wake(ex, st, c):
        nm = S.this.at(t.off(RX[:-2], 'myaddr_')).at(t.off('maf::messaging::Address', 'name_'))
        arg = c.args[1]
        ex.prove(st, 'state/wakes-itself', eq(stl.get_str(ex, st, arg), stl.get_str(ex, st, nm)), 'connects to somebody else')
        gset(st, 'woken', 1)
        ex.write(st, c.args[0], 'm', 4, (1 << 32) - 1)
        return None
    ex.contracts['maf::messaging::ipc::connectToSocket'] = wake

    def post(s, r):
        ex.prove(s, 'state/stopped', bor(eq(gget(s, 'first'), UNINIT), eq(gget(s, 'cur'), STOPPED)), 'a set-up receiver is not stopped')
        ex.prove(s, 'state/uninitialised-stays', implies(eq(gget(s, 'first'), UNINIT), eq(gget(s, 'cur'), UNINIT)))
        ex.mark('woken' if ex.decide(s, eq(gget(s, 'woken'), 1)) else 'not')
    t.need('woken', 'not')
    t.run(t.fn(RX + 'stop'), st, [S.this], post)


def t_init(t):
    S = State(t, 'init')
    ex = S.ex
    B = Bytes(t)
    st = S.st
    st.ghost['bufs'] = ()
    addr = t.obj(st, 'address')
    nm = addr.at(t.off('maf::messaging::Address', 'name_'))
    name = stl.get_str(ex, st, nm)
    fdp = S.this.at(t.off(RX[:-2], 'fdMySock_'))
    old = ex.fresh_int(st, 'oldfd', 0, (1 << 31) - 1)
    had = ex.fresh_bool(st, 'had')
    ex.write(st, fdp, 'm', 4, ite(had, old, (1 << 32) - 1))
    st.ghost.update(opened=0, bound=0, listening=0, closed_old=0, closed_new=0)

    def socket(ex, st, c):
        ex.prove(st, 'descriptors/one-socket', eq(gget(st, 'opened'), 0))
        if ex.decide(st, ex.fresh_bool(st, 'nosocket')):
            return (1 << 32) - 1
        f = ex.fresh_int(st, 'newfd', 0, (1 << 31) - 1)
        ex.assume(st, implies(had, bnot(eq(f, old))))
        gset(st, 'opened', add(f, 1))
        return f

    def usable(st, c, what):
        ex.prove(st, 'descriptors/open-when-used', band(lt(0, gget(st, 'opened')), eq(add(ex.as_int(c.args[0]), 1), gget(st, 'opened')), eq(gget(st, 'closed_new'), 0)), what + ' on something else than the new socket')

    def fails(st, what):
        return ex.decide(st, ex.fresh_bool(st, what))

    def setsockopt(ex, st, c):
        usable(st, c, 'setsockopt')
        return (1 << 32) - 1 if fails(st, 'optfails') else 0

    def bind(ex, st, c):
        usable(st, c, 'bind')
        ex.prove(st, 'address/own-name', eq(cname(ex, st, c.args[1]), name), 'the receiver is bound to another name than the one given')
        if fails(st, 'bindfails'):
            return (1 << 32) - 1
        gset(st, 'bound', 1)
        return 0

    def listen(ex, st, c):
        usable(st, c, 'listen')
        ex.prove(st, 'address/bound-before-listening', eq(gget(st, 'bound'), 1))
        if fails(st, 'listenfails'):
            return (1 << 32) - 1
        gset(st, 'listening', 1)
        return 0

    def close(ex, st, c):
        f = ex.as_int(c.args[0])
        if ex.decide(st, band(lt(0, gget(st, 'opened')), eq(add(f, 1), gget(st, 'opened')))):
            ex.prove(st, 'descriptors/closed-once', eq(gget(st, 'closed_new'), 0))
            gset(st, 'closed_new', 1)
        else:
            ex.prove(st, 'descriptors/closed-once', band(had, eq(f, old), eq(gget(st, 'closed_old'), 0)), 'closes something else or twice')
            gset(st, 'closed_old', 1)
        return 0
    ex.contracts.update(dict(socket=socket, setsockopt=setsockopt, bind=bind, listen=listen, close=close, strncpy=strncpy(B)))

    def post(s, r):
        g = lambda k: gget(s, k)
        ok = eq(ex.as_int(r), 1)
        up = band(eq(g('listening'), 1), eq(g('closed_new'), 0))
        ex.prove(s, 'setup/result', eq(ok, up), 'the reported result is not whether the receiver is listening')
        ex.prove(s, 'setup/startable', implies(ok, eq(g('cur'), INIT)), 'set up but not startable')
        ex.prove(s, 'setup/not-startable', implies(bnot(ok), eq(g('cur'), g('first'))), 'startable although it is not listening')
        ex.prove(s, 'setup/keeps-socket', implies(ok, eq(add(rdn(ex, s, fdp, 4), 1), g('opened'))), 'the listening socket is not kept')
        ex.prove(s, 'descriptors/no-leak', band(implies(band(lt(0, g('opened')), eq(g('closed_new'), 0)), eq(add(rdn(ex, s, fdp, 4), 1), g('opened'))),
                                                implies(band(had, eq(g('closed_old'), 0)), eq(rdn(ex, s, fdp, 4), old))), 'a descriptor is lost')
        ex.prove(s, 'setup/address', implies(ok, eq(stl.get_str(ex, s, S.this.at(t.off(RX[:-2], 'myaddr_')).at(t.off('maf::messaging::Address', 'name_'))), name)))
        ex.mark('up' if ex.decide(s, ok) else 'down')
    t.need('up', 'down')
    t.run(t.fn(RX + 'init'), st, [S.this, addr], post)


SENDER = [('send', t_send), ('send-to-address', t_send_addr), ('check-receiver', t_check)]
RECEIVER = [('receive', t_wait), ('check-stop', t_check_stop), ('start', t_start), ('stop', t_stop), ('init', t_init)]
TASKS = SENDER + RECEIVER

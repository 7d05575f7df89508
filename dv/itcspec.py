"""Contracts of the server and the client of one process (B01, B02): what the transport adds is a direct call."""
from basespec import *

ITC = N + 'itc::'
TUS = ['@base.cpp'] + [CSD + x for x in ('ServerBase.cpp', 'ClientBase.cpp', 'CSMessage.cpp', 'Address.cpp', 'itc/Client.cpp', 'itc/Server.cpp')]


class Itc(Base):
    def __init__(self, t, server):
        """server: the code of the server runs, the client is a stand-in; or the other way round"""
        Base.__init__(self, t, SB if server else CB)
        ex, st = self.ex, self.st
        self.peer = t.obj(st, 'peer')
        ctl = t.obj(st, 'peer ctl')
        stl.mark_alive(ex, st, ctl)
        self.others += [self.peer, ctl]
        vt = r'vtable for %s$' % ('TClient' if server else 'TServer')
        ex.write(st, self.peer, 'm', 8, signalspec.vtable(t, vt).at(16))
        ex.write(st, self.peer.at(8), 'm', 8, vtable2(t, vt))

        def make(ex, st, c):
            p = as_ptr(c.args[0])
            ex.write(st, p, 'm', 8, self.peer)
            ex.write(st, p.at(8), 'm', 8, ctl)
            gset(st, 'peers', gget(st, 'peers', 0) + 1)
        for k in ('itc::makeClient' if server else 'itc::makeServer', ('itc::Client' if server else 'itc::Server') + '::instance'):
            ex.contracts[N + k] = make
        for k in ('got', 'told'):
            gset(st, k + ' n', 0)
        other = CB if server else SB

        def incoming(ex, st, c):
            gset(st, 'got n', gget(st, 'got n') + 1)
            ex.prove(st, 'local/the-other-side', ex.ptr_eq(as_ptr(c.args[0]), self.peer))
            gset(st, 'got msg', rp(ex, st, as_ptr(c.args[1])))
            gset(st, 'got src', self.msg(st, gget(st, 'got msg'))['src'])
            r = ex.fresh_int(st, 'handled', 0, 1)
            gset(st, 'handled', r)
            ex.prove(st, 'parties/no-lock-while-a-message-is-handled', not st.locks)
            return eq(r, 1)
        ex.contracts[other + '::onIncomingMessage'] = incoming

        def told(ex, st, c):
            gset(st, 'told n', gget(st, 'told n') + 1)
            gset(st, 'told', (get_str(ex, st, as_ptr(c.args[1])), ex.as_int(c.args[2]), ex.as_int(c.args[3])))
            ex.prove(st, 'parties/no-lock-while-a-change-is-announced', not st.locks)
        ex.contracts[other + '::onServiceStatusChanged'] = ex.contracts['non-virtual thunk to %s::onServiceStatusChanged' % other] = told


def t_pass(server):
    def task(t):
        B = Itc(t, server)
        ex, st = B.ex, B.st
        f = t.fn(ITC + ('Server::sendMessageToClient' if server else 'Client::sendMessageToServer'), r'^maf')
        p, sp = B.new_message()
        m0 = B.msg(st, p)
        t.need('handled', 'refused')
        addr = t.obj(st, 'addr')

        def post(s, r):
            ex.prove(s, 'local/once', gget(s, 'got n') == 1, 'a message does not get exactly once to the other side')
            if gget(s, 'handled') is None:
                return
            m = B.msg(s, p)
            ex.prove(s, 'local/the-message', band(ex.ptr_eq(gget(s, 'got msg'), p), *[eq(m[k], m0[k]) for k in ('sid', 'op', 'id', 'code')], ex.ptr_eq(m['payload'], m0['payload'])), 'another message gets there')
            if not server:
                # a reply is found by where its request came from
                ex.prove(s, 'local/one-source', band(eq(gget(s, 'got src')[0], 0), eq(gget(s, 'got src')[1], 0)), 'requests of one client come from different sources')
            ok = ex.decide(s, eq(gget(s, 'handled'), 1))
            ex.mark('handled' if ok else 'refused')
            ex.prove(s, 'local/result', eq(ex.as_int(r), ST['Success'] if ok else ST['ReceiverUnavailable']), 'another result is reported')
        t.run(f, st, [B.this, sp] + ([addr] if server else []), post)
    return task


def t_tell(t):
    B = Itc(t, True)
    ex, st = B.ex, B.st
    f = t.fn(ITC + 'Server::notifyServiceStatusToClient', r'^maf')
    h, i = B.sidarg(st, B.X)
    old, new = ex.fresh_int(st, 'old', 0, 2), ex.fresh_int(st, 'new', 0, 2)
    t.need('told')

    def post(s, r):
        ex.mark('told')
        ex.prove(s, 'local/change-once', gget(s, 'told n') == 1, 'the client does not learn exactly once about a change')
        if gget(s, 'told') is not None:
            a, b, c = gget(s, 'told')
            ex.prove(s, 'local/the-change', band(eq(a, i), eq(b, old), eq(c, new)), 'another change is announced')
    t.run(f, st, [B.this, h, old, new], post)


def t_single(t):
    """there is one server and one client in the process: it is handed out each time"""
    for name, cls in (('makeServer', 'Server'), ('makeClient', 'Client')):
        B = Base(t, SB if cls == 'Server' else CB)
        ex, st = B.ex, B.st
        f = t.fn(ITC + name)
        t.need(name, 'first ' + name)
        out, out2 = Ptr(ex.fresh_base(st), 0), Ptr(ex.fresh_base(st), 0)

        def acquire(ex, st, c):
            k = ('guard', as_ptr(c.args[0]).base)
            n = gget(st, k, 0)
            gset(st, k, 1)
            gset(st, 'first use', 1)
            return 0 if n else 1
        ex.contracts['__cxa_guard_acquire'] = acquire
        ex.contracts['__cxa_guard_release'] = lambda ex, st, c: None
        ex.contracts['__cxa_atexit'] = lambda ex, st, c: 0

        def post(s, r, name=name, out=out, out2=out2):
            p = rp(ex, s, out)
            if gget(s, 'first use'):
                ex.mark('first ' + name)
                ex.prove(s, 'local/there-is-one', bnot(eq(p.base, 0)), 'there is no server or client')

            def again(s2, r2):
                ex.mark(name)
                ex.prove(s2, 'local/one-instance', ex.ptr_eq(rp(ex, s2, out2), p), 'another server or client is handed out')
            t.run(f, s, [out2], again, cover=name + ' again')
        t.run(f, st, [out], post, cover=name)


BTASKS = [('local: to server', t_pass(False)), ('local: to client', t_pass(True)), ('local: one instance', t_single)]
ATASKS = [('local: change', t_tell)]
TASKS_ALL = BTASKS + ATASKS

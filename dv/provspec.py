"""Contracts of services: C02 (requests), C01 (statuses and signals).

The parties on the other side (transport, handlers, listeners) are stand-ins that obey contracts: the transport may
answer anything; code of the user (handlers, callbacks) is arbitrary and must be called with no lock held."""
from spec import *
from stl import as_ptr, get_str, set_str
import signalspec, re

CSD = 'src/common/maf/messaging/client-server/'
TUS = ['@service.cpp'] + [CSD + x for x in ('ServiceProvider.cpp', 'Request.cpp', 'CSMessage.cpp', 'CSError.cpp', 'Address.cpp')]
N = 'maf::messaging::'
SP = N + 'ServiceProvider'
RQ = N + 'Request'
MSG = N + 'CSMessage'
ADR = N + 'Address'
OPC = {'StatusRegister': 0, 'SignalRegister': 1, 'Unregister': 2, 'StatusGet': 3, 'Request': 4, 'PartialRequestUpdate': 5, 'Abort': 6,
       'RegisterServiceStatus': 7, 'UnregisterServiceStatus': 8, 'ServiceStatusUpdate': 9, 'Invalid': 10}
ST = {'Success': 0, 'InvalidCall': 1, 'InvalidParam': 2, 'ServiceUnavailable': 3, 'ReceiverBusy': 4, 'ReceiverUnavailable': 5, 'Timeout': 6,
      'NoAction': 7, 'ActionBroken': 8, 'FailedUnknown': 9}


def rd(ex, st, p, size=8):
    return ex.read_int(st, p, size)


def rp(ex, st, p):
    return as_ptr(ex.read(st, p, 'm', 8, ex.init_ptr))


def vtable2(t, pat):
    """the table of the second base class"""
    for m in t.prog.mods:
        for g in m.global_lines:
            if g.startswith('_ZTV') and re.search(pat, m.demangle(g)):
                k = re.search(r'\{ \[(\d+) x ', m.global_lines[g])
                return t.ex.global_ptr(g, m).at((int(k.group(1)) + 2) * 8)
    raise Unsupported('vtable of ' + pat)


class Msgs:
    """reading and making messages"""

    def __init__(self, t):
        self.t, self.ex = t, t.ex
        o = t.off
        self.m = {k: o(MSG, k + '_') for k in ('serviceID', 'operationID', 'requestID', 'operationCode', 'payload', 'sourceAddress')}
        self.an, self.ap = o(ADR, 'name_'), o(ADR, 'port_')
        kr = self.ex.gfld.setdefault('keyreaders', {})
        kr[ADR] = self.addr
        for nm in ('%sAddress::dump' % N,):
            self.ex.contracts[nm] = self.dump

    def dump(self, ex, st, c):
        set_str(ex, st, c.args[0], ex.fresh_int(st, 'dump', 0, (1 << 48) - 1))
        return None

    def addr(self, ex, st, p):
        return (get_str(ex, st, p.at(self.an)), rd(ex, st, p.at(self.ap), 2))

    def msg(self, st, p):
        """what a message says"""
        ex, m = self.ex, self.m
        return dict(sid=get_str(ex, st, p.at(m['serviceID'])), op=get_str(ex, st, p.at(m['operationID'])), id=rd(ex, st, p.at(m['requestID'])),
                    code=rd(ex, st, p.at(m['operationCode']), 1), payload=rp(ex, st, p.at(m['payload'])), src=self.addr(ex, st, p.at(m['sourceAddress'])))

    def new(self, st, name='msg', code=None):
        """an existing message, and a shared pointer to it"""
        ex, t = self.ex, self.t
        p, ctl, sp = t.obj(st, name), t.obj(st, name + 'ctl'), t.obj(st, name + 'ptr')
        ex.write(st, sp, 'm', 8, p)
        ex.write(st, sp.at(8), 'm', 8, ctl)
        stl.mark_alive(ex, st, ctl)
        ex.write(st, p, 'm', 8, signalspec.vtable(t, r'vtable for maf::messaging::CSMessage$').at(16))
        if code is not None:
            ex.write(st, p.at(self.m['operationCode']), 'm', 1, OPC[code])
        pl, pc = t.obj(st, name + 'payload'), t.obj(st, name + 'payloadctl')
        stl.mark_alive(ex, st, pc)
        return p, sp


def same(a, b):
    """two tuples of terms are equal"""
    return band(*[eq(x, y) for x, y in zip(a, b)])


class Req(Msgs):
    """one request object in an arbitrary state, made by a client's message, belonging to an arbitrary service"""

    def __init__(self, t):
        Msgs.__init__(self, t)
        ex = self.ex
        self.st = st = t.state()
        self.f = {k: t.off(RQ, k) for k in ('_csMsg', '_svStub', '_abortCallback', '_mutex', '_valid')}
        self.this = t.obj(st, 'request')
        self.p, self.sp = self.new(st, 'reqmsg')
        ex.copy_region(st, self.this.at(self.f['_csMsg']), self.sp, 16)
        v = rd(ex, st, self.this.at(self.f['_valid']), 1)
        ex.assume(st, bor(eq(v, 0), eq(v, 1)))
        # the service, possibly gone
        self.pr, self.prctl = t.obj(st, 'provider'), t.obj(st, 'providerctl')
        ex.write(st, self.pr, 'm', 8, signalspec.vtable(t, r'vtable for PrMock$').at(16))
        ex.write(st, self.this.at(self.f['_svStub']), 'm', 8, self.pr)
        ex.write(st, self.this.at(self.f['_svStub']).at(8), 'm', 8, self.prctl)
        ex.contracts['PrMock::respondToRequest'] = self.respond
        ex.hooks['weak_lock'] = self.weak_lock
        ex.hooks['lock'] = self.lock
        ex.icall_hook = self.icall
        self.m0 = self.msg(st, self.p)
        gset(st, 'answers', 0)
        gset(st, 'alive', None)
        self.seen = set()

    def valid(self, st):
        return bnot(eq(rd(self.ex, st, self.this.at(self.f['_valid']), 1), 0))

    def has_cb(self, st):
        return bnot(eq(rd(self.ex, st, self.this.at(self.f['_abortCallback']).at(16)), 0))

    def lock(self, ex, st, p):
        e = ex.ptr_eq(p, self.this.at(self.f['_mutex']))
        if e is True or ex.entails(st, e):
            n = gget(st, 'locks', 0)
            if n:
                # other threads were here: a request may have become invalid (never valid again)
                v0 = self.valid(st)
                v = ex.fresh_int(st, 'valid', 0, 1)
                ex.assume(st, implies(eq(v, 1), v0))
                ex.write(st, self.this.at(self.f['_valid']), 'm', 1, v)
            else:
                gset(st, 'valid@lock', self.valid(st))
            gset(st, 'locks', n + 1)

    def unlock(self, ex, st, p):
        pass

    def weak_lock(self, ex, st, v):
        if ex.ptr_eq(as_ptr(v), self.prctl) is True:
            r = ex.choose(st, 2) == 0
            gset(st, 'alive', r)
            return r
        return None

    def respond(self, ex, st, c):
        """the service's respondToRequest (its own contract is proved separately)"""
        ex.prove(st, 'request/no-lock-while-answering', not st.locks, 'the service is called while a lock is held')
        q = rp(ex, st, c.args[1])
        gadd(st, 'answers')
        gset(st, 'answer', self.msg(st, q))
        gset(st, 'answerptr', q)
        r = ex.fresh_int(st, 'status', 0, 9)
        gset(st, 'result', r)
        return r

    def icall(self, ex, st, p, args, ins):
        ex.prove(st, 'request/no-lock-while-calling-back', not st.locks, 'an abort callback is called while a lock is held')
        gadd(st, 'calls')
        return None


def t_reply(meth, code):
    def task(t):
        R = Req(t)
        ex, st = R.ex, R.st
        f = t.fn(RQ + '::' + meth)
        pl = t.obj(st, 'answer')
        pp = rp(ex, st, pl)
        args = [R.this, pl] + ([OPC[code]] if meth == 'reply' else [])
        t.need('answered', 'refused', 'service gone')

        def post(s, r):
            v = gget(s, 'valid@lock')
            n = gget(s, 'answers')
            ex.prove(s, 'request/answer-once', le(n, 1), 'one call gives more than one answer')
            if not ex.decide(s, v):
                ex.mark('refused')
                ex.prove(s, 'request/finished-cannot-answer', n == 0, 'a request that is over is answered')
                ex.prove(s, 'request/finished-reported', eq(r, ST['InvalidCall']), 'answering a finished request is not reported')
                return
            if gget(s, 'alive') is not True:
                ex.mark('service gone')
                ex.prove(s, 'request/service-gone-reported', n == 0 and eq(r, ST['ReceiverUnavailable']), 'no service to answer for, but not reported')
                return
            ex.mark('answered')
            ex.prove(s, 'request/answered', n == 1, 'the answer is not passed on')
            if n == 1:
                a = gget(s, 'answer')
                m = R.m0
                ex.prove(s, 'request/answer-goes-to-its-client', band(eq(a['sid'], m['sid']), eq(a['op'], m['op']), eq(a['id'], m['id']), same(a['src'], m['src'])),
                         'the answer does not identify the request')
                ex.prove(s, 'request/answer-kind', eq(a['code'], OPC[code]), 'wrong kind of answer')
                ex.prove(s, 'request/answer-contents', ex.ptr_eq(a['payload'], pp), 'the answer does not hold the given contents')
                ex.prove(s, 'request/result-passed-on', eq(r, gget(s, 'result')), 'the result of sending is not passed on')
                ex.prove(s, 'request/input-kept', band(*[eq(R.msg(s, R.p)[k], m[k]) for k in ('op', 'id', 'code')]) if ex.ptr_eq(gget(s, 'answerptr'), R.p) is not True else False,
                         'answering changes the stored request')
            ex.prove(s, 'request/locks-released', not s.locks)
        t.run(f, st, args, post)
    return task


def t_invalidate(t):
    R = Req(t)
    ex, st = R.ex, R.st
    f = t.fn(RQ + '::invalidate')
    t.need('was valid', 'was not')

    def post(s, r):
        ex.prove(s, 'request/invalid-afterwards', bnot(R.valid(s)), 'request still valid')
        v = gget(s, 'valid@lock')
        ex.prove(s, 'request/invalidate-reports', eq(ex.to_bool(r), v), 'does not tell whether the request was valid')
        ex.mark('was valid' if ex.decide(s, v) else 'was not')
        ex.prove(s, 'request/locks-released', not s.locks)
    t.run(f, st, [R.this], post)


def t_onaborted(t):
    R = Req(t)
    ex, st = R.ex, R.st
    f = t.fn(RQ + '::onAborted')
    cb = t.obj(st, 'callback')
    mgr, inv = rd(ex, st, cb.at(16)), rd(ex, st, cb.at(24))
    ex.assume(st, bnot(eq(mgr, 0)))
    t.need('kept', 'called')

    def post(s, r):
        n = gget(s, 'calls', 0)
        k = R.this.at(R.f['_abortCallback'])
        if ex.decide(s, gget(s, 'valid@lock')):
            ex.mark('kept')
            ex.prove(s, 'request/abort-callback-kept', band(n == 0, eq(rd(ex, s, k.at(24)), inv), eq(rd(ex, s, k.at(16)), mgr)), 'the abort callback is lost, or called though not aborted')
        else:
            ex.mark('called')
            ex.prove(s, 'request/late-abort-callback-called', n == 1, 'the abort callback of an aborted request is not called once')
        ex.prove(s, 'request/locks-released', not s.locks)
    t.run(f, st, [R.this, cb], post)


def t_getters(t):
    R = Req(t)
    ex = R.ex
    for meth, key in (('getOperationCode', 'code'), ('getOperationID', 'op'), ('getRequestID', 'id'), ('getInput', 'payload'), ('valid', 'valid')):
        f = t.fn(RQ + '::' + meth)
        st = R.st.clone()
        out = Ptr(ex.fresh_base(st), 0)

        def post(s, r, key=key, out=out):
            want = R.m0.get(key)
            if key == 'payload':
                ok = ex.ptr_eq(rp(ex, s, out), want)
            elif key == 'op':
                ok = eq(get_str(ex, s, as_ptr(r)), want)
            elif key == 'valid':
                ok = eq(ex.to_bool(r), gget(s, 'valid@lock'))
            else:
                ok = eq(r, want)
            ex.prove(s, 'request/tells-' + key, ok, '%s of the request is not what its client sent' % key)
            ex.prove(s, 'request/locks-released', not s.locks)
        t.run(f, st, ([out] if key == 'payload' else []) + [R.this], post)


class Prov(Msgs):
    """a service provider in an arbitrary state"""

    def __init__(self, t):
        Msgs.__init__(self, t)
        ex = self.ex
        ex.gfld['same_region'] = True
        install_opaque(ex)
        self.st = st = t.state()
        self.this = t.obj(st, 'provider')
        ex.write(st, self.this, 'm', 8, signalspec.vtable(t, r'vtable for maf::messaging::ServiceProvider$').at(16))
        self.mtx, self.map = {}, {}
        for k in ('regEntriesMap_', 'requestsMap_', 'propertyMap_', 'serverSideListenersMap_', 'requestHandlerMap_'):
            self.mtx[k] = self.this.at(t.off(SP, k + '._mutex'))
            self.map[k] = self.this.at(t.off(SP, k + '._protected'))
        self.sid = self.this.at(t.off(SP, 'sid_'))
        self.avail = self.this.at(t.off(SP, 'availability_'))
        srv = self.this.at(t.off(SP, 'server_'))
        self.sv, self.svctl = t.obj(st, 'server'), t.obj(st, 'serverctl')
        ex.write(st, self.sv, 'm', 8, signalspec.vtable(t, r'vtable for SvMock$').at(16))
        ex.write(st, self.sv.at(8), 'm', 8, vtable2(t, r'vtable for SvMock$'))
        ex.write(st, srv, 'm', 8, self.sv)
        ex.write(st, srv.at(8), 'm', 8, self.svctl)
        self.rf = {k: t.off(RQ, k) for k in ('_csMsg', '_svStub', '_abortCallback', '_mutex', '_valid')}
        ex.contracts['SvMock::sendMessageToClient'] = self.send
        ex.contracts['SvMock::onServiceStatusChanged'] = self.told
        ex.hooks['weak_lock'] = self.weak_lock
        ex.hooks['lock'] = self.lock
        ex.hooks['seq_init'] = self.seq_init
        ex.hooks['seq_node'] = self.seq_node
        ex.hooks['erased'] = self.erased
        ex.hooks['pushed'] = self.pushed
        ex.hooks['prestore'] = self.prestore
        ex.icall_hook = self.icall
        self.kinds = {}
        vt = signalspec.vtable(t, r'vtable for maf::messaging::Request$').at(16)
        ex.hooks['vptr'] = lambda ex, st, b: vt if self.kinds.get(b.get_id()) == 1 else None
        gset(st, 'sent', 0)
        gset(st, 'calls', 0)
        for k in self.map:
            self.mapof(st, k)

    def kr(self, k):
        if k == 'regEntriesMap_':
            return self.addr
        return lambda ex, st, p: (get_str(ex, st, p),)

    def mapof(self, st, k):
        return stl.get_seq(self.ex, st, self.map[k], self.kr(k))

    def voff(self, k):
        return 40 if k == 'regEntriesMap_' else 32

    def listof(self, st, nd):
        return stl.get_seq(self.ex, st, Ptr(nd, 32))

    # -- environment
    def lock(self, ex, st, p):
        for k, m in self.mtx.items():
            if eq(p.base, m.base) is True and eq(p.off, m.off) is True:
                n = gget(st, 'locked ' + k, 0)
                if n:
                    # other threads were here
                    stl.set_seq(ex, st, self.map[k], stl.SeqInit(ex, st, self.kr(k)))
                gset(st, 'locked ' + k, 1)
                h = getattr(self, 'locked_' + k, None)
                if h:
                    h(st, n)
                return

    def weak_lock(self, ex, st, v):
        v = as_ptr(v)
        if ex.ptr_eq(v, self.svctl) is True:
            r = ex.choose(st, 2) == 0
            gset(st, 'server', 1 if r else 0)
            return r
        return None

    def nolock(self, ex, st, what):
        ex.prove(st, 'service/no-lock-while-' + what, not st.locks, 'foreign code runs while a lock of the service is held')

    def told(self, ex, st, c):
        self.nolock(ex, st, 'announcing')
        gadd(st, 'told')
        gset(st, 'told old', c.args[2])
        gset(st, 'told new', c.args[3])
        gset(st, 'told sid', get_str(ex, st, c.args[1]))
        return None

    def send(self, ex, st, c):
        """the transport: takes the message or not"""
        self.nolock(ex, st, 'sending')
        ex.prove(st, 'service/sends-to-its-server', ex.ptr_eq(c.args[0], self.sv))
        q = rp(ex, st, c.args[1])
        r = ex.fresh_int(st, 'sendstatus', 0, 9)
        self.sent(st, q, self.addr(ex, st, c.args[2]), r)
        return r

    def sent(self, st, q, to, r):
        ex = self.ex
        gadd(st, 'sent')
        gset(st, 'sent msg', q)
        for k, v in self.msg(st, q).items():
            if k == 'src':
                gset(st, 'sent src n', v[0])
                gset(st, 'sent src p', v[1])
            else:
                gset(st, 'sent ' + k, v)
        gset(st, 'sent to n', to[0])
        gset(st, 'sent to p', to[1])
        gset(st, 'sent result', r)

    def icall(self, ex, st, p, args, ins):
        """a function object of the user: a request handler or an abort callback"""
        self.nolock(ex, st, 'calling-back')
        gadd(st, 'calls')
        gset(st, 'called', p)
        gset(st, 'called fn', args[0])
        gset(st, 'called arg', rp(ex, st, args[1]) if len(args) > 1 and isinstance(args[1], Ptr) else None)
        h = getattr(self, 'on_call', None)
        if h:
            h(st, p, args)
        return None

    # -- requests
    def seq_init(self, ex, st, p, S, ep):
        if isc(p.off) and p.off == 32 and not isc(p.base):
            S.tag = 'requests'
        S.ep = ep

    def seq_node(self, ex, st, S, i, nd):
        if stl.seqtag(S) == 'requests':
            self.request(ex, st, S, i, nd)

    def request(self, ex, st, S, i, nd):
        """table invariant: every entry is a live request, entered once"""
        q = rp(ex, st, Ptr(nd, 0)).base
        qc = rp(ex, st, Ptr(nd, 8)).base
        if isc(q):
            return
        self.kinds[q.get_id()] = 1
        term.KEEP.append(q)
        ex.assume(st, band(q != 0, uf('KIND')(q) == 1, uf('KIND')(qc) == 3, qc != 0, uf('RQIX')(q) == (z3.IntVal(i) if isc(i) else i),
                           uf('RQL')(q) == stl.uid_num(S.uid.split('@')[-1]), *[q != o for o in st.ghost.get(('objs',), ())]))
        m = rp(ex, st, Ptr(q, self.rf['_csMsg'])).base
        ex.assume(st, band(m != 0, uf('KIND')(m) == 2, *[m != o for o in st.ghost.get(('objs',), ())]))
        v = rd(ex, st, Ptr(q, self.rf['_valid']), 1)
        ex.assume(st, bor(eq(v, 0), eq(v, 1)))

    def reqof(self, st, nd):
        return rp(self.ex, st, Ptr(nd, 0))

    def reqmsg(self, st, q):
        return self.msg(st, rp(self.ex, st, q.at(self.rf['_csMsg'])))

    def rvalid(self, st, q):
        return bnot(eq(rd(self.ex, st, q.at(self.rf['_valid']), 1), 0))

    def matches(self, st, q, m):
        """q is the request that message m (an answer or an abort) belongs to"""
        a = self.reqmsg(st, q)
        return band(eq(a['id'], m['id']), same(a['src'], m['src']))

    def erased(self, *a):
        pass

    def pushed(self, ex, st, this, base):
        pass

    def prestore(self, ex, st, p, size, v):
        pass


class Table(Prov):
    """the table of pending requests when a message about one of them arrives; one arbitrary entry x is tracked"""

    def __init__(self, t, code=None):
        Prov.__init__(self, t)
        ex, st = self.ex, self.st
        self.p, self.sp = self.new(st, 'msg', code)
        self.m0 = self.msg(st, self.p)
        ex.loop_hooks.append(self.inv)

    def locked_requestsMap_(self, st, n):
        """snapshot at the time the table is examined"""
        ex = self.ex
        M = self.mapof(st, 'requestsMap_')
        k = (self.m0['op'],)
        gset(st, 'exam', gget(st, 'exam', 0) + 1)
        gset(st, 'M0', M)
        if not ex.decide(st, M.contains(ex, st, k)):
            gset(st, 'S0', None)
            return
        S = self.listof(st, M.node(ex, st, M.pos(ex, st, k)))
        gset(st, 'S0', S)
        ix = ex.fresh_int(st, 'x', 0, 1 << 47)
        ex.assume(st, lt(ix, S.n))
        gset(st, 'ix', ix)
        nx = S.node(ex, st, ix)
        q = self.reqof(st, nx)
        gset(st, 'nx', nx)
        gset(st, 'qx', q)
        gset(st, 'validx', self.rvalid(st, q))
        gset(st, 'cbx', bnot(eq(rd(ex, st, q.at(self.rf['_abortCallback']).at(16)), 0)))

    def inv(self, ex, entry, head, rec, fi, norm):
        if gget(entry, 'S0') is None:
            return []
        out = []
        for sl in signalspec.iters(ex, head, rec, fi, None):
            def c(st, sl=sl):
                i = stl.iter_idx(ex, st, sl.get(ex, st, fi))
                return implies(lt(gget(st, 'ix'), i), bnot(self.matches(st, gget(st, 'qx'), self.m0)))
            out.append(('not-before:' + sl.name, c))
        return out

    def erased(self, ex, st, cont, nd):
        if eq(cont.off, 32) is not True:
            return
        ex.prove(st, 'request/removed-one', gget(st, 'er') is None, 'more than one request is taken out of the table')
        ex.prove(st, 'request/table-locked', bool(st.locks), 'the table is changed without its lock')
        q = self.reqof(st, Ptr(nd, 0).base)
        gset(st, 'er', Ptr(nd, 0).base)
        gset(st, 'qe', q)
        f = q.at(self.rf['_abortCallback'])
        gset(st, 'cbe', bnot(eq(rd(ex, st, f.at(16)), 0)))
        gset(st, 'cbfn', rd(ex, st, f.at(24)))
        ex.prove(st, 'request/removes-the-right-one', self.matches(st, q, self.m0), 'a request of another client, or with another id, is taken out')

    def it_deref(self, ex, st, cont, S, i, nd):
        if S is gget(st, 'S0'):
            gset(st, 'last', nd)

    def on_call(self, st, p, args):
        ex = self.ex
        if gget(st, 'er') is None:
            ex.fail(st, 'request/callback-of-the-aborted-request', 'a callback is called though no request was aborted')
            return
        ex.prove(st, 'request/callback-of-the-aborted-request', eq(ex.as_int(p), gget(st, 'cbfn')), 'the callback called is not the one of the aborted request')
        ex.prove(st, 'request/invalid-before-callback', bnot(self.rvalid(st, gget(st, 'qe'))), 'the request is still valid while its abort callback runs')

    def check(self, s, final):
        """the other entries are left alone, the right one is taken (final), and exactly that one"""
        ex = self.ex
        ex.prove(s, 'service/locks-released', not s.locks)
        S0, er = gget(s, 'S0'), gget(s, 'er')
        ex.prove(s, 'request/table-examined', eq(gget(s, 'exam', 0), 1), 'the table is not examined exactly once, under its lock')
        if S0 is None:
            ex.mark('none of this operation')
            ex.prove(s, 'request/nothing-removed', er is None)
            return None
        M = self.mapof(s, 'requestsMap_')
        k = (self.m0['op'],)
        kept = False
        if ex.decide(s, M.contains(ex, s, k)):
            S1 = self.listof(s, M.node(ex, s, M.pos(ex, s, k)))
            kept = signalspec.where(S1, S0, gget(s, 'ix'))[0]
        nx, qx = gget(s, 'nx'), gget(s, 'qx')
        mine = self.matches(s, qx, self.m0)
        if er is None or not final:
            ex.prove(s, 'request/others-kept', band(kept, eq(self.rvalid(s, qx), gget(s, 'validx'))), 'a request that is not over is taken out of the table or invalidated')
        if er is None:
            if final:
                ex.prove(s, 'request/found', bnot(mine), 'a pending request is not found')
            return None
        if ex.decide(s, eq(er, nx)):
            ex.mark('this one')
            ex.prove(s, 'request/over', band(bnot(kept), bnot(self.rvalid(s, qx))), 'a request that is over is still in the table, or still valid')
        else:
            ex.mark('another one')
            ex.prove(s, 'request/others-kept', band(kept, eq(self.rvalid(s, qx), gget(s, 'validx'))), 'a request that is not over is taken out of the table or invalidated')
        return er


def answered(R, s, r):
    """the answer went to the client that asked, once"""
    ex = R.ex
    if gget(s, 'server') == 1:
        ex.prove(s, 'request/answer-sent-once', eq(gget(s, 'sent'), 1), 'the answer is not sent exactly once')
        if eq(gget(s, 'sent'), 1) is True:
            m = R.m0
            ex.prove(s, 'request/answer-sent-as-is', band(ex.ptr_eq(gget(s, 'sent msg'), R.p), eq(gget(s, 'sent op'), m['op']), eq(gget(s, 'sent id'), m['id']), eq(gget(s, 'sent code'), m['code']),
                                                          ex.ptr_eq(gget(s, 'sent payload'), m['payload'])), 'something else than the answer is sent')
            ex.prove(s, 'request/answer-to-its-client', same((gget(s, 'sent to n'), gget(s, 'sent to p')), m['src']), 'the answer is sent to somebody else')
            ex.prove(s, 'request/send-result', eq(r, gget(s, 'sent result')), 'the result of sending is not reported')
    else:
        ex.prove(s, 'request/no-server-reported', eq(r, ST['ReceiverUnavailable']), 'the answer cannot be sent, but this is not reported')


def t_respond(code):
    def task(t):
        R = Table(t, code)
        ex, st = R.ex, R.st
        ex.hooks['it_deref'] = R.it_deref
        f = t.fn(SP + '::respondToRequest')
        final = code != 'PartialRequestUpdate'
        t.need('answered', 'not pending', 'none of this operation')
        if final:
            t.need('this one', 'another one')

        def post(s, r):
            er = R.check(s, final)
            sent = gget(s, 'server') is not None
            if final:
                ex.prove(s, 'request/answered-iff-pending', sent == (er is not None), 'an answer is sent without a pending request, or not sent for a pending one')
            elif gget(s, 'S0') is not None:
                ex.prove(s, 'request/update-keeps-request', er is None, 'a request is over after an update')
                if sent:
                    last = gget(s, 'last')
                    ex.prove(s, 'request/answered-iff-pending', last is not None and R.matches(s, R.reqof(s, last), R.m0), 'an update is sent without a pending request')
                else:
                    ex.prove(s, 'request/answered-iff-pending', bnot(R.matches(s, gget(s, 'qx'), R.m0)), 'an update for a pending request is not sent')
            else:
                ex.prove(s, 'request/answered-iff-pending', not sent, 'an answer is sent without a pending request')
            ex.prove(s, 'request/no-callback', eq(gget(s, 'calls'), 0))
            if sent:
                ex.mark('answered')
                answered(R, s, r)
            else:
                ex.mark('not pending')
                ex.prove(s, 'request/not-pending-reported', band(eq(gget(s, 'sent'), 0), bnot(eq(r, ST['Success']))), 'answering a request that is not pending looks successful')
        t.run(f, st, [R.this, R.sp], post)
    return task


def t_abort(t):
    R = Table(t, 'Abort')
    ex, st = R.ex, R.st
    f = t.fn(SP + '::onIncomingMessage')
    t.need('none of this operation', 'this one', 'another one', 'told', 'no callback')

    def post(s, r):
        er = R.check(s, True)
        ex.prove(s, 'service/handled', ex.to_bool(r), 'the message is not handled')
        ex.prove(s, 'request/abort-sends-nothing', eq(gget(s, 'sent'), 0), 'aborting sends a message')
        if er is None:
            ex.prove(s, 'request/no-callback', eq(gget(s, 'calls'), 0))
        else:
            cb = ex.decide(s, gget(s, 'cbe'))
            ex.mark('told' if cb else 'no callback')
            ex.prove(s, 'request/abort-callback-once', eq(gget(s, 'calls'), 1 if cb else 0), 'the abort callback is not called exactly once')
    t.run(f, st, [R.this, R.sp], post)


class Incoming(Prov):
    """a request message arrives"""

    def __init__(self, t):
        Prov.__init__(self, t)
        self.p, self.sp = self.new(self.st, 'msg', 'Request')
        self.m0 = self.msg(self.st, self.p)

    def locked_requestHandlerMap_(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'requestHandlerMap_')
        k = (self.m0['op'],)
        h = None
        if ex.decide(st, M.contains(ex, st, k)):
            h = Ptr(M.node(ex, st, M.pos(ex, st, k)), 32)
            # a registered handler is not empty (registerRequestHandler)
            ex.assume(st, bnot(eq(rd(ex, st, h.at(16)), 0)))
            h = rd(ex, st, h.at(24))
        gset(st, 'handler', h)

    def pushed(self, ex, st, this, base):
        if eq(this.off, 32) is not True:
            return
        M = self.mapof(st, 'requestsMap_')
        k = (self.m0['op'],)
        q = self.reqof(st, base)
        ex.prove(st, 'request/table-locked', bool(st.locks), 'the table is changed without its lock')
        ex.prove(st, 'request/stored-under-its-operation', band(M.contains(ex, st, k), eq(this.base, M.node(ex, st, M.pos(ex, st, k)))), 'the request is stored where it will not be found')
        ex.prove(st, 'request/stored-message', ex.ptr_eq(rp(ex, st, q.at(self.rf['_csMsg'])), self.p), 'the stored request does not belong to the message')
        ex.prove(st, 'request/stored-valid', self.rvalid(st, q), 'the stored request is not valid')
        gadd(st, 'stored')
        gset(st, 'stored req', q)

    def on_call(self, st, p, args):
        ex = self.ex
        ex.prove(st, 'request/stored-before-handled', eq(gget(st, 'stored', 0), 1), 'the handler runs before the request is stored, so it cannot answer')
        ex.prove(st, 'request/handler-of-the-operation', gget(st, 'handler') is not None and eq(ex.as_int(p), gget(st, 'handler')), 'the wrong handler is called')
        a = gget(st, 'called arg')
        ex.prove(st, 'request/handler-gets-the-request', a is not None and gget(st, 'stored req') is not None and ex.ptr_eq(a, gget(st, 'stored req')), 'the handler does not get the stored request')


def t_request(t):
    R = Incoming(t)
    ex, st = R.ex, R.st
    f = t.fn(SP + '::onIncomingMessage')
    t.need('handled', 'no handler')

    def post(s, r):
        ex.prove(s, 'service/locks-released', not s.locks)
        ex.prove(s, 'service/handled', ex.to_bool(r), 'the message is not handled')
        if gget(s, 'handler') is not None:
            ex.mark('handled')
            ex.prove(s, 'request/handled-once', eq(gget(s, 'calls'), 1), 'the handler is not called exactly once')
            ex.prove(s, 'request/nothing-sent-yet', eq(gget(s, 'sent'), 0), 'a message is sent although the handler decides on the answer')
            return
        ex.mark('no handler')
        ex.prove(s, 'request/handled-once', eq(gget(s, 'calls'), 0))
        ex.prove(s, 'request/not-stored', eq(gget(s, 'stored', 0), 0), 'a request nobody handles is kept pending')
        if gget(s, 'server') == 1:
            m = R.m0
            ex.prove(s, 'request/error-sent', eq(gget(s, 'sent'), 1), 'the client of a request nobody handles is not answered')
            if eq(gget(s, 'sent'), 1) is True:
                ex.prove(s, 'request/error-to-its-client', band(same((gget(s, 'sent to n'), gget(s, 'sent to p')), m['src']), eq(gget(s, 'sent op'), m['op']), eq(gget(s, 'sent id'), m['id']),
                                                                eq(gget(s, 'sent code'), m['code'])), 'the error does not answer the request')
                pl = gget(s, 'sent payload')
                er = N + 'CSError'
                ok = ex.ptr_eq(rp(ex, s, pl), signalspec.vtable(t, r'vtable for maf::messaging::CSError$').at(16))
                ex.prove(s, 'request/error-contents', ok, 'the answer holds no error')
    t.run(f, st, [R.this, R.sp], post)


def t_unhandled(t):
    """messages that are not for a service are refused and change nothing"""
    R = Prov(t)
    ex, st = R.ex, R.st
    p, sp = R.new(st, 'msg')
    c = rd(ex, st, p.at(R.m['operationCode']), 1)
    ex.assume(st, band(*[bnot(eq(c, OPC[k])) for k in ('StatusRegister', 'SignalRegister', 'Unregister', 'UnregisterServiceStatus', 'Request', 'StatusGet', 'Abort')]))
    maps = {k: R.mapof(st, k) for k in R.map}
    f = t.fn(SP + '::onIncomingMessage')

    def post(s, r):
        ex.prove(s, 'service/unknown-refused', bnot(ex.to_bool(r)), 'a message that means nothing to a service is reported as handled')
        ex.prove(s, 'service/unknown-changes-nothing', all(R.mapof(s, k) is maps[k] for k in maps) and gget(s, 'sent') == 0 and gget(s, 'calls') == 0)
    t.run(f, st, [R.this, sp], post)


def t_handlers(meth):
    def task(t):
        R = Prov(t)
        ex, st = R.ex, R.st
        f = t.fn(SP + '::' + meth)
        op = t.obj(st, 'op')
        k = (get_str(ex, st, op),)
        M0 = R.mapof(st, 'requestHandlerMap_')
        args = [R.this, op]
        other = ex.fresh_int(st, 'otherop', 0, (1 << 48) - 1)
        ex.assume(st, bnot(eq(other, k[0])))
        had, hado = M0.contains(ex, st, k), M0.contains(ex, st, (other,))
        hfn = rd(ex, st, Ptr(M0.node(ex, st, M0.pos(ex, st, k)), 32).at(24))
        reg = meth == 'registerRequestHandler'
        if reg:
            fn = t.obj(st, 'handler')
            mgr, inv = rd(ex, st, fn.at(16)), rd(ex, st, fn.at(24))
            args.append(fn)
            t.need('added', 'refused', 'empty')

        def post(s, r):
            r = ex.to_bool(r)
            M1 = R.mapof(s, 'requestHandlerMap_')
            now = M1.contains(ex, s, k)
            ex.prove(s, 'service/locks-released', not s.locks)
            ex.prove(s, 'handler/others-kept', eq(M1.contains(ex, s, (other,)), hado), 'the handler of another operation is lost')
            if not reg:
                ex.prove(s, 'handler/removed', bnot(now), 'the handler is still there')
                ex.prove(s, 'handler/removal-reported', eq(r, had), 'the result does not tell whether there was a handler')
                return
            if ex.decide(s, eq(mgr, 0)):
                ex.mark('empty')
                ex.prove(s, 'handler/empty-refused', band(bnot(r), eq(now, had)), 'an empty handler is accepted')
                return
            ex.prove(s, 'handler/reported', eq(r, bnot(had)), 'the result does not tell whether the handler was accepted')
            ex.prove(s, 'handler/present', now)
            h = Ptr(M1.node(ex, s, M1.pos(ex, s, k)), 32)
            if ex.decide(s, had):
                ex.mark('refused')
                ex.prove(s, 'handler/first-one-kept', eq(rd(ex, s, h.at(24)), hfn), 'the first handler is replaced')
            else:
                ex.mark('added')
                ex.prove(s, 'handler/is-the-given-one', band(eq(rd(ex, s, h.at(24)), inv), eq(rd(ex, s, h.at(16)), mgr)), 'another handler is stored')
        t.run(f, st, args, post)
    return task


class Shutdown(Prov):
    """everything is shut down; an arbitrary pending request x (of an arbitrary operation) is tracked"""

    def __init__(self, t):
        Prov.__init__(self, t)
        ex, st = self.ex, self.st
        self.M0 = self.mapof(st, 'requestsMap_')
        self.ix, self.jx = ex.fresh_int(st, 'I', 0, 1 << 47), ex.fresh_int(st, 'J', 0, 1 << 47)
        ex.assume(st, lt(self.ix, self.M0.n))
        self.nx = self.M0.node(ex, st, self.ix)
        self.S0 = self.listof(st, self.nx)
        ex.assume(st, lt(self.jx, self.S0.n))
        self.qx = self.reqof(st, self.S0.node(ex, st, self.jx))
        ex.hooks['seq_alias'] = self.alias
        f = self.qx.at(self.rf['_abortCallback'])
        self.cbx = bnot(eq(rd(ex, st, f.at(16)), 0))
        self.fnx, self.wx = rd(ex, st, f.at(24)), rd(ex, st, f)
        gset(st, 'callsx', 0)
        self.v0 = self.rvalid(st, self.qx)
        ex.loop_hooks.append(self.inv)

    def alias(self, ex, st, p, ep):
        if eq(p.off, 32) is True and ep == self.S0.ep and ex.decide(st, eq(p.base, self.nx)):
            return self.S0

    def request(self, ex, st, S, i, nd):
        Prov.request(self, ex, st, S, i, nd)
        # callbacks of different requests are different objects
        q = self.reqof(st, nd)
        w = rd(ex, st, q.at(self.rf['_abortCallback']))
        if not isc(q.base) and not isc(w):
            ex.assume(st, uf('CBRQ')(w) == q.base)

    def on_call(self, st, p, args):
        ex = self.ex
        w = rd(ex, st, as_ptr(args[0]))
        gset(st, 'callsx', add(gget(st, 'callsx'), ite(eq(w, self.wx), 1, 0)))
        ex.prove(st, 'request/invalid-before-callback', implies(eq(w, self.wx), bnot(self.rvalid(st, self.qx))), 'the request is still valid while its abort callback runs')
        ex.prove(st, 'request/callback-of-the-aborted-request', implies(eq(w, self.wx), eq(ex.as_int(p), self.fnx)))

    def before(self, st):
        return band(eq(gget(st, 'callsx'), 0), eq(self.rvalid(st, self.qx), self.v0))

    def after(self, st):
        return band(eq(gget(st, 'callsx'), ite(self.cbx, 1, 0)), bnot(self.rvalid(st, self.qx)))

    def inv(self, ex, entry, head, rec, fi, norm):
        out = []
        for sl in signalspec.iters(ex, head, rec, fi, None):
            v = sl.get(ex, head, fi)
            def idx(st, sl=sl):
                return stl.iter_idx(ex, st, sl.get(ex, st, fi))
            if v.seq is self.M0:
                out.append(('done:' + sl.name, lambda st, idx=idx: implies(lt(self.ix, idx(st)), self.after(st))))
                out.append(('todo:' + sl.name, lambda st, idx=idx: implies(le(idx(st), self.ix), self.before(st))))
                continue
            # one list: relative to the state in which the loop is entered
            mine = eq(v.cont.base, self.nx)
            c0, w0 = gget(entry, 'callsx'), self.rvalid(entry, self.qx)

            def passed(st, idx=idx, mine=mine):
                return band(mine, lt(self.jx, idx(st)))
            out.append(('calls:' + sl.name, lambda st, p=passed, c0=c0: eq(gget(st, 'callsx'), add(c0, ite(band(p(st), self.cbx), 1, 0)))))
            out.append(('invalid:' + sl.name, lambda st, p=passed: implies(p(st), bnot(self.rvalid(st, self.qx)))))
            out.append(('untouched:' + sl.name, lambda st, p=passed, w0=w0: implies(bnot(p(st)), eq(self.rvalid(st, self.qx), w0))))
        return out


def t_deinit(t):
    R = Shutdown(t)
    ex, st = R.ex, R.st
    f = t.fn(SP + '::deinit')

    def post(s, r):
        ex.prove(s, 'service/locks-released', not s.locks)
        ex.prove(s, 'request/invalidated-on-shutdown', bnot(R.rvalid(s, R.qx)), 'a request is still valid after the service was shut down')
        ex.prove(s, 'request/abort-callback-on-shutdown', eq(gget(s, 'callsx'), ite(R.cbx, 1, 0)), 'the abort callback of a pending request is not called exactly once when the service is shut down')
        for k, what in (('requestsMap_', 'requests'), ('regEntriesMap_', 'registrations'), ('propertyMap_', 'statuses')):
            ex.prove(s, 'service/%s-dropped-on-shutdown' % what, eq(R.mapof(s, k).n, 0), '%s survive a shutdown' % what)
        ex.prove(s, 'service/nothing-sent-on-shutdown', eq(gget(s, 'sent'), 0))
    t.run(f, st, [R.this], post)


# ------------------------------------------------------------------ statuses and signals
SKR = lambda ex, st, p: (get_str(ex, st, p),)


class Pub(Prov):
    """one arbitrary client X (an address), and who is registered for what"""

    def __init__(self, t):
        Prov.__init__(self, t)
        ex, st = self.ex, self.st
        self.X = (ex.fresh_int(st, 'clientname', 0, (1 << 48) - 1), ex.fresh_int(st, 'clientport', 0, 65535))
        ex.hooks['unlock'] = self.unlock
        self.alive = True
        ex.contracts['maf::signal_slots::details::BasicSignal_::notify'] = self.notify
        ex.contracts['PlMock::equal'] = self.equal
        gset(st, 'listeners', 0)

    def weak_lock(self, ex, st, v):
        if ex.ptr_eq(as_ptr(v), self.svctl) is True:
            return self.alive
        return None

    def regd(self, st, M, a, op):
        """is address a registered for operation op in the table M"""
        ex = self.ex
        c = M.contains(ex, st, a)
        S = stl.get_seq(ex, st, Ptr(self.node_of(st, M, a), 40), SKR)
        return band(c, S.contains(ex, st, (op,)))

    def node_of(self, st, M, a):
        """the node of a key"""
        ex = self.ex
        if isinstance(M, stl.SeqIns):
            if ex.decide(st, same(self.addr(ex, st, Ptr(M.base, 0)), a)):
                return M.base
            return self.node_of(st, M.par, a)
        if isinstance(M, stl.SeqDel):
            return self.node_of(st, M.par, a)
        return M.node(ex, st, M.pos(ex, st, a))

    def node_of2(self, st, M, k):
        ex = self.ex
        if isinstance(M, stl.SeqIns):
            if ex.decide(st, eq(get_str(ex, st, Ptr(M.base, 0)), k[0])):
                return M.base
            return self.node_of2(st, M.par, k)
        return M.node(ex, st, M.pos(ex, st, k))

    def unlock(self, ex, st, p):
        for k, m in self.mtx.items():
            if eq(p.base, m.base) is True and eq(p.off, m.off) is True:
                h = getattr(self, 'unlocked_' + k, None)
                if h:
                    h(st)

    def listeners(self, st, op):
        M = self.mapof(st, 'serverSideListenersMap_')
        return M.contains(self.ex, st, (op,)), Ptr(M.node(self.ex, st, M.pos(self.ex, st, (op,))), 32)

    def notify(self, ex, st, c):
        self.nolock(ex, st, 'notifying')
        gadd(st, 'listeners')
        gset(st, 'listened', c.args[0])
        gset(st, 'listened payload', rp(ex, st, c.args[1]))
        return None

    def equal(self, ex, st, c):
        b = ex.fresh_bool(st, 'equal')
        gset(st, 'equal', b)
        gset(st, 'equal a', c.args[0])
        gset(st, 'equal b', as_ptr(c.args[1]))
        return b

    def payload(self, st, name, null=False):
        """a shared pointer to contents (of any kind, or none)"""
        ex, t = self.ex, self.t
        sp = t.obj(st, name)
        p, ctl = t.obj(st, name + 'obj'), t.obj(st, name + 'ctl')
        stl.mark_alive(ex, st, ctl)
        ex.write(st, p, 'm', 8, signalspec.vtable(t, r'vtable for PlMock$').at(16))
        ex.write(st, sp, 'm', 8, NULL if null else p)
        ex.write(st, sp.at(8), 'm', 8, NULL if null else ctl)
        return sp, (NULL if null else p)

    # -- statuses
    def prop(self, st, M, op):
        """(present, pointer to the contents) of a status"""
        c = M.contains(self.ex, st, (op,))
        return c, rp(self.ex, st, Ptr(M.node(self.ex, st, M.pos(self.ex, st, (op,))), 32))


class Cast(Pub):
    """publication of one status or signal; X is tracked through all the loops"""

    def __init__(self, t, code, alive=True):
        Pub.__init__(self, t)
        ex, st = self.ex, self.st
        self.alive = alive
        self.code = code
        self.opp = t.obj(st, 'opid')
        self.op = get_str(ex, st, self.opp)
        for k in ('sentx', 'ok', 'dropx'):
            gset(st, k, 0)
        gset(st, 'lastx', 0)
        gset(st, 'firstx', 0)
        gset(st, 'M', None)
        self.px = {}
        # true if nobody at all is registered for the operation
        self.nobody = ex.fresh_bool(st, 'nobody')
        ex.hooks['seq_alias'] = self.alias
        ex.loop_hooks.append(self.inv)
        self.sp = self.pl = None
        self.locked_propertyMap_ = self.prop_locked
        # statuses hold contents that can be compared
        vt = signalspec.vtable(t, r'vtable for PlMock$').at(16)
        old = ex.hooks['vptr']
        ex.hooks['vptr'] = lambda ex, st, b: vt if self.kinds.get(b.get_id()) == 4 else old(ex, st, b)

    def alias(self, ex, st, p, ep):
        # the operations of X, reached through its place in the table
        if eq(p.off, 40) is not True:
            return None
        M = gget(st, 'M')
        if M is not None and getattr(M, 'xset', None):
            nx, sx, e = M.xset
            if e == ep and ex.decide(st, eq(p.base, nx)):
                return sx
        return None

    def seq_init(self, ex, st, p, S, ep):
        Pub.seq_init(self, ex, st, p, S, ep)
        M = gget(st, 'M')
        if eq(p.off, 40) is True and M is not None and getattr(M, 'xset', None) and S.kr is not None and ep == M.xset[2]:
            ex.assume(st, implies(self.nobody, bnot(S.contains(ex, st, (self.op,)))))

    def prop_locked(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'propertyMap_')
        if n == 0:
            c, p = self.prop(st, M, self.op)
            if not isc(p.base):
                self.kinds[p.base.get_id()] = 4
                term.KEEP.append(p.base)
                ex.assume(st, band(uf('KIND')(p.base) == 4, *[p.base != o for o in st.ghost.get(('objs',), ())]))
            gset(st, 'P had', c)
            gset(st, 'P old', p)
            o = ex.fresh_int(st, 'otherprop', 0, (1 << 48) - 1)
            ex.assume(st, bnot(eq(o, self.op)))
            gset(st, 'P other', o)
            gset(st, 'P ohad', M.contains(ex, st, (o,)))
            gset(st, 'P oval', self.prop(st, M, o)[1])

    def unlocked_propertyMap_(self, st):
        ex = self.ex
        M = self.mapof(st, 'propertyMap_')
        c, p = self.prop(st, M, self.op)
        gset(st, 'P has', c)
        gset(st, 'P new', p)
        o = gget(st, 'P other')
        ex.prove(st, 'status/others-kept', band(eq(M.contains(ex, st, (o,)), gget(st, 'P ohad')), implies(gget(st, 'P ohad'), ex.ptr_eq(self.prop(st, M, o)[1], gget(st, 'P oval')))),
                 'another status is changed')

    # -- registrations
    def locked_regEntriesMap_(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'regEntriesMap_')
        if gget(st, 'M') is None:
            gset(st, 'M', M)
            nx = M.node(ex, st, M.pos(ex, st, self.X))
            sx = stl.get_seq(ex, st, Ptr(nx, 40), SKR)
            M.xset = (nx, sx, sx.ep)
            gset(st, 'hasx', self.regd(st, M, self.X, self.op))
            ex.assume(st, implies(self.nobody, bnot(sx.contains(ex, st, (self.op,)))))

    def unlocked_regEntriesMap_(self, st):
        ex = self.ex
        M = self.mapof(st, 'regEntriesMap_')
        gone = bnot(M.contains(ex, st, self.X))
        gset(st, 'dropx', ite(gone, 1, gget(st, 'dropx')))

    def erased(self, ex, st, cont, nd):
        if eq(cont.base, self.map['regEntriesMap_'].base) is not True or eq(cont.off, self.map['regEntriesMap_'].off) is not True:
            return
        # only a client that could not be reached is dropped
        if self.alive:
            ex.prove(st, 'registration/only-unreachable-dropped', band(same(self.addr(ex, st, Ptr(nd, 0)), (gget(st, 'sent to n', -1), gget(st, 'sent to p', -1))), bnot(eq(gget(st, 'sent result', 0), ST['Success'])), bnot(eq(gget(st, 'sent result', 0), ST['ReceiverBusy']))),
                     'the registrations of a client are dropped although it can be reached')

    def sent(self, st, q, to, r):
        ex = self.ex
        m = self.msg(st, q)
        ex.prove(st, 'publish/says-which', eq(m['op'], self.op), 'the message is about something else')
        ex.prove(st, 'publish/kind', eq(m['code'], OPC[self.code]), 'the message is of another kind')
        ex.prove(st, 'publish/contents', ex.ptr_eq(m['payload'], self.pl), 'the message does not hold the published contents')
        ex.prove(st, 'publish/service', eq(m['sid'], get_str(ex, st, self.sid)), 'the message names another service')
        ex.prove(st, 'publish/registered-first', gget(st, 'M') is not None)
        x = same(to, self.X)
        gadd(st, 'sent')
        gset(st, 'firstx', ite(band(x, eq(gget(st, 'sentx'), 0)), r, gget(st, 'firstx')))
        gset(st, 'sentx', add(gget(st, 'sentx'), ite(x, 1, 0)))
        gset(st, 'lastx', ite(x, r, gget(st, 'lastx')))
        gset(st, 'dropx', ite(x, 0, gget(st, 'dropx')))
        gset(st, 'ok', add(gget(st, 'ok'), ite(eq(r, ST['Success']), 1, 0)))
        gset(st, 'sent to n', to[0])
        gset(st, 'sent to p', to[1])
        gset(st, 'sent result', r)

    # -- lists of addresses: each address at most once; posx = where X is (or -1)
    def posx(self, st, S):
        ex = self.ex
        if isinstance(S, stl.SeqEmpty):
            return -1
        if isinstance(S, stl.SeqCopy):
            return self.posx(st, S.src)
        if isinstance(S, stl.SeqIns):
            j = self.posx(st, S.par)
            e = same(self.addr(ex, st, Ptr(S.base, 0)), self.X)
            return ite(e, S.p, ite(le(S.p, j), add(j, 1), j))
        if isinstance(S, stl.SeqCat):
            a, b = self.posx(st, S.a), self.posx(st, S.b)
            return ite(le(0, a), a, ite(le(0, b), add(b, S.a.n), -1))
        if isinstance(S, stl.SeqInit):
            c = self.px.get(S.uid)
            if c is None:
                c = self.px[S.uid] = z3.Int('posx:' + S.uid)
            ex.assume(st, band(c >= -1, lt(c, S.n)))
            return c
        raise Unsupported('position in this list')

    def seq_node(self, ex, st, S, i, nd):
        if S.kr is None:
            e = same(self.addr(ex, st, Ptr(nd, 0)), self.X)
            p = self.posx(st, S)
            ex.assume(st, implies(band(le(0, i), lt(i, S.n)), eq(e, eq(p, i))))

    def pushed(self, ex, st, this, base):
        S = stl.get_seq(ex, st, this)
        e = same(self.addr(ex, st, Ptr(base, 0)), self.X)
        if not isinstance(S, stl.SeqIns):
            raise Unsupported('insertion into this list')
        ex.prove(st, 'publish/each-client-once', implies(e, lt(self.posx(st, S.par), 0)), 'a client is put on the list twice')

    def vecs(self, st, head, rec, fi):
        """the address lists that the loop builds"""
        out = []
        for sl in rec.slots:
            if getattr(sl, 'kind', None) == 'seq' and not isc(sl.base) or getattr(sl, 'kind', None) == 'seq':
                S = sl.get(self.ex, head, fi)
                if isinstance(S, stl.Seq) and S.kr is None:
                    out.append(sl)
        return out

    def inv(self, ex, entry, head, rec, fi, norm):
        out = []
        vs = self.vecs(entry, head, rec, fi)
        for sl in signalspec.iters(ex, head, rec, fi, None):
            v = sl.get(ex, head, fi)

            def idx(st, sl=sl):
                return stl.iter_idx(ex, st, sl.get(ex, st, fi))
            if v.seq.kr is not None:
                # collecting: the clients registered for the operation
                M = v.seq
                ix = M.pos(ex, head, self.X)
                for w in vs:
                    def c(st, idx=idx, w=w, M=M):
                        return eq(le(0, self.posx(st, w.get(ex, st, fi))), band(gget(st, 'hasx'), lt(M.pos(ex, st, self.X), idx(st))))
                    out.append(('collected:' + sl.name, c))
                    out.append(('nobody:' + sl.name, lambda st, w=w: implies(self.nobody, eq(w.get(ex, st, fi).n, 0))))
                continue
            # sending to the collected ones
            S = v.seq
            s0, l0, f0, d0, k0 = [gget(entry, k) for k in ('sentx', 'lastx', 'firstx', 'dropx', 'ok')]

            def passed(st, idx=idx, S=S):
                p = self.posx(st, S)
                return band(le(0, p), lt(p, idx(st)))
            if self.alive:
                out.append(('sent:' + sl.name, lambda st, p=passed, s0=s0: eq(gget(st, 'sentx'), add(s0, ite(p(st), 1, 0)))))
            else:
                out.append(('sent:' + sl.name, lambda st, s0=s0: eq(gget(st, 'sentx'), s0)))
            out.append(('first:' + sl.name, lambda st, p=passed, s0=s0, f0=f0: ite(band(p(st), eq(s0, 0)), eq(gget(st, 'firstx'), gget(st, 'lastx')), eq(gget(st, 'firstx'), f0))))
            out.append(('last:' + sl.name, lambda st, p=passed, l0=l0: bor(p(st), eq(gget(st, 'lastx'), l0))))
            out.append(('range:' + sl.name, lambda st: band(le(0, gget(st, 'lastx')), le(gget(st, 'lastx'), 9))))
            bad = lambda st: band(bnot(eq(gget(st, 'lastx'), ST['Success'])), bnot(eq(gget(st, 'lastx'), ST['ReceiverBusy'])))
            if not self.alive:
                bad = lambda st: True
            out.append(('dropped:' + sl.name, lambda st, p=passed, bad=bad: implies(band(p(st), bad(st)), eq(gget(st, 'dropx'), 1))))
            out.append(('nodrop:' + sl.name, lambda st, p=passed, d0=d0: implies(bnot(p(st)), le(d0, gget(st, 'dropx')))))
            for w in vs:
                def c(st, p=passed, w=w):
                    return eq(le(0, self.posx(st, w.get(ex, st, fi))), band(p(st), eq(gget(st, 'lastx'), ST['ReceiverBusy'])) if self.alive else False)
                out.append(('busy:' + sl.name, c))
            out.append(('bound:' + sl.name, lambda st, idx=idx, k0=k0: band(le(k0, gget(st, 'ok')), le(gget(st, 'ok'), add(k0, idx(st))))))
            for o in rec.slots:
                if isinstance(o, loops.GhostSlot):
                    continue
                def val_(st, o=o):
                    x = o.get(ex, st, fi)
                    if isinstance(x, (Ptr, IterVal, stl.Seq)) or x is None:
                        raise Unsupported('not a number')
                    return ex.as_int(x)
                try:
                    o0 = val_(entry)
                except (Unsupported, Fork, PathEnd):
                    continue
                out.append(('count:%s' % o.name, lambda st, val_=val_: eq(val_(st), gget(st, 'ok'))))
                out.append(('flag:%s' % o.name, lambda st, val_=val_: eq(bnot(eq(val_(st), 0)), lt(0, gget(st, 'ok')))))
        return out

    # -- what must hold afterwards
    def published(self, s, r):
        ex = self.ex
        ex.prove(s, 'service/locks-released', not s.locks)
        has, ok = gget(s, 'hasx'), gget(s, 'ok')
        if gget(s, 'M') is None:
            ex.fail(s, 'publish/registered-clients', 'the registrations are not looked at')
            return
        sx = gget(s, 'sentx')
        if self.alive:
            ex.prove(s, 'publish/registered-clients-once', eq(sx, ite(has, ite(eq(gget(s, 'firstx'), ST['ReceiverBusy']), 2, 1), 0)),
                     'a registered client does not get the message exactly once (once more if it was busy), or another one gets it')
        else:
            ex.prove(s, 'publish/registered-clients-once', eq(sx, 0))
        ex.prove(s, 'publish/unreachable-dropped', implies(band(has, bnot(eq(gget(s, 'lastx'), ST['Success'])), bnot(eq(gget(s, 'lastx'), ST['ReceiverBusy']))) if self.alive else has, eq(gget(s, 'dropx'), 1)),
                 'a client that cannot be reached stays registered')
        ex.prove(s, 'publish/success-if-delivered', implies(lt(0, ok), eq(r, ST['Success'])), 'delivered to a client, but not reported as success')
        ex.prove(s, 'publish/failure-if-not', implies(band(has, eq(ok, 0)), bnot(eq(r, ST['Success']))), 'nobody registered got the message, but reported as success')
        ex.prove(s, 'publish/success-if-nobody', implies(self.nobody, eq(r, ST['Success'])), 'publishing to nobody is reported as a failure')
        c, sig = gget(s, 'L has'), gget(s, 'L sig')
        if c is None:
            ex.fail(s, 'publish/listeners', 'listeners on the side of the service are not looked at')
            return
        n = gget(s, 'listeners')
        if ex.decide(s, c):
            ex.mark('listened')
            ex.prove(s, 'publish/listeners', band(eq(n, 1), ex.ptr_eq(gget(s, 'listened'), sig), ex.ptr_eq(gget(s, 'listened payload'), self.pl)) if n == 1 else False, 'the listeners on the side of the service are not notified exactly once')
        else:
            ex.prove(s, 'publish/listeners', eq(n, 0))

    def locked_serverSideListenersMap_(self, st, n):
        if gget(st, 'L has') is None:
            c, sig = self.listeners(st, self.op)
            gset(st, 'L has', c)
            gset(st, 'L sig', sig)


def t_publish(meth, code, alive, null=False):
    def task(t):
        C = Cast(t, code, alive)
        ex, st = C.ex, C.st
        f = t.fn(SP + '::' + meth)
        t.need('published')
        if meth == 'removeProperty':
            C.sp, C.pl = None, NULL
            args = [C.this, C.opp, ex.fresh_bool(st, 'notify')]
            t.need('silently')
        else:
            C.sp, C.pl = C.payload(st, 'contents', null)
            args = [C.this, C.opp, C.sp]
        if meth == 'setStatus':
            t.need('unchanged')

        def post(s, r):
            if meth == 'setStatus':
                old, had = gget(s, 'P old'), gget(s, 'P had')
                if had is None:
                    ex.fail(s, 'status/stored', 'the status is not looked at under its lock')
                    return
                same_ = band(had, bnot(ex.ptr_eq(old, NULL)), gget(s, 'equal', False))
                if gget(s, 'equal') is not None:
                    ex.prove(s, 'status/compared-with-stored', ex.ptr_eq(gget(s, 'equal a'), old) if ex.ptr_eq(gget(s, 'equal b'), C.pl) is True else False, 'compared with something else')
                if ex.decide(s, same_):
                    ex.mark('unchanged')
                    ex.prove(s, 'status/unchanged-reported', eq(r, ST['NoAction']), 'an unchanged status is not reported as such')
                    ex.prove(s, 'status/unchanged-not-published', eq(gget(s, 'sent'), 0) if gget(s, 'M') is None and gget(s, 'listeners') == 0 else False, 'an unchanged status is published')
                    ex.prove(s, 'status/unchanged-kept', band(gget(s, 'P has'), ex.ptr_eq(gget(s, 'P new'), old)))
                    ex.prove(s, 'service/locks-released', not s.locks)
                    return
                ex.prove(s, 'status/stored', band(gget(s, 'P has'), ex.ptr_eq(gget(s, 'P new'), C.pl)), 'the status is not what was set')
            elif meth == 'removeProperty':
                ex.prove(s, 'status/removed', bnot(gget(s, 'P has', True)), 'the status is still there')
                if not ex.decide(s, ex.to_bool(args[2])):
                    ex.mark('silently')
                    ex.prove(s, 'status/removed-silently', eq(gget(s, 'sent'), 0) if gget(s, 'M') is None and gget(s, 'listeners') == 0 else False, 'a removal is published though it should not')
                    ex.prove(s, 'status/removal-reported', eq(r, ST['Success']))
                    return
            else:
                ex.prove(s, 'signal/not-a-status', gget(s, 'P had') is None, 'a signal changes a status')
            ex.mark('published')
            C.published(s, r)
        t.run(f, st, args, post)
    return task


class Reg(Pub):
    """a message about registrations or statuses; X and an arbitrary operation o are tracked"""

    def __init__(self, t, code, mine=True, isop=True):
        Pub.__init__(self, t)
        ex, st = self.ex, self.st
        self.code = code
        self.p, self.sp = self.new(st, 'msg', code)
        self.m0 = self.msg(st, self.p)
        self.o = ex.fresh_int(st, 'someop', 0, (1 << 48) - 1)
        self.mine = same(self.X, self.m0['src'])
        self.ismine, self.isop = mine, isop
        if mine:
            self.X = self.m0['src']
        else:
            ex.assume(st, bnot(self.mine))
        if isop:
            self.o = self.m0['op']
        else:
            ex.assume(st, bnot(eq(self.o, self.m0['op'])))
        gset(st, 'r0', None)
        vt = signalspec.vtable(t, r'vtable for PlMock$').at(16)
        old = ex.hooks['vptr']
        ex.hooks['vptr'] = lambda ex, st, b: vt if self.kinds.get(b.get_id()) == 4 else old(ex, st, b)

    def locked_regEntriesMap_(self, st, n):
        # what other threads do before or after does not matter here
        M = self.mapof(st, 'regEntriesMap_')
        if gget(st, 'r0') is None:
            gset(st, 'r0', self.regd(st, M, self.X, self.o))
        else:
            gset(st, 'reg twice', 1)

    def unlocked_regEntriesMap_(self, st):
        M = self.mapof(st, 'regEntriesMap_')
        gset(st, 'r1', self.regd(st, M, self.X, self.o))
        gset(st, 'reg done', 1)

    def locked_propertyMap_(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'propertyMap_')
        c, p = self.prop(st, M, (self.m0['op']))
        if not isc(p.base):
            self.kinds[p.base.get_id()] = 4
            term.KEEP.append(p.base)
            ex.assume(st, band(uf('KIND')(p.base) == 4, *[p.base != o for o in st.ghost.get(('objs',), ())]))
        gset(st, 'P seen', 1)
        gset(st, 'P after reg', gget(st, 'reg done', 0))
        gset(st, 'P has', c)
        gset(st, 'P val', p)
        ko = (self.o,)
        gset(st, 'P ohas', M.contains(ex, st, ko))
        gset(st, 'P oval', self.prop(st, M, self.o)[1])

    def unlocked_propertyMap_(self, st):
        ex = self.ex
        M = self.mapof(st, 'propertyMap_')
        ex.prove(st, 'status/not-changed-by-reading', band(eq(M.contains(ex, st, (self.o,)), gget(st, 'P ohas')), implies(gget(st, 'P ohas'), ex.ptr_eq(self.prop(st, M, self.o)[1], gget(st, 'P oval')))),
                 'reading a status changes one')


def t_register(code, mine=True, isop=True):
    def task(t):
        R = Reg(t, code, mine, isop)
        ex, st = R.ex, R.st
        f = t.fn(SP + '::onIncomingMessage')
        status = code in ('StatusRegister', 'StatusGet')
        if status:
            t.need('status there', 'no status')

        def post(s, r):
            ex.prove(s, 'service/handled', ex.to_bool(r), 'the message is not handled')
            ex.prove(s, 'service/locks-released', not s.locks)
            ex.prove(s, 'service/no-callbacks', eq(gget(s, 'calls'), 0))
            r0, r1 = gget(s, 'r0'), gget(s, 'r1')
            if code != 'StatusGet':
                if r0 is None or r1 is None or gget(s, 'reg twice'):
                    ex.fail(s, 'registration/table', 'the registrations are not changed in one step under their lock')
                    return
            both = R.ismine and R.isop
            if code in ('StatusRegister', 'SignalRegister'):
                if both:
                    ex.prove(s, 'registration/entered', r1, 'the client is not registered')
                else:
                    ex.prove(s, 'registration/others-unchanged', eq(r1, r0), 'another registration changes')
            elif code == 'Unregister':
                if both:
                    ex.prove(s, 'registration/removed', bnot(r1), 'the client is still registered')
                else:
                    ex.prove(s, 'registration/others-unchanged', eq(r1, r0), 'another registration changes')
            elif code == 'UnregisterServiceStatus':
                if R.ismine:
                    ex.prove(s, 'registration/all-of-client-removed', bnot(r1), 'a client that went off is still registered')
                else:
                    ex.prove(s, 'registration/others-unchanged', eq(r1, r0), 'another registration changes')
            if not status:
                ex.prove(s, 'registration/nothing-sent', eq(gget(s, 'sent'), 0), 'something is sent')
                return
            if gget(s, 'P seen') is None:
                ex.fail(s, 'status/read', 'the status is not read under its lock')
                return
            if code == 'StatusRegister':
                ex.prove(s, 'status/registered-before-read', eq(gget(s, 'P after reg'), 1), 'a change between reading the status and registering is missed')
            v = gget(s, 'P val')
            there = band(gget(s, 'P has'), bnot(ex.ptr_eq(v, NULL)))
            there = ex.decide(s, there)
            if gget(s, 'server') == 0:
                return
            if there:
                ex.mark('status there')
            else:
                ex.mark('no status')
            if there or code == 'StatusGet':
                ex.prove(s, 'status/told-once', eq(gget(s, 'sent'), 1), 'the client is not told the status exactly once')
                if gget(s, 'sent') != 1:
                    return
                m = R.m0
                ex.prove(s, 'status/told-to-the-client', same((gget(s, 'sent to n'), gget(s, 'sent to p')), m['src']), 'another client is told')
                ex.prove(s, 'status/told-which', band(eq(gget(s, 'sent op'), m['op']), eq(gget(s, 'sent id'), m['id']), eq(gget(s, 'sent code'), m['code']), eq(gget(s, 'sent sid'), m['sid'])),
                         'the message does not say which status it is')
                ex.prove(s, 'status/told-value', ex.ptr_eq(gget(s, 'sent payload'), v if there else NULL), 'the client is told another value')
            else:
                ex.prove(s, 'status/nothing-told', eq(gget(s, 'sent'), 0), 'the client is told a status that does not exist')
        t.run(f, st, [R.this, R.sp], post)
    return task


def t_getstatus(t):
    R = Reg(t, 'Request')
    ex, st = R.ex, R.st
    f = t.fn(SP + '::getStatus')
    t.need('present', 'absent')
    out, opp = t.obj(st, 'result'), R.p.at(R.m['operationID'])

    def post(s, r):
        ex.prove(s, 'service/locks-released', not s.locks)
        if gget(s, 'P seen') is None:
            ex.fail(s, 'status/read', 'the status is not read under its lock')
            return
        if ex.decide(s, gget(s, 'P has')):
            ex.mark('present')
            ex.prove(s, 'status/current-value', ex.ptr_eq(rp(ex, s, out), gget(s, 'P val')), 'not the current value')
        else:
            ex.mark('absent')
            ex.prove(s, 'status/current-value', ex.ptr_eq(rp(ex, s, out), NULL), 'a value although the status does not exist')
    t.run(f, st, [out, R.this, opp], post)


def t_serving(meth, on):
    def task(t):
        R = Prov(t)
        ex, st = R.ex, R.st
        f = t.fn(SP + '::' + meth)
        t.need('server')

        def post(s, r):
            ex.prove(s, 'service/locks-released', not s.locks)
            ex.prove(s, 'availability/recorded', eq(rd(ex, s, R.avail, 1), 1 if on else 0), 'the service does not know that it is (un)available')
            if gget(s, 'server') == 1:
                ex.mark('server')
                ex.prove(s, 'availability/announced', eq(gget(s, 'told', 0), 1), 'the change is not announced exactly once')
                if gget(s, 'told', 0) == 1:
                    ex.prove(s, 'availability/announced-values', band(eq(gget(s, 'told new'), 1 if on else 0), eq(gget(s, 'told old'), 0 if on else 1), eq(gget(s, 'told sid'), get_str(ex, s, R.sid))),
                             'the announcement says something else')
        t.run(f, st, [R.this], post)
    return task


def t_listen(t):
    """registerNotification: listeners on the side of the service"""
    R = Pub(t)
    ex, st = R.ex, R.st
    f = t.fn(SP + '::registerNotification')
    out, opp, cb = t.obj(st, 'connection'), t.obj(st, 'op'), t.obj(st, 'listener')
    k = (get_str(ex, st, opp),)
    inv, mgr = rd(ex, st, cb.at(24)), rd(ex, st, cb.at(16))
    other = ex.fresh_int(st, 'otherop', 0, (1 << 48) - 1)
    ex.assume(st, bnot(eq(other, k[0])))
    M0 = R.mapof(st, 'serverSideListenersMap_')
    hado, nodeo = M0.contains(ex, st, (other,)), R.node_of2(st, M0, (other,))
    had, node = M0.contains(ex, st, k), R.node_of2(st, M0, k)
    t.need('existing', 'new')

    def connect(ex, st, c):
        gadd(st, 'connects')
        gset(st, 'sig', c.args[1])
        fn = c.args[2]
        gset(st, 'fn', band(eq(rd(ex, st, fn.at(24)), inv), eq(rd(ex, st, fn.at(16)), mgr)))
        gset(st, 'ret', c.args[0])
        return None
    ex.contracts['maf::signal_slots::details::BasicSignal_::connect'] = connect

    def post(s, r):
        ex.prove(s, 'service/locks-released', not s.locks)
        M1 = R.mapof(s, 'serverSideListenersMap_')
        ex.prove(s, 'listener/connected-once', eq(gget(s, 'connects', 0), 1), 'the listener is not connected exactly once')
        if gget(s, 'connects', 0) != 1:
            return
        ex.prove(s, 'listener/signal-of-the-operation', band(M1.contains(ex, s, k), ex.ptr_eq(gget(s, 'sig'), Ptr(R.node_of2(s, M1, k), 32))), 'connected where nothing is published')
        ex.prove(s, 'listener/is-the-given-one', gget(s, 'fn'), 'another function is connected')
        ex.prove(s, 'listener/connection-returned', ex.ptr_eq(gget(s, 'ret'), out), 'the connection is not the one returned')
        ex.prove(s, 'listener/others-kept', band(eq(M1.contains(ex, s, (other,)), hado), implies(hado, eq(R.node_of2(s, M1, (other,)), nodeo))), 'the listeners of another operation are lost')
        if ex.decide(s, had):
            ex.mark('existing')
            ex.prove(s, 'listener/earlier-ones-kept', eq(R.node_of2(s, M1, k), node), 'earlier listeners are lost')
        else:
            ex.mark('new')
    t.run(f, st, [out, R.this, opp, cb], post)


def t_address(op):
    """addresses are compared by name and port, and have a total order: tables keyed by them work"""
    def task(t):
        ex = t.ex
        st = t.state()
        install_opaque(ex)
        R = Msgs(t)
        a, b = t.obj(st, 'a'), t.obj(st, 'b')
        f = t.fn(ADR + '::operator' + op)
        x, y = R.addr(ex, st, a), R.addr(ex, st, b)

        def post(s, r):
            r = ex.to_bool(r)
            if op == '<':
                want = bor(stl.strorder(ex, s, x[0], y[0]), band(eq(x[0], y[0]), lt(x[1], y[1])))
            else:
                want = same(x, y) if op == '==' else bnot(same(x, y))
            ex.prove(s, 'address/compares-name-and-port', eq(r, want), 'two addresses are confused, or one is not found again')
        t.run(f, st, [a, b], post)
    return task


C01 = [('setStatus', t_publish('setStatus', 'StatusRegister', True)), ('setStatus(server gone)', t_publish('setStatus', 'StatusRegister', False)),
       ('setStatus(no contents)', t_publish('setStatus', 'StatusRegister', True, True)),
       ('broadcastSignal', t_publish('broadcastSignal', 'SignalRegister', True)), ('broadcastSignal(server gone)', t_publish('broadcastSignal', 'SignalRegister', False)),
       ('removeProperty', t_publish('removeProperty', 'StatusRegister', True))] + \
      [('%s message(%s client, %s operation)' % (k, 'its' if a else 'other', 'its' if b else 'other'), t_register(k, a, b))
       for k in ('StatusRegister', 'SignalRegister', 'Unregister', 'UnregisterServiceStatus') for a in (True, False) for b in (True, False)] + \
      [('registerNotification', t_listen)] + [('Address %s' % o, t_address(o)) for o in ('==', '!=', '<')] + \
      [('StatusGet message', t_register('StatusGet')), ('getStatus', t_getstatus), ('startServing', t_serving('startServing', True)), ('stopServing', t_serving('stopServing', False))]
C02 = [('Request::respond', t_reply('respond', 'Request')), ('Request::update', t_reply('update', 'PartialRequestUpdate')),
       ('Request::invalidate', t_invalidate), ('Request::onAborted', t_onaborted), ('Request getters', t_getters),
       ('respondToRequest(answer)', t_respond('Request')), ('respondToRequest(update)', t_respond('PartialRequestUpdate')), ('abort message', t_abort),
       ('request message', t_request), ('unknown message', t_unhandled), ('deinit', t_deinit), ('registerRequestHandler', t_handlers('registerRequestHandler')),
       ('unregisterRequestHandler', t_handlers('unregisterRequestHandler'))]
TASKS = C01 + C02

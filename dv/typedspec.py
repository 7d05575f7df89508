"""Contracts of typed proxies and stubs: D01.

Requesters, providers, requests, executors and the callbacks of the user are stand-ins that obey contracts (C01-C03); what a
callback is wrapped into is run as the real closure, and the job that it gives to the executor is run as the real closure."""
from reqspec import *
from procspec import call_op

TUS = ['@typed.cpp', CSD + 'CSError.cpp']
PX, SB, RQ, RS = N + 'BasicProxy', N + 'BasicStub', N + 'RequestT', N + 'ResponseT'
TRAITS = {'itc': 'itc::ParamTrait', 'local': 'ipc::local::ParamTrait'}
TS = {'Success': 0, 'NoSource': 1, 'SourceCorrupted': 2, 'DestSrcMismatch': 3}
PT = {'IncomingData': 0, 'OutgoingData': 1, 'Error': 2, 'NA': 3}
EC = {'ResponseIgnored': 5, 'OperationFailed': 6, 'HandlerUnavailable': 3}
TYPES = {'Out': 'go_request::output', 'In': 'go_request::input', 'Attr': 'news_signal::attributes', 'St': 'state_property::status', 'ping': 'ping_request', 'bell': 'bell_signal'}
OPS = {'Out': 'go.request', 'In': 'go.request', 'Attr': 'news.signal', 'St': 'state.property', 'ping': 'ping.request', 'bell': 'bell.signal'}
MOCKS = {'RrMock': 'requester', 'PvMock': 'provider', 'RqMock': 'request', 'ExMock': 'executor'}


class Typed:
    def __init__(self, t, tr):
        self.t, self.ex, self.tr = t, t.ex, tr
        ex = self.ex
        ex.gfld['same_region'] = True
        install_opaque(ex)
        self.rx = TRAITS[tr]
        self.st = st = t.state()
        self.vt = {m: signalspec.vtable(t, r'vtable for %s$' % m).at(16) for m in MOCKS}
        self.o, self.c, self.kinds = {}, {}, {}
        for m, n in MOCKS.items():
            self.o[m], self.c[m] = self.mock(st, m, n)
        ex.hooks['vptr'] = lambda ex, st, b: self.kinds.get(b.get_id())
        ex.icall_hook = self.icall
        C = ex.contracts
        for m in MOCKS:
            C[m + '::~' + m] = lambda ex, st, c: None
        C['ExMock::execute'] = self.execute
        for k in ('registerStatus', 'registerSignal', 'sendRequestAsync', 'getStatus', 'sendRequest', 'unregister', 'unregisterAll', 'abortRequest', 'serviceStatus',
                  'serviceID', 'registerServiceStatusObserver', 'unregisterServiceStatusObserver'):
            C['RrMock::' + k] = lambda ex, st, c, k=k: self.asked(st, k, c)
        for k in ('registerRequestHandler', 'unregisterRequestHandler', 'setStatus', 'getStatus', 'removeProperty', 'broadcastSignal', 'registerNotification', 'startServing',
                  'stopServing', 'serviceID', 'availability'):
            C['PvMock::' + k] = lambda ex, st, c, k=k: self.asked(st, k, c)
        for k in ('valid', 'respond', 'update', 'getInput', 'onAborted', 'getOperationCode', 'getOperationID', 'getRequestID'):
            C['RqMock::' + k] = lambda ex, st, c, k=k: self.requested(st, k, c)
        C[N + 'ParamTraitBase::dump'] = lambda ex, st, c: set_str(ex, st, c.args[0], ex.fresh_int(st, 'dump', 0, (1 << 48) - 1))
        C[N + 'CSError::dump'] = C[N + 'ParamTraitBase::dump']
        C['std::basic_ostringstream::str'] = C['std::ostringstream::str'] = C[N + 'ParamTraitBase::dump']
        for k in ('std::operator<<', N + 'operator<<', 'std::basic_ostream::operator<<', 'std::ostream::operator<<'):
            C[k] = lambda ex, st, c: c.args[0]
        C['maf::srz::DSR::operator>>'] = self.decode
        for k in ('jobs', 'refused', 'calls', 'answers', 'updates', 'decoded', 'corrupt'):
            gset(st, k, 0)

    def mock(self, st, m, name):
        p, c = self.t.obj(st, name), self.t.obj(st, name + ' ctl')
        self.kinds[p.base.get_id()] = self.vt[m]
        KEEP.append(p.base)
        stl.mark_alive(self.ex, st, c)
        return p, c

    def same_sp(self, st, a, p, c=None):
        """a shared pointer at a to p (kept by c)"""
        ex = self.ex
        r = ex.ptr_eq(rp(ex, st, a), p)
        return r if c is None else band(r, ex.ptr_eq(rp(ex, st, a.at(8)), c))

    def sp(self, st, p, c, name='pointer'):
        """a shared pointer somewhere"""
        a = self.t.obj(st, name)
        self.ex.write(st, a, 'm', 8, p)
        self.ex.write(st, a.at(8), 'm', 8, c)
        return a

    def op(self, st, p):
        return get_str(self.ex, st, as_ptr(p))

    # -- environment
    def execute(self, ex, st, c):
        ex.prove(st, 'executor/its-own', ex.ptr_eq(as_ptr(c.args[0]), gget(st, 'executor')), 'another executor is used than the one that was set')
        p = as_ptr(c.args[1])
        if ex.choose(st, 2):
            gset(st, 'refused', gget(st, 'refused') + 1)
            return False
        gset(st, 'jobs', gget(st, 'jobs') + 1)
        gset(st, 'job', self.capture(st, p))
        return True

    def capture(self, st, p):
        ex = self.ex
        g = Ptr(ex.fresh_base(st), 0)
        ex.copy_region(st, g, p, 32)
        ex.write(st, p.at(16), 'm', 8, NULL)
        return g

    def asked(self, st, k, c):
        h = getattr(self, 'on_' + k, None)
        if h is None:
            self.ex.fail(st, 'calls/' + k, 'unexpected: ' + k)
            raise PathEnd()
        gset(st, k, gget(st, k, 0) + 1)
        a = list(c.args)
        out = a.pop(0) if c.sret else None
        return h(st, out, *a[1:])

    def on_serviceID(self, st, out):
        if not hasattr(self, 'sid'):
            self.sid = self.t.obj(st, 'service id')
        return self.sid

    def requested(self, st, k, c):
        ex = self.ex
        a = list(c.args)
        out = a.pop(0) if c.sret else None
        ex.prove(st, 'request/its-own', ex.ptr_eq(as_ptr(a[0]), gget(st, 'request', self.o['RqMock'])), 'another request is used')
        h = getattr(self, 'req_' + k, None)
        if h:
            return h(st, out, *a[1:])
        if k == 'valid':
            return eq(gget(st, 'valid', 1), 1)
        if k == 'respond':
            q = rp(ex, st, as_ptr(a[1]))
            gset(st, 'answers', gget(st, 'answers') + 1)
            gset(st, 'answer', q)
            gset(st, 'answer ctl', rp(ex, st, as_ptr(a[1]).at(8)))
            gset(st, 'answer code', self.error_code(st, q))
            gset(st, 'valid', 0)
            r = ex.fresh_int(st, 'status', 0, 9)
            gset(st, 'result', r)
            return r
        if k == 'update':
            gset(st, 'updates', gget(st, 'updates') + 1)
            gset(st, 'answer', rp(ex, st, as_ptr(a[1])))
            r = ex.fresh_int(st, 'status', 0, 9)
            gset(st, 'result', r)
            return r
        if k == 'getOperationID':
            if not hasattr(self, 'opid'):
                self.opid = self.t.obj(st, 'operation id')
            return self.opid
        raise Unsupported('request: ' + k)

    def error_code(self, st, q):
        """the code of an error (-1: not an error)"""
        ex = self.ex
        if q.base is None or isc(q.base) and q.base == 0:
            return -1
        if not ex.entails(st, ex.ptr_eq(rp(ex, st, q), signalspec.vtable(self.t, r'vtable for maf::messaging::CSError$').at(16))):
            return -1
        d = rp(ex, st, q.at(self.t.off(N + 'CSError', 'd_')))
        return rd(ex, st, d.at(self.t.off(N + 'CSErrorDataPrv', 'code')), 1)

    def data_rec(self, ty):
        rec = {'itc': N + 'itc::Payload<%s>', 'local': N + 'ipc::local::OutgoingPayloadT<%s>'}[self.tr] % TYPES[ty]
        return re.escape(rec), self.t.off(re.escape(rec), 'content_')

    def made_data(self, st, q, ty):
        """a payload object of that type that the code made"""
        ex = self.ex
        v = rp(ex, st, q)
        w = signalspec.vtable(self.t, r'vtable for %s$' % self.data_rec(ty)[0]).at(16)
        return ex.entails(st, ex.ptr_eq(v, w))

    def icall(self, ex, st, p, args, ins):
        """a callback of the user"""
        ex.prove(st, 'callback/the-right-one', eq(ex.as_int(p), gget(st, 'cb inv', -1)), 'another function is called than the one that was given')
        ex.prove(st, 'callback/its-object', eq(rd(ex, st, as_ptr(args[0])), gget(st, 'cb w', -1)), 'another function is called than the one that was given')
        gset(st, 'calls', gget(st, 'calls') + 1)
        h = getattr(self, 'on_call', None)
        return h(st, *args[1:]) if h else None

    def callback(self, st, empty, name='callback'):
        ex = self.ex
        cb = self.t.obj(st, name)
        m = rp(ex, st, cb.at(16))
        ex.assume(st, eq(m.base, 0) if empty else band(bnot(eq(m.base, 0)), eq(m.off, 0)))
        if empty:
            ex.write(st, cb.at(16), 'm', 8, NULL)
        else:
            gset(st, 'cb w', rd(ex, st, cb))
            gset(st, 'cb inv', ex.as_int(rp(ex, st, cb.at(24))))
        return cb

    # -- payloads
    def payload(self, st, kind, ty):
        """a payload as it arrives: nothing, an error, a value, bytes"""
        ex, t = self.ex, self.t
        gset(st, 'kind', kind)
        if kind == 'none':
            return self.sp(st, NULL, NULL, 'payload')
        p, c = t.obj(st, 'payload object'), t.obj(st, 'payload ctl')
        stl.mark_alive(ex, st, c)
        KEEP.append(p.base)
        if kind == 'error':
            v = signalspec.vtable(t, r'vtable for maf::messaging::CSError$')
        elif kind in ('bytes', 'no bytes'):
            v = signalspec.vtable(t, r'vtable for maf::messaging::ipc::local::IncomingPayload$')
            self.s = t.obj(st, 'stream')
            sc = t.obj(st, 'stream ctl')
            stl.mark_alive(ex, st, sc)
            s0 = p.at(t.off(N + 'ipc::local::IncomingPayload', 'stream_'))
            if kind == 'no bytes':
                ex.write(st, s0, 'm', 8, NULL)
                ex.write(st, s0.at(8), 'm', 8, NULL)
            else:
                ex.write(st, s0, 'm', 8, self.s)
                ex.write(st, s0.at(8), 'm', 8, sc)
        else:
            rec = {'itc': N + 'itc::Payload<%s>', 'local': N + 'ipc::local::OutgoingPayloadT<%s>'}[self.tr] % TYPES[ty]
            v = signalspec.vtable(t, r'vtable for %s$' % re.escape(rec))
            f = p.at(t.off(re.escape(rec), 'content_'))
            gset(st, 'value', rp(ex, st, f))
            gset(st, 'value ctl', rp(ex, st, f.at(8)))
            if self.tr == 'itc':
                y = rd(ex, st, p.at(t.off(re.escape(rec), 'type_')), 1)
                ex.assume(st, bor(eq(y, 0), eq(y, 1), eq(y, 3)))
        self.kinds[p.base.get_id()] = v.at(16)
        ex.write(st, p, 'm', 8, v.at(16))
        gset(st, 'payload', p)
        gset(st, 'payload ctl', c)
        return self.sp(st, p, c, 'payload')

    def decode(self, ex, st, c):
        """Z01, Z02: reads a value from the stream, which has not failed then, or throws"""
        k, null, end = ex.choose(st, 2), ex.choose(st, 2, 1), ex.choose(st, 2, 2)
        dsr, out = as_ptr(c.args[0]), as_ptr(c.args[1])
        view = rp(ex, st, dsr)
        src = self.t.off('maf::srz::IByteStream', 'buffer_')
        ex.prove(st, 'decode/those-bytes', ex.ptr_eq(rp(ex, st, view), self.s.at(src)), 'other bytes are read than those that came')
        for f, n in (('readingPos_', 8), ('state_', 1)):
            ex.prove(st, 'decode/from-the-beginning', eq(rd(ex, st, view.at(self.t.off('maf::srz::IByteStreamView', f)), n), rd(ex, st, self.s.at(self.t.off('maf::srz::IByteStream', f)), n)),
                     'reading starts somewhere else')
        gset(st, 'decoded', gget(st, 'decoded') + 1)
        if k:
            ex.throw_state(st, '_ZTISt9exception')
            gset(st, 'kind', 'corrupt')
            return '$throw'
        v, vc = self.t.obj(st, 'decoded'), self.t.obj(st, 'decoded ctl')
        if null:
            v, vc = NULL, NULL
        ex.write(st, out, 'm', 8, v)
        ex.write(st, out.at(8), 'm', 8, vc)
        s = view.at(self.t.off('maf::srz::IByteStreamView', 'state_'))
        ex.write(st, s, 'm', 1, 5 if end else 1)
        gset(st, 'kind', 'value read')
        gset(st, 'value', v)
        gset(st, 'value ctl', vc)
        return c.args[0]

    # -- parties
    def proxy(self, executor=True):
        return self.party(PX + '<%s%s>' % (N, self.rx), {'requester_': 'RrMock'}, executor)

    def stub(self, executor=True):
        return self.party(SB + '<%s%s>' % (N, self.rx), {'provider_': 'PvMock'}, executor)

    def party(self, rec, fields, executor):
        ex, st, t = self.ex, self.st, self.t
        self.rec = re.escape(rec)
        p = t.obj(st, 'party')
        f = dict(fields)
        f['executor_'] = 'ExMock'
        for k, m in f.items():
            a = p.at(t.off(self.rec, k))
            on = m != 'ExMock' or executor
            ex.write(st, a, 'm', 8, self.o[m] if on else NULL)
            ex.write(st, a.at(8), 'm', 8, self.c[m] if on else NULL)
        gset(st, 'executor', self.o['ExMock'] if executor else NULL)
        return p

    def fn(self, cls, meth, *rx):
        def ok(d):
            return self.rx in d and (self.tr == 'local' or 'ipc::local' not in d) and all(re.search(r, d) for r in rx)
        return self.t.fn(cls + '::' + meth, ok)

    # -- what a callback of the user is told
    def expect_value(self, st, a, none=('none', 'error', 'corrupt', 'no bytes')):
        """a shared pointer to the value that came, or to nothing"""
        ex = self.ex
        k = gget(st, 'kind')
        if k in none:
            ex.prove(st, 'value/nothing-read-as-nothing', eq(rp(ex, st, a).base, 0), 'a value is handed over although none came')
        else:
            ex.prove(st, 'value/the-one-that-came', self.same_sp(st, a, gget(st, 'value')), 'another value is handed over than the one that came')
        ex.mark('told: ' + k)


def fn_op(t, arg):
    return t.fn('std::function::operator()', arg)


KINDS = {'itc': ('none', 'error', 'data'), 'local': ('none', 'error', 'data', 'bytes', 'no bytes')}
TOLD = {'itc': KINDS['itc'], 'local': ('none', 'error', 'data', 'no bytes', 'value read', 'corrupt')}


# ------------------------------------------------------------------ proxies: updates
def t_watch(tr, meth, ty, void=False):
    """registerStatus, registerSignal, getStatus with a callback"""
    def task(t):
        t.need('refused', 'asked', 'executor refuses', *(['called'] if void else ['told: ' + k for k in TOLD[tr]]))
        for executor, empty in ((1, 0), (0, 0), (1, 1)):
            W = Typed(t, tr)
            ex, st = W.ex, W.st
            p = W.proxy(executor)
            cb = W.callback(st, empty)
            out, sp = t.obj(st, 'result'), t.obj(st, 'callstatus')
            async_get = meth == 'getStatus'

            def asked(s, o, op, fn, status=None):
                ex.prove(s, 'watch/what', eq(W.op(s, op), stl.str_id(OPS[ty])), 'another operation is watched')
                ex.prove(s, 'watch/callback-given', bnot(eq(rp(ex, s, as_ptr(fn).at(16)).base, 0)), 'no function is given')
                gset(s, 'wrapped', W.capture(s, as_ptr(fn)))
                if async_get:
                    r = ex.fresh_int(s, 'status', 0, 9)
                    gset(s, 'status', r)
                    return r
                ex.prove(s, 'watch/status-told', ex.ptr_eq(as_ptr(status), sp), 'the caller does not learn whether it worked')
                i = ex.fresh_int(s, 'id', 0, (1 << 64) - 1)
                gset(s, 'id', i)
                ex.write(s, o, 'm', 8, i)
                set_str(ex, s, o.at(8), get_str(ex, s, as_ptr(op)))
                return None
            setattr(W, 'on_' + meth, asked)

            def told(s, a=None):
                if not void:
                    W.expect_value(s, as_ptr(a))
                return None
            W.on_call = told

            def post(s, r):
                ex.prove(s, 'calls/not-yet', gget(s, 'calls') == 0, 'the callback is called before anything came')
                if empty or not executor:
                    ex.mark('refused')
                    ex.prove(s, 'watch/refused', gget(s, meth, 0) == 0, 'something is watched without anybody to tell')
                    if async_get:
                        ex.prove(s, 'watch/refused-status', eq(r, ST['InvalidParam']), 'the call looks as if it worked')
                    else:
                        ex.prove(s, 'watch/refused-id', eq(rd(ex, s, out), INV), 'an id that looks valid')
                        ex.prove(s, 'watch/refused-status', eq(rd(ex, s, sp, 1), ST['InvalidParam']), 'the call looks as if it worked')
                    return
                ex.mark('asked')
                ex.prove(s, 'watch/asked-once', gget(s, meth, 0) == 1, 'the service is not asked exactly once')
                if gget(s, meth, 0) != 1:
                    return
                if async_get:
                    ex.prove(s, 'watch/status', eq(r, gget(s, 'status')), 'the status of the call is wrong')
                else:
                    ex.prove(s, 'watch/id', eq(rd(ex, s, out), gget(s, 'id')), 'the id is not the one of the registration')
                kinds = KINDS[tr] if not void else ('none',)
                for k in kinds:
                    s1 = s.clone()
                    delivered(W, s1, gget(s, 'wrapped'), W.payload(s1, k, ty), 'wrapper: ' + k, void)
            args = [p, cb] + ([] if async_get else [sp])
            f = W.fn(PX, meth, r'%s<%s' % (meth, TYPES[ty]) if not async_get else r'%s<%s.*std::function' % (meth, TYPES[ty]))
            t.run(f, st, ([] if async_get else [out]) + args, post, cover='%s%d%d' % (meth, executor, empty))
    return task


def delivered(W, s, wrapped, pl, cover, void=False, maybe=False, then=None):
    """what arrives makes one job of the executor; the job calls the callback once"""
    ex, t = W.ex, W.t
    gset(s, 'jobs', 0)
    gset(s, 'calls', 0)
    gset(s, 'refused', 0)

    def handed(s2, r):
        ex.prove(s2, 'deliver/one-job', gget(s2, 'jobs') + gget(s2, 'refused') == 1, 'what comes does not make exactly one job')
        ex.prove(s2, 'deliver/not-here', gget(s2, 'calls') == 0 and gget(s2, 'decoded') == 0, 'the callback is called on the thread of the transport')
        if gget(s2, 'refused'):
            ex.mark('executor refuses')
            if then:
                then(s2)
            return
        if gget(s2, 'jobs') != 1:
            return

        def after(s3, r3):
            ex.mark('called')
            ex.prove(s3, 'deliver/once', gget(s3, 'calls') == 1 or maybe and gget(s3, 'calls') == 0, 'the callback is not called exactly once')
            if then:
                then(s3)
        t.run(call_op(t), s2, [gget(s2, 'job')], after, cover=cover + ', job')
    t.run(fn_op(t, r'std::function<void \(std::shared_ptr<maf::messaging::CSMsgPayloadIF> const&\)>::operator'), s, [wrapped, pl], handed, cover=cover)



# ------------------------------------------------------------------ what is sent
def sent_payload(W, s, a, ty, value):
    """the payload at a carries exactly the value (a shared pointer), or nothing"""
    ex, t = W.ex, W.t
    q = rp(ex, s, as_ptr(a))
    if ty is None:
        ex.prove(s, 'send/nothing', eq(q.base, 0), 'something is sent with an operation that carries nothing')
        return
    v = rp(ex, s, value)
    if W.tr == 'itc':
        if ex.entails(s, eq(v.base, 0)):
            ex.prove(s, 'send/no-value', eq(q.base, 0), 'something is sent although there is no value')
            ex.mark('sent: none')
            return
        if not ex.entails(s, bnot(eq(v.base, 0))):
            raise Unsupported('value neither null nor not')
    ok = not (isc(q.base) and q.base == 0)
    ex.prove(s, 'send/a-payload', ok and W.made_data(s, q, ty), 'no payload of that type is sent')
    if not ok or not W.made_data(s, q, ty):
        return
    rec, f = W.data_rec(ty)
    c = q.at(f)
    ex.prove(s, 'send/the-value', band(ex.ptr_eq(rp(ex, s, c), v), ex.ptr_eq(rp(ex, s, c.at(8)), rp(ex, s, value.at(8)))), 'another value is sent than the one that was given')
    if W.tr == 'itc':
        ex.prove(s, 'send/outgoing', eq(rd(ex, s, q.at(t.off(rec, 'type_')), 1), PT['OutgoingData']), 'it is not marked as a value')
    ex.mark('sent: value')


def value(W, st, null, name='value'):
    t = W.t
    if null:
        return W.sp(st, NULL, NULL, name)
    p, c = t.obj(st, name + ' object'), t.obj(st, name + ' ctl')
    stl.mark_alive(W.ex, st, c)
    return W.sp(st, p, c, name)


def response(W, s, a, ty):
    """a response says what came"""
    ex, t = W.ex, W.t
    a = as_ptr(a)
    i = rd(ex, s, a.at(16), 1)
    p = rp(ex, s, a)
    k = gget(s, 'kind')
    if k == 'error':
        ex.prove(s, 'response/the-error', band(eq(i, 1), ex.ptr_eq(p, gget(s, 'payload'))), 'an error that came is not what the response says')
    elif ty == 'ping':
        ex.prove(s, 'response/nothing', bor(eq(i, 2), band(eq(i, 0), eq(p.base, 0))), 'the response says more than came')
    elif k in ('none', 'corrupt', 'no bytes'):
        ex.prove(s, 'response/no-value', bor(eq(i, 2), band(eq(i, 0), eq(p.base, 0)), band(eq(i, 1), k != 'none', bnot(eq(p.base, 0)))), 'the response says that a value came')
    else:
        ex.prove(s, 'response/the-value', band(eq(i, 0), ex.ptr_eq(p, gget(s, 'value'))), 'the response is not the value that came')
    ex.mark('told: ' + k)


def rkinds(tr, ty):
    return ('none', 'error', 'data') if ty == 'ping' else KINDS[tr]


def rtold(tr, ty):
    return ('none', 'error', 'data') if ty == 'ping' else TOLD[tr]


def t_send(tr, ty, inp):
    def task(t):
        t.need('no callback', 'asked', 'executor refuses', *['told: ' + k for k in rtold(tr, ty)])
        if inp:
            t.need('sent: value', *(['sent: none'] if tr == 'itc' else []))
        for executor, empty, null in ((1, 0, 0), (1, 0, 1), (0, 0, 0), (1, 1, 0), (0, 1, 1)):
            if null and not inp:
                continue
            W = Typed(t, tr)
            ex, st = W.ex, W.st
            p = W.proxy(executor)
            cb = W.callback(st, empty)
            iv = value(W, st, null, 'input')
            out, sp = t.obj(st, 'result'), t.obj(st, 'callstatus')

            def asked(s, o, op, pl, fn, status):
                ex.prove(s, 'send/what', eq(W.op(s, op), stl.str_id(OPS[ty])), 'another operation is asked for')
                sent_payload(W, s, pl, 'In' if inp else None, iv)
                ex.prove(s, 'send/status-told', ex.ptr_eq(as_ptr(status), sp), 'the caller does not learn whether it worked')
                m = rp(ex, s, as_ptr(fn).at(16))
                if empty or not executor:
                    ex.prove(s, 'send/no-callback', eq(m.base, 0), 'a function is given although there is nobody to tell')
                else:
                    ex.prove(s, 'send/callback', bnot(eq(m.base, 0)), 'no function is given for the answer')
                gset(s, 'wrapped', W.capture(s, as_ptr(fn)))
                i = ex.fresh_int(s, 'id', 0, (1 << 64) - 1)
                gset(s, 'id', i)
                ex.write(s, o, 'm', 8, i)
                set_str(ex, s, o.at(8), get_str(ex, s, as_ptr(op)))
                return None
            W.on_sendRequestAsync = asked
            W.on_call = lambda s, a: response(W, s, a, ty)

            def post(s, r):
                ex.prove(s, 'calls/not-yet', gget(s, 'calls') == 0, 'the callback is called before anything came')
                ex.prove(s, 'send/once', gget(s, 'sendRequestAsync', 0) == 1, 'the request is not sent exactly once')
                if gget(s, 'sendRequestAsync', 0) != 1:
                    return
                ex.prove(s, 'send/id', eq(rd(ex, s, out), gget(s, 'id')), 'the id is not the one of the request')
                if empty or not executor:
                    ex.mark('no callback')
                    return
                ex.mark('asked')
                for k in rkinds(tr, ty):
                    s1 = s.clone()
                    delivered(W, s1, gget(s, 'wrapped'), W.payload(s1, k, ty if ty != 'ping' else 'Out'), 'wrapper: ' + k)
            f = W.fn(PX, 'sendRequestAsync', r'sendRequestAsync<%s%s' % (TYPES[ty], ', ' + TYPES['In'] if inp else r', true'))
            t.run(f, st, [out, p] + ([iv] if inp else []) + [cb, sp], post, cover='send%d%d%d' % (executor, empty, null))
    return task


def t_sync(tr, ty, inp):
    """sendRequest that waits"""
    def task(t):
        t.need('failed', *['told: ' + k for k in rtold(tr, ty)])
        for k in rkinds(tr, ty):
            for nostatus, null in ((0, 0), (1, 1)):
                W = Typed(t, tr)
                ex, st = W.ex, W.st
                p = W.proxy(1)
                iv = value(W, st, null, 'input')
                out, sp = t.obj(st, 'result'), (NULL if nostatus else t.obj(st, 'callstatus'))
                to = ex.fresh_int(st, 'timeout', -(1 << 63), (1 << 63) - 1)

                def asked(s, o, op, pl, status, timeout, k=k):
                    ex.prove(s, 'send/what', eq(W.op(s, op), stl.str_id(OPS[ty])), 'another operation is asked for')
                    sent_payload(W, s, pl, 'In' if inp else None, iv)
                    ex.prove(s, 'send/timeout', eq(ex.as_int(timeout), to), 'another time limit is used than the one that was given')
                    v = ex.fresh_int(s, 'status', 0, 9)
                    gset(s, 'status', v)
                    ex.write(s, as_ptr(status), 'm', 1, v)
                    a = W.payload(s, k, ty if ty != 'ping' else 'Out')
                    ex.write(s, o, 'm', 8, rp(ex, s, a))
                    ex.write(s, o.at(8), 'm', 8, rp(ex, s, a.at(8)))
                    return None
                W.on_sendRequest = asked

                def post(s, r):
                    ex.prove(s, 'send/once', gget(s, 'sendRequest', 0) == 1, 'the request is not sent exactly once')
                    if gget(s, 'sendRequest', 0) != 1:
                        return
                    v = gget(s, 'status')
                    if not nostatus:
                        ex.prove(s, 'send/status', eq(rd(ex, s, sp, 1), v), 'the status that is told is not the one of the call')
                    good = eq(v, ST['Success'])
                    if ex.entails(s, good):
                        response(W, s, out, ty)
                    else:
                        ex.prove(s, 'send/failed', bnot(good), 'the status is not looked at')
                        ex.mark('failed')
                        i, q = rd(ex, s, out.at(16), 1), rp(ex, s, out)
                        ex.prove(s, 'send/failed-is-an-error', eq(i, 1), 'a request that failed does not make an error')
                        ex.prove(s, 'send/failed-code', eq(W.error_code(s, q), EC['OperationFailed']), 'the error of a request that failed is another one')
                f = W.fn(PX, 'sendRequest', r'sendRequest<%s%s' % (TYPES[ty], ', ' + TYPES['In'] if inp else r', true'))
                t.run(f, st, [out, p] + ([iv] if inp else []) + [sp, to], post, cover='sync %s%d' % (k, nostatus))
    return task


def t_get(tr):
    """getStatus that waits"""
    def task(t):
        t.need(*['told: ' + k for k in TOLD[tr]])
        for k in KINDS[tr]:
            W = Typed(t, tr)
            ex, st = W.ex, W.st
            p = W.proxy(1)
            out, sp = t.obj(st, 'result'), t.obj(st, 'callstatus')
            to = ex.fresh_int(st, 'timeout', -(1 << 63), (1 << 63) - 1)

            def asked(s, o, op, status, timeout, k=k):
                ex.prove(s, 'get/what', eq(W.op(s, op), stl.str_id(OPS['St'])), 'another property is asked for')
                ex.prove(s, 'get/timeout', eq(ex.as_int(timeout), to), 'another time limit is used than the one that was given')
                ex.prove(s, 'get/status-told', ex.ptr_eq(as_ptr(status), sp), 'the caller does not learn whether it worked')
                a = W.payload(s, k, 'St')
                ex.write(s, o, 'm', 8, rp(ex, s, a))
                ex.write(s, o.at(8), 'm', 8, rp(ex, s, a.at(8)))
                return None
            W.on_getStatus = asked

            def post(s, r):
                ex.prove(s, 'get/once', gget(s, 'getStatus', 0) == 1, 'the property is not asked for exactly once')
                W.expect_value(s, out)
            t.run(W.fn(PX, 'getStatus', r'getStatus<%s.*ActionCallStatus' % TYPES['St']), st, [out, p, sp, to], post, cover='get ' + k)
    return task


# ------------------------------------------------------------------ what is passed on
def one(W, st, what, post, f, args, cover, **on):
    """runs f; exactly one call `what`, answered by on"""
    for k, h in on.items():
        setattr(W, 'on_' + k, h)

    def after(s, r):
        W.ex.prove(s, 'forward/%s-once' % what, gget(s, what, 0) == 1, 'not exactly one call of ' + what)
        if gget(s, what, 0) == 1:
            post(s, r)
    W.t.run(f, st, args, after, cover=cover)


def t_forward(tr):
    def task(t):
        def fresh():
            W = Typed(t, tr)
            return W, W.ex, W.st, W.proxy(1), W.t.obj
        same = lambda ex, s, a, b, what: ex.prove(s, 'forward/' + what, ex.ptr_eq(as_ptr(a), as_ptr(b)), 'something else is passed on than what was given')
        W, ex, st, p, obj = fresh()
        ids = obj(st, 'id given'), obj(st, 'callstatus')

        def result(s):
            v = ex.fresh_int(s, 'status', 0, 9)
            gset(s, 'status', v)
            return v
        told = lambda s, r: ex.prove(s, 'forward/result', eq(r, gget(s, 'status')), 'the result is not the one of the call')
        one(W, st.clone(), 'unregister', told, W.fn(PX, 'unregister'), [p, ids[0]], 'unregister', unregister=lambda s, o, i: (same(ex, s, i, ids[0], 'id'), result(s))[1])
        one(W, st.clone(), 'unregisterAll', told, W.fn(PX, 'unregisterAll'), [p, ids[0]], 'unregisterAll', unregisterAll=lambda s, o, i: (same(ex, s, i, ids[0], 'id'), result(s))[1])
        one(W, st.clone(), 'abortRequest', lambda s, r: None, W.fn(PX, 'abortRequest'), [p, ids[0], ids[1]], 'abortRequest',
            abortRequest=lambda s, o, i, cs: (same(ex, s, i, ids[0], 'id'), same(ex, s, cs, ids[1], 'status'), None)[2])
        one(W, st.clone(), 'serviceStatus', told, W.fn(PX, 'serviceStatus'), [p], 'serviceStatus', serviceStatus=lambda s, o: result(s))
        t.run(W.fn(PX, 'serviceID'), st.clone(), [p], lambda s, r: same(ex, s, r, W.sid, 'service id'), cover='serviceID')
        ob = value(W, st, 0, 'observer')

        def observer(s, o, a, by_value=False):
            ex.prove(s, 'forward/observer', ex.ptr_eq(rp(ex, s, as_ptr(a)), gget(s, 'observer')), 'another observer is passed on')
            return None
        gset(st, 'observer', rp(ex, st, ob))
        one(W, st.clone(), 'registerServiceStatusObserver', lambda s, r: None, W.fn(PX, 'registerServiceStatusObserver'), [p, ob], 'observe', registerServiceStatusObserver=observer)
        one(W, st.clone(), 'unregisterServiceStatusObserver', lambda s, r: None, W.fn(PX, 'unregisterServiceStatusObserver'), [p, ob], 'unobserve', unregisterServiceStatusObserver=observer)
        t_parts(W, PX, 'requester_', 'RrMock', p)
    return task


def t_parts(W, cls, field, mock, p):
    """getExecutor, setExecutor, with, getRequester: objects with the same party"""
    t, ex, st = W.t, W.ex, W.st
    out = t.obj(st, 'result')
    t.run(W.fn(cls, 'getExecutor'), st.clone(), [out, p], lambda s, r: ex.prove(s, 'executor/told', W.same_sp(s, out, W.o['ExMock'], W.c['ExMock']), 'another executor is told than the one that was set'), cover='getExecutor')
    if cls == PX:
        t.run(W.fn(cls, 'getRequester'), st.clone(), [out, p], lambda s, r: ex.prove(s, 'requester/told', W.same_sp(s, out, W.o[mock], W.c[mock]), 'another requester is told'), cover='getRequester')
    x = value(W, st, 0, 'other executor')
    xo, xc = rp(ex, st, x), rp(ex, st, x.at(8))

    def is_set(s, r):
        ex.prove(s, 'executor/set', W.same_sp(s, p.at(t.off(W.rec, 'executor_')), xo, xc), 'the executor is not the one that was given')
        ex.prove(s, 'executor/same-party', W.same_sp(s, p.at(t.off(W.rec, field)), W.o[mock], W.c[mock]), 'the party is exchanged')
    W.kinds[xo.base.get_id()] = W.vt['ExMock']
    KEEP.append(xo.base)
    t.run(W.fn(cls, 'setExecutor'), st.clone(), [p, x], is_set, cover='setExecutor')

    def other(s, r):
        q = rp(ex, s, out)
        ex.prove(s, 'with/made', bnot(eq(q.base, 0)), 'nothing is made')
        if isc(q.base) and q.base == 0:
            return
        ex.prove(s, 'with/another', bnot(ex.ptr_eq(q, p)), 'the object itself is told, with another executor')
        ex.prove(s, 'with/executor', W.same_sp(s, q.at(t.off(W.rec, 'executor_')), xo, xc), 'the executor is not the one that was given')
        ex.prove(s, 'with/party', W.same_sp(s, q.at(t.off(W.rec, field)), W.o[mock], W.c[mock]), 'the party is another one')
        ex.prove(s, 'with/own-executor-kept', W.same_sp(s, p.at(t.off(W.rec, 'executor_')), W.o['ExMock'], W.c['ExMock']), 'the executor of the object changes')
        ex.prove(s, 'with/own-party-kept', W.same_sp(s, p.at(t.off(W.rec, field)), W.o[mock], W.c[mock]), 'the party of the object changes')
    t.run(W.fn(cls, 'with'), st.clone(), [out, p, x], other, cover='with')


def t_observe(tr):
    """onServiceStatusChanged: a change makes one job of the executor, which tells the change"""
    def task(t):
        t.need('refused', 'told', 'executor refuses')
        for executor, empty in ((1, 0), (0, 0), (1, 1)):
            W = Typed(t, tr)
            ex, st = W.ex, W.st
            p = W.proxy(executor)
            cb = W.callback(st, empty)
            out = t.obj(st, 'result')

            def observed(s, o, a):
                gset(s, 'observer', rp(ex, s, as_ptr(a)))
                return None
            W.on_registerServiceStatusObserver = observed

            def call(s, a, b):
                # std::function passes what it gets by reference
                ex.prove(s, 'observe/old', eq(rd(ex, s, as_ptr(a), 1), gget(s, 'old')), 'another status is told than the one before')
                ex.prove(s, 'observe/new', eq(rd(ex, s, as_ptr(b), 1), gget(s, 'new')), 'another status is told than the present one')
                return None
            W.on_call = call

            def post(s, r):
                q = rp(ex, s, out)
                n = gget(s, 'registerServiceStatusObserver', 0)
                if empty or not executor:
                    ex.mark('refused')
                    ex.prove(s, 'observe/refused', band(n == 0, eq(q.base, 0)), 'somebody observes without anybody to tell')
                    return
                ex.prove(s, 'observe/once', n == 1, 'not exactly one observer is registered')
                if n != 1:
                    return
                ex.prove(s, 'observe/told', ex.ptr_eq(q, gget(s, 'observer')), 'the observer that is told is not the one that observes')
                s1 = s.clone()
                for k in ('old', 'new'):
                    gset(s1, k, ex.fresh_int(s1, k, 0, 2))
                sid = t.obj(s1, 'sid')
                f = t.fn(N + 'ServiceStatusObserverDelegater::onServiceStatusChanged')

                def handed(s2, r2):
                    ex.prove(s2, 'observe/one-job', gget(s2, 'jobs') == 1 and not gget(s2, 'refused'), 'a change does not make exactly one job')
                    ex.prove(s2, 'observe/not-here', gget(s2, 'calls') == 0, 'the callback is called on the thread of the transport')
                    if gget(s2, 'jobs') != 1:
                        return

                    def after(s3, r3):
                        ex.mark('told')
                        ex.prove(s3, 'observe/called-once', gget(s3, 'calls') == 1, 'the callback is not called exactly once')
                    t.run(call_op(t), s2, [gget(s2, 'job')], after, cover='observe, job')

                def refused(s2, e):
                    ex.mark('executor refuses')
                    ex.prove(s2, 'observe/unavailable', gget(s2, 'refused') == 1 and gget(s2, 'jobs') == 0, 'it complains although the executor took the job')
                    ex.prove(s2, 'observe/exception', 'UnavailableException' in str(s2.exc and s2.exc['type']), 'another exception than that the executor is gone')
                t.run(f, s1, [q, sid, gget(s1, 'old'), gget(s1, 'new')], handed, unwind=refused, cover='observe')
            t.run(W.fn(PX, 'onServiceStatusChanged'), st, [out, p, cb], post, cover='onServiceStatusChanged%d%d' % (executor, empty))
    return task


# ------------------------------------------------------------------ stubs
def t_publish(tr):
    """setStatus, broadcastSignal, removeProperty, unregisterRequestHandler, startServing, stopServing"""
    def task(t):
        t.need('sent: value', *(['sent: none'] if tr == 'itc' else []))
        def result(s, hi=9):
            v = ex.fresh_int(s, 'status', 0, hi)
            gset(s, 'status', v)
            return v
        for null in (0, 1):
            W = Typed(t, tr)
            ex, st = W.ex, W.st
            p = W.stub(1)
            told = lambda s, r: ex.prove(s, 'publish/result', eq(r, gget(s, 'status')), 'the result is not the one of the call')
            iv = value(W, st, null)
            W.inp = iv

            def to(ty, pay=True, made=None):
                def h(s, o, op, *rest):
                    ex.prove(s, 'publish/what', eq(W.op(s, op), stl.str_id(OPS[ty])), 'another operation is meant')
                    if made is not None:
                        q = rp(ex, s, as_ptr(rest[0]))
                        ex.prove(s, 'publish/a-payload', bnot(eq(q.base, 0)), 'nothing is published')
                        if not ex.entails(s, bnot(eq(q.base, 0))):
                            return result(s)
                        ex.prove(s, 'publish/type', W.made_data(s, q, ty), 'a value of another type is published')
                        v = rp(ex, s, q.at(W.data_rec(ty)[1]))
                        ex.prove(s, 'publish/made', eq(rd(ex, s, v), made), 'another value is published than the one that was given')
                    elif rest:
                        sent_payload(W, s, rest[0], ty if pay else None, iv)
                    return result(s)
                return h
            one(W, st.clone(), 'setStatus', told, W.fn(SB, 'setStatus', r'setStatus<%s, true>|setStatus<%s>\(std::shared_ptr' % (TYPES['St'], TYPES['St'])), [p, iv], 'setStatus', setStatus=to('St'))
            one(W, st.clone(), 'broadcastSignal', told, W.fn(SB, 'broadcastSignal', r'broadcastSignal<%s, true>|broadcastSignal<%s>\(std::shared_ptr' % (TYPES['Attr'], TYPES['Attr'])), [p, iv], 'broadcastSignal', broadcastSignal=to('Attr'))
            if null:
                continue
            one(W, st.clone(), 'broadcastSignal', told, W.fn(SB, 'broadcastSignal', TYPES['bell']), [p], 'broadcastSignal(nothing)', broadcastSignal=to('bell', False))
            a = t.obj(st, 'number')
            n = rd(ex, st, a)
            for ty, k in (('St', 'setStatus'), ('Attr', 'broadcastSignal')):
                one(W, st.clone(), k, told, W.fn(SB, k, r'%s<%s, unsigned long' % (k, TYPES[ty])), [p, a], k + '(made)', **{k: to(ty, made=n)})
            b = ex.fresh_int(st, 'notify', 0, 1)

            def removed(s, o, op, notify):
                ex.prove(s, 'remove/what', eq(W.op(s, op), gget(s, 'op')), 'another property is removed')
                ex.prove(s, 'remove/notify', eq(notify if not isinstance(notify, bool) else int(notify), b), 'observers are told otherwise than asked for')
                return result(s)
            s1 = st.clone()
            gset(s1, 'op', stl.str_id(OPS['St']))
            one(W, s1, 'removeProperty', told, W.fn(SB, 'removeProperty', TYPES['St']), [p, b], 'removeProperty', removeProperty=removed)
            s1 = st.clone()
            op = t.obj(s1, 'operation')
            gset(s1, 'op', get_str(ex, s1, op))
            one(W, s1, 'removeProperty', told, W.fn(SB, 'removeProperty', r'removeProperty\('), [p, op, b], 'removeProperty(id)', removeProperty=removed)

            def gone(s, o, op):
                ex.prove(s, 'unregister/what', eq(W.op(s, op), gget(s, 'op')), 'the handler of another request is removed')
                return result(s, 1)
            s1 = st.clone()
            gset(s1, 'op', stl.str_id(OPS['In']))
            one(W, s1, 'unregisterRequestHandler', told, W.fn(SB, 'unregisterRequestHandler', 'go_request'), [p], 'unregisterRequestHandler', unregisterRequestHandler=gone)
            s1 = st.clone()
            op = t.obj(s1, 'operation')
            gset(s1, 'op', get_str(ex, s1, op))
            one(W, s1, 'unregisterRequestHandler', told, W.fn(SB, 'unregisterRequestHandler', r'unregisterRequestHandler\('), [p, op], 'unregisterRequestHandler(id)', unregisterRequestHandler=gone)
            one(W, st.clone(), 'startServing', lambda s, r: None, W.fn(SB, 'startServing'), [p], 'startServing', startServing=lambda s, o: None)
            one(W, st.clone(), 'stopServing', lambda s, r: None, W.fn(SB, 'stopServing'), [p], 'stopServing', stopServing=lambda s, o: None)
            one(W, st.clone(), 'availability', told, W.fn(SB, 'availability'), [p], 'availability', availability=lambda s, o: result(s, 2))
            t.run(W.fn(SB, 'serviceID'), st.clone(), [p], lambda s, r: ex.prove(s, 'forward/id', ex.ptr_eq(r, W.sid), 'another id is told'), cover='serviceID')
            t_parts(W, SB, 'provider_', 'PvMock', p)
    return task


def t_present(tr):
    """getStatus, cloneStatus of a stub"""
    def task(t):
        t.need('told: none', 'told: data', 'copied', 'default')
        for clone in (0, 1):
            for k in ('none', 'data'):
                W = Typed(t, tr)
                ex, st = W.ex, W.st
                p = W.stub(1)
                out = t.obj(st, 'result')

                def asked(s, o, op, k=k):
                    ex.prove(s, 'present/what', eq(W.op(s, op), stl.str_id(OPS['St'])), 'another property is asked for')
                    a = W.payload(s, k, 'St')
                    if k == 'data' and clone:
                        v = gget(s, 'value')
                        # the place of the result is not part of the published value
                        ex.assume(s, bnot(eq(v.base, out.base)))
                        gset(s, 'number', rd(ex, s, v))
                    ex.write(s, o, 'm', 8, rp(ex, s, a))
                    ex.write(s, o.at(8), 'm', 8, rp(ex, s, a.at(8)))
                    return None

                def post(s, r):
                    if not clone:
                        return W.expect_value(s, out)
                    q = rp(ex, s, out)
                    ex.prove(s, 'clone/made', bnot(eq(q.base, 0)), 'no copy is made')
                    n = rd(ex, s, q)
                    v = gget(s, 'value')
                    if k == 'none' or ex.entails(s, eq(v.base, 0)):
                        ex.mark('default')
                        ex.prove(s, 'clone/default', eq(n, 0), 'the value of a property without a status is not the default')
                    else:
                        ex.mark('copied')
                        ex.prove(s, 'clone/copy', band(bnot(ex.ptr_eq(q, v)), bnot(eq(v.base, 0))), 'the published value itself is handed out to be changed')
                        ex.prove(s, 'clone/equal', eq(n, gget(s, 'number')), 'the copy differs from the published value')
                one(W, st, 'getStatus', post, W.fn(SB, 'cloneStatus' if clone else 'getStatus', r'Status<%s, true>' % TYPES['St']), [out, p], ('clone ' if clone else 'get ') + k, getStatus=asked)
    return task


def t_handler(tr, ty):
    """registerRequestHandler: one job per request; the request is answered exactly once"""
    def task(t):
        t.need('refused', 'asked', 'executor refuses', 'answered', 'taken', 'ignored', 'gone')
        for executor in (1, 0):
            W = Typed(t, tr)
            ex, st = W.ex, W.st
            p = W.stub(executor)
            cb = W.callback(st, 0)

            def asked(s, o, op, fn):
                ex.prove(s, 'handler/what', eq(W.op(s, op), stl.str_id(OPS[ty])), 'the handler is for another request')
                gset(s, 'wrapped', W.capture(s, as_ptr(fn)))
                v = ex.fresh_int(s, 'result', 0, 1)
                gset(s, 'result', v)
                return eq(v, 1)
            W.on_registerRequestHandler = asked

            def handle(s, a):
                a = as_ptr(a)
                k = ex.choose(s, 4)
                q = rp(ex, s, a)
                ex.prove(s, 'handler/that-request', ex.ptr_eq(q, W.o['RqMock']), 'the handler gets another request')
                gset(s, 'did', ('answered', 'taken', 'ignored', 'gone')[k])
                if k == 0:
                    gset(s, 'answers', 1)
                    gset(s, 'valid', 0)
                if k == 1:
                    ex.write(s, a, 'm', 8, NULL)
                    ex.write(s, a.at(8), 'm', 8, NULL)
                if k == 3:
                    gset(s, 'valid', 0)
                return None
            W.on_call = handle

            def post(s, r):
                ex.prove(s, 'calls/not-yet', gget(s, 'calls') == 0, 'the handler is called before anything came')
                n = gget(s, 'registerRequestHandler', 0)
                if not executor:
                    ex.mark('refused')
                    ex.prove(s, 'handler/refused', band(n == 0, bnot(eq(r, 1))), 'a handler is registered that nobody runs')
                    return
                ex.mark('asked')
                ex.prove(s, 'handler/once', n == 1, 'not exactly one handler is registered')
                if n != 1:
                    return
                ex.prove(s, 'handler/result', eq(r, gget(s, 'result')), 'the result is not the one of the call')
                s1 = s.clone()
                rq = W.sp(s1, W.o['RqMock'], W.c['RqMock'], 'request')

                def handed(s2, r2):
                    ex.prove(s2, 'handler/one-job', gget(s2, 'jobs') + gget(s2, 'refused') == 1, 'a request does not make exactly one job')
                    ex.prove(s2, 'handler/not-here', gget(s2, 'calls') == 0, 'the handler is called on the thread of the transport')
                    if gget(s2, 'refused'):
                        ex.mark('executor refuses')
                        ex.prove(s2, 'handler/refused-is-answered', eq(gget(s2, 'answers'), 1), 'a request whose handler cannot be run is not answered')
                        if gget(s2, 'answers') == 1:
                            ex.prove(s2, 'handler/refused-is-an-error', le(0, gget(s2, 'answer code')), 'a request whose handler cannot be run is answered otherwise than by an error')
                        return
                    ex.prove(s2, 'handler/not-answered-yet', eq(gget(s2, 'answers'), 0), 'the request is answered before its handler ran')
                    if gget(s2, 'jobs') != 1:
                        return

                    def after(s3, r3):
                        k = gget(s3, 'did')
                        ex.prove(s3, 'handler/called-once', gget(s3, 'calls') == 1, 'the handler is not called exactly once')
                        if gget(s3, 'calls') != 1:
                            return
                        ex.mark(k)
                        ex.prove(s3, 'handler/answered-once', eq(gget(s3, 'answers'), {'answered': 1, 'taken': 0, 'ignored': 1, 'gone': 0}[k]), 'a request is answered twice, or never, or although its handler kept it')
                        if k == 'ignored' and gget(s3, 'answers') == 1:
                            ex.prove(s3, 'handler/ignored', eq(gget(s3, 'answer code'), EC['ResponseIgnored']), 'a request that its handler ignored is answered otherwise')
                    t.run(call_op(t), s2, [gget(s2, 'job')], after, cover='handler, job')
                t.run(fn_op(t, r'std::function<void \(std::shared_ptr<maf::messaging::RequestIF> const&\)>::operator'), s1, [gget(s1, 'wrapped'), rq], handed, cover='request')
            t.run(W.fn(SB, 'registerRequestHandler', r'registerRequestHandler<%s' % TYPES[ty]), st, [p, cb], post, cover='handler%d' % executor)
    return task


def t_notified(tr, ty):
    """registerNotification"""
    def task(t):
        void = ty == 'bell'
        t.need('executor refuses', 'called', *([] if void else ['told: data']))
        W = Typed(t, tr)
        ex, st = W.ex, W.st
        p = W.stub(1)
        cb = W.callback(st, 0)
        out = t.obj(st, 'connection')

        def asked(s, o, op, fn):
            ex.prove(s, 'notify/what', eq(W.op(s, op), stl.str_id(OPS[ty])), 'another operation is watched')
            gset(s, 'wrapped', W.capture(s, as_ptr(fn)))
            for k in (0, 8):
                v = ex.fresh_int(s, 'connection', 0, (1 << 64) - 1)
                gset(s, 'connection%d' % k, v)
                ex.write(s, o.at(k), 'm', 8, v)
            return None
        W.on_registerNotification = asked

        def told(s, a=None):
            if not void:
                W.expect_value(s, as_ptr(a))
            return None
        W.on_call = told

        def post(s, r):
            ex.prove(s, 'calls/not-yet', gget(s, 'calls') == 0, 'the callback is called before anything came')
            n = gget(s, 'registerNotification', 0)
            ex.prove(s, 'notify/once', n == 1, 'not exactly one callback is registered')
            if n != 1:
                return
            for k in ('none', 'data') if not void else ('none',):
                s1 = s.clone()
                pl = W.payload(s1, k, ty)
                maybe = k == 'none' and not void
                # the provider calls one and the same callback again and again
                delivered(W, s1, gget(s, 'wrapped'), pl, 'notified: ' + k, void, maybe, lambda s2, pl=pl, k=k, maybe=maybe: delivered(W, s2, gget(s, 'wrapped'), pl, 'notified again: ' + k, void, maybe))
        t.run(W.fn(SB, 'registerNotification', r'registerNotification<%s' % TYPES[ty]), st, [out, p, cb], post, cover='registerNotification')
    return task


# ------------------------------------------------------------------ requests as handlers see them
def t_request(tr):
    def task(t):
        t.need('ignored', 'empty', 'already answered', 'assigned over')
        W = Typed(t, tr)
        ex, st = W.ex, W.st
        rec = re.escape('%s<%s%s, %s>' % (RQ, N, W.rx, TYPES['In']))
        D = t.off(rec, 'delegate_')

        def request(st, empty, o='RqMock', name='a request'):
            q = t.obj(st, name)
            ex.write(st, q.at(D), 'm', 8, NULL if empty else W.o[o])
            ex.write(st, q.at(D + 8), 'm', 8, NULL if empty else W.c[o])
            return q

        def fn(name, *rx):
            return W.fn(RQ, name, re.escape(TYPES['In']), *rx)

        def ignored(s, n, what):
            ex.prove(s, 'ignored/answered-once', eq(gget(s, 'answers'), n), what)
            if n and gget(s, 'answers') == n:
                ex.prove(s, 'ignored/how', eq(gget(s, 'answer code'), EC['ResponseIgnored']), 'it is answered otherwise than as ignored')
        # the end of a request
        for empty, valid in ((1, 0), (0, 0), (0, 1)):
            s = st.clone()
            q = request(s, empty)
            gset(s, 'valid', valid)

            def post(s1, r):
                ex.mark('empty' if empty else 'ignored' if valid else 'already answered')
                ignored(s1, 1 if valid else 0, 'a request that goes away without an answer is not answered exactly once' if valid else 'a request that is over is answered once more')
            t.run(fn('~RequestT'), s, [q], post, cover='end %d%d' % (empty, valid))
        # moving
        s = st.clone()
        q, q2 = request(s, 0), t.obj(s, 'the other')

        def moved(s1, r):
            ex.prove(s1, 'move/over', W.same_sp(s1, q2.at(D), W.o['RqMock'], W.c['RqMock']), 'the request is not moved over')
            ex.prove(s1, 'move/gone', eq(rp(ex, s1, q.at(D)).base, 0), 'two hold the same request')
            ignored(s1, 0, 'a request is answered because it was moved')
        t.run(fn('RequestT', r'RequestT\(maf::messaging::RequestT<.*&&\)'), s, [q2, q], moved, cover='move')
        W.o['Rq2'], W.c['Rq2'] = W.mock(st, 'RqMock', 'another request')
        for valid, empty in ((0, 0), (1, 0), (0, 1)):
            s = st.clone()
            q, q2 = request(s, 0, 'Rq2'), request(s, empty, name='a request to lose')
            gset(s, 'valid', valid)

            def assigned(s1, r):
                ex.mark('assigned over')
                ex.prove(s1, 'assign/over', W.same_sp(s1, q2.at(D), W.o['Rq2'], W.c['Rq2']), 'the request is not moved over')
                ex.prove(s1, 'assign/gone', eq(rp(ex, s1, q.at(D)).base, 0), 'two hold the same request')
                ignored(s1, valid, 'a request that is replaced by another is never answered' if valid else 'a request that is over is answered once more')
            t.run(fn('operator='), s, [q2, q], assigned, cover='assign %d%d' % (valid, empty))
        # asking
        for empty in (0, 1):
            s = st.clone()
            q = request(s, empty)
            v = ex.fresh_int(s, 'valid', 0, 1)
            gset(s, 'valid', v)
            t.run(fn('valid'), s, [q], lambda s1, r, v=v: ex.prove(s1, 'valid/told', eq(as_bool(r), False if empty else eq(v, 1)), 'a request says otherwise whether it waits for an answer'), cover='valid %d' % empty)
        s = st.clone()
        q = request(s, 0)
        out = t.obj(s, 'result')
        told = lambda s1, r: ex.prove(s1, 'ask/told', eq(r, gget(s1, 'told')), 'another answer is told than the one of the request')

        def number(s1, hi):
            v = ex.fresh_int(s1, 'number', 0, hi)
            gset(s1, 'told', v)
            return v
        W.req_getOperationCode = lambda s1, o: number(s1, 10)
        t.run(fn('getOperationCode'), s.clone(), [q], told, cover='code')
        t.run(fn('getOperationID'), s.clone(), [q], lambda s1, r: ex.prove(s1, 'ask/id', ex.ptr_eq(r, W.opid), 'another operation is told'), cover='id')

        def rid(s1, o):
            v = number(s1, (1 << 64) - 1)
            if o is not None:
                ex.write(s1, o, 'm', 8, v)
                set_str(ex, s1, o.at(8), ex.fresh_int(s1, 'rid', 0, (1 << 40)))
                return None
            return v
        W.req_getRequestID = rid
        f = fn('getRequestID')
        f.parse()
        sret = f.params and 'sret' in f.params[0][2]
        t.run(f, s.clone(), ([out] if sret else []) + [q], lambda s1, r: ex.prove(s1, 'ask/rid', eq(rd(ex, s1, out) if sret else r, gget(s1, 'told')), 'another number is told'), cover='rid')
        # answering
        for k, n in (('respond', 'answers'), ('update', 'updates')):
            def said(s1, r, n=n):
                ex.prove(s1, 'answer/once', gget(s1, n) == 1 and gget(s1, 'answers') + gget(s1, 'updates') == 1, 'not exactly one answer is given')
                if gget(s1, n) == 1:
                    ex.prove(s1, 'answer/result', eq(r, gget(s1, 'result')), 'the result is not the one of the call')
            for null in (0, 1):
                s1 = s.clone()
                iv = value(W, s1, null)

                def said_value(s2, r, said=said, iv=iv):
                    said(s2, r)
                    sent_payload(W, s2, W.sp(s2, gget(s2, 'answer'), gget(s2, 'answer ctl', NULL), 'answer'), 'Out', iv)
                t.run(fn(k, r'%s<%s' % (k, TYPES['Out'])), s1, [q, iv], said_value, cover=k)
            t.run(fn(k, k + r'\(\)'), s.clone(), [q], lambda s1, r, said=said: (said(s1, r), ex.prove(s1, 'answer/nothing', eq(gget(s1, 'answer').base, 0), 'something is answered')), cover=k + '(nothing)')
        err = value(W, s, 0, 'an error')
        W.kinds[rp(ex, s, err).base.get_id()] = signalspec.vtable(t, r'vtable for maf::messaging::CSError$').at(16)
        ex.write(s, rp(ex, s, err), 'm', 8, signalspec.vtable(t, r'vtable for maf::messaging::CSError$').at(16))
        t.run(fn('error', r'std::shared_ptr<maf::messaging::CSError>'), s.clone(), [q, err], lambda s1, r: (
            ex.prove(s1, 'error/once', gget(s1, 'answers') == 1, 'not exactly one answer is given'),
            ex.prove(s1, 'error/that', ex.ptr_eq(gget(s1, 'answer'), rp(ex, s1, err)) if gget(s1, 'answers') == 1 else False, 'another error is answered'),
            ex.prove(s1, 'error/result', eq(r, gget(s1, 'result', -1)), 'the result is not the one of the call')), cover='error')
        d = t.obj(s, 'description')
        ec = ex.fresh_int(s, 'code', 0, 9)
        t.run(fn('error', r'basic_string'), s.clone(), [q, d, ec], lambda s1, r: (
            ex.prove(s1, 'error/once', gget(s1, 'answers') == 1, 'not exactly one answer is given'),
            ex.prove(s1, 'error/code', eq(gget(s1, 'answer code', -1), ec), 'another error is answered'),
            ex.prove(s1, 'error/result', eq(r, gget(s1, 'result', -1)), 'the result is not the one of the call')), cover='error(text)')
    return task


def as_bool(r):
    return r if isinstance(r, bool) or not isinstance(r, int) and not hasattr(r, 'sort') else bnot(eq(r, 0))


def t_input(tr):
    """getInput"""
    def task(t):
        ks = [k for k in KINDS[tr] if tr == 'local' or k != 'error']
        t.need(*['told: ' + k for k in TOLD[tr] if tr == 'local' or k != 'error'])
        for k in ks:
            W = Typed(t, tr)
            ex, st = W.ex, W.st
            rec = re.escape('%s<%s%s, %s>' % (RQ, N, W.rx, TYPES['In']))
            q, out = t.obj(st, 'a request'), t.obj(st, 'result')
            a = q.at(t.off(rec, 'delegate_'))
            ex.write(st, a, 'm', 8, W.o['RqMock'])
            ex.write(st, a.at(8), 'm', 8, W.c['RqMock'])

            def asked(s, o, k=k):
                gset(s, 'asked', gget(s, 'asked', 0) + 1)
                b = W.payload(s, k, 'In')
                ex.write(s, o, 'm', 8, rp(ex, s, b))
                ex.write(s, o.at(8), 'm', 8, rp(ex, s, b.at(8)))
                return None
            W.req_getInput = asked

            def post(s, r):
                ex.prove(s, 'input/asked', gget(s, 'asked', 0) >= 1, 'the input is not asked for')
                if gget(s, 'asked', 0):
                    W.expect_value(s, out)
            t.run(W.fn(RQ, 'getInput', re.escape(TYPES['In'])), st.clone(), [out, q], post, cover='input ' + k)
            if k == 'none':
                t.run(W.fn(RQ, 'getInput', re.escape(TYPES['ping'])), st, [out, q], lambda s, r: ex.prove(s, 'input/none', eq(rp(ex, s, out).base, 0), 'a request without an input has one'), cover='input of nothing')
    return task


def t_aborted(tr):
    """onAborted: with an executor an abort makes one job, which is the callback"""
    def task(t):
        t.need('called', 'executor refuses')
        for executor in (1, 0):
            W = Typed(t, tr)
            ex, st = W.ex, W.st
            rec = re.escape('%s<%s%s, %s>' % (RQ, N, W.rx, TYPES['In']))
            q = t.obj(st, 'a request')
            a = q.at(t.off(rec, 'delegate_'))
            ex.write(st, a, 'm', 8, W.o['RqMock'])
            ex.write(st, a.at(8), 'm', 8, W.c['RqMock'])
            cb = W.callback(st, 0)
            gset(st, 'executor', W.o['ExMock'])

            def asked(s, o, fn):
                gset(s, 'asked', gget(s, 'asked', 0) + 1)
                gset(s, 'wrapped', W.capture(s, as_ptr(fn)))
                return None
            W.req_onAborted = asked
            xp = W.sp(st, W.o['ExMock'], W.c['ExMock'], 'executor pointer')

            def post(s, r):
                n = gget(s, 'asked', 0)
                ex.prove(s, 'abort/once', n == 1 and gget(s, 'calls') == 0, 'not exactly one callback is given to the request')
                if n != 1:
                    return

                def handed(s2, r2):
                    if executor:
                        ex.prove(s2, 'abort/one-job', gget(s2, 'jobs') + gget(s2, 'refused') == 1 and gget(s2, 'calls') == 0, 'an abort does not make exactly one job')
                        if gget(s2, 'refused'):
                            return ex.mark('executor refuses')
                        if gget(s2, 'jobs') != 1:
                            return
                        t.run(call_op(t), s2, [gget(s2, 'job')], called, cover='abort, job')
                    else:
                        called(s2, r2)

                def called(s3, r3):
                    ex.mark('called')
                    ex.prove(s3, 'abort/called-once', gget(s3, 'calls') == 1, 'the callback is not called exactly once')
                t.run(call_op(t), s, [gget(s, 'wrapped')], handed, cover='abort%d' % executor)
            f = W.fn(RQ, 'onAborted', re.escape(TYPES['In']), r'ExecutorIF' if executor else r'onAborted\(std::function<void \(\)>\)')
            t.run(f, st, [q, cb] + ([xp] if executor else []), post, cover='onAborted%d' % executor)
    return task


def t_response(t):
    """what a response says about itself"""
    for i, k in ((0, 'value'), (1, 'error'), (2, 'nothing')):
        ex = t.ex
        st = t.state()
        q, out = t.obj(st, 'response'), t.obj(st, 'result')
        p, c = t.obj(st, 'object'), t.obj(st, 'ctl')
        stl.mark_alive(ex, st, c)
        ex.write(st, q, 'm', 8, p)
        ex.write(st, q.at(8), 'm', 8, c)
        ex.write(st, q.at(16), 'm', 1, i)
        fn = lambda m: t.fn(RS + '::' + m, r'go_request::output')
        for m, w in (('isOutput', i == 0), ('isError', i == 1), ('hasValue', i != 2)):
            t.run(fn(m), st.clone(), [q], lambda s, r, w=w, m=m: ex.prove(s, 'response/' + m, eq(as_bool(r), w), 'a response says otherwise what it is'), cover=m)
        for m, w in (('getOutput', i == 0), ('getError', i == 1)):
            t.run(fn(m), st.clone(), [out, q], lambda s, r, w=w, m=m: ex.prove(s, 'response/' + m, ex.ptr_eq(rp(ex, s, out), p) if w else eq(rp(ex, s, out).base, 0), 'a response hands out something else than it holds'), cover=m)


def t_ids(t):
    """the operation that a value belongs to"""
    ex = t.ex
    f = lambda ty: t.fn(N + 'ParamTraitBase::getOperationID', r'getOperationID<%s(?: const)?>\(.*\*\)' % TYPES[ty])
    for ty in ('In', 'Out'):
        st = t.state()
        out, q = t.obj(st, 'result'), t.obj(st, 'value')
        t.run(f(ty), st.clone(), [out, q], lambda s, r, ty=ty: ex.prove(s, 'id/of-value', eq(get_str(ex, s, out), stl.str_id(OPS[ty])), 'a value belongs to another operation'), cover=ty)
        t.run(f(ty), st.clone(), [out, NULL], lambda s, r: ex.prove(s, 'id/of-nothing', eq(get_str(ex, s, out), stl.str_id('')), 'nothing belongs to an operation'), cover=ty + ' null')
    st = t.state()
    a, b = t.obj(st, 'input'), t.obj(st, 'output')
    g = t.fn(N + 'ParamTraitBase::isSameOpID')
    t.run(g, st.clone(), [a, b], lambda s, r: ex.prove(s, 'id/same', as_bool(r), 'input and output of one operation belong to different ones'), cover='same')


def t_create(tr, cls):
    """createProxy, createStub"""
    def task(t):
        t.need('made', 'none')
        W = Typed(t, tr)
        ex, st = W.ex, W.st
        px = cls == PX
        field, mock, get = ('requester_', 'RrMock', 'getServiceRequester') if px else ('provider_', 'PvMock', 'getServiceProvider')
        W.rec = re.escape('%s<%s%s>' % (cls, N, W.rx))
        ct, ad, sid, out = (t.obj(st, n) for n in ('connection type', 'address', 'service id', 'result'))
        x = W.sp(st, W.o['ExMock'], W.c['ExMock'], 'executor')
        ob = value(W, st, 0, 'observer')
        gset(st, 'observer', rp(ex, st, ob))

        def asked(ex, st, c):
            k = ex.choose(st, 2)
            gset(st, 'asked', gget(st, 'asked', 0) + 1)
            a = [as_ptr(v) for v in c.args]
            ex.prove(st, 'create/which', band(ex.ptr_eq(a[1], ct), ex.ptr_eq(a[2], ad), ex.ptr_eq(a[3], sid)), 'another service is asked for')
            gset(st, 'there', k)
            ex.write(st, a[0], 'm', 8, W.o[mock] if k else NULL)
            ex.write(st, a[0].at(8), 'm', 8, W.c[mock] if k else NULL)
            return None
        ex.contracts[N + 'csmgmt::' + get] = asked
        ex.contracts[N + 'Address::dump'] = ex.contracts[N + 'ParamTraitBase::dump']

        def observed(s, o, a):
            ex.prove(s, 'create/observer', ex.ptr_eq(rp(ex, s, as_ptr(a)), gget(s, 'observer')), 'another observer is registered')
            return None
        W.on_registerServiceStatusObserver = observed

        def post(s, r):
            q = rp(ex, s, out)
            ex.prove(s, 'create/asked', gget(s, 'asked', 0) == 1, 'the service is not asked for exactly once')
            if not gget(s, 'asked', 0):
                return
            if not gget(s, 'there'):
                ex.mark('none')
                ex.prove(s, 'create/none', eq(q.base, 0), 'something is made without a service')
                return
            ex.mark('made')
            ex.prove(s, 'create/made', bnot(eq(q.base, 0)), 'nothing is made')
            if isc(q.base) and q.base == 0:
                return
            ex.prove(s, 'create/party', W.same_sp(s, q.at(t.off(W.rec, field)), W.o[mock], W.c[mock]), 'it works for another service')
            ex.prove(s, 'create/executor', W.same_sp(s, q.at(t.off(W.rec, 'executor_')), W.o['ExMock'], W.c['ExMock']), 'another executor is used')
            if px:
                ex.prove(s, 'create/observed', gget(s, 'registerServiceStatusObserver', 0) == 1, 'the observer is not registered exactly once')
        t.run(W.fn(cls, 'createProxy' if px else 'createStub'), st, [out, ct, ad, sid, x] + ([ob] if px else []), post, cover='create')
    return task


def t_async(t):
    """an observer that posts what it learns to a processor"""
    t.need('posted', 'gone')
    ex = t.ex
    st = t.state()
    rec = N + 'AsyncServiceStatusObserver'
    q, sid, cp, cc = (t.obj(st, n) for n in ('observer', 'service id', 'processor', 'processor ctl'))
    a = q.at(t.off(rec, '_wpcomp'))
    ex.write(st, a, 'm', 8, cp)
    ex.write(st, a.at(8), 'm', 8, cc)
    for k in ('old', 'new'):
        gset(st, k, ex.fresh_int(st, k, 0, 2))

    def locked(ex, st, v):
        k = ex.choose(st, 2)
        gset(st, 'alive', k)
        return bool(k)
    ex.hooks['weak_lock'] = locked

    def posted(ex, st, c):
        ex.prove(st, 'post/processor', ex.ptr_eq(as_ptr(c.args[0]), cp), 'another processor is told')
        d = rp(ex, st, as_ptr(c.args[1]).at(8))
        m = N + 'ServiceStatusMsg'
        gset(st, 'posts', gget(st, 'posts', 0) + 1)
        ex.prove(st, 'post/service', eq(get_str(ex, st, d.at(t.off(m, 'serviceID'))), get_str(ex, st, sid)), 'another service is named')
        for f, g in (('oldStatus', 'old'), ('newStatus', 'new')):
            ex.prove(st, 'post/' + g, eq(rd(ex, st, d.at(t.off(m, f)), 1), gget(st, g)), 'another status is posted')
        return ex.fresh_int(st, 'posted', 0, 1)
    ex.contracts[N + 'Processor::post'] = lambda ex, st, c: posted(ex, st, c) if 'any' in t.ex.mods[0].demangle(c.name) and '<' not in t.ex.mods[0].demangle(c.name) else '$body'

    def post(s, r):
        ex.mark('posted' if gget(s, 'alive', 0) else 'gone')
        ex.prove(s, 'post/once', gget(s, 'posts', 0) == gget(s, 'alive', 0), 'a change is not posted exactly once')
    t.run(t.fn(rec + '::onServiceStatusChanged'), st, [q, sid, gget(st, 'old'), gget(st, 'new')], post, cover='changed')


TASKS = []
for tr in TRAITS:
    TASKS += [('%s: registerStatus' % tr, t_watch(tr, 'registerStatus', 'St')),
              ('%s: registerSignal' % tr, t_watch(tr, 'registerSignal', 'Attr')),
              ('%s: registerSignal(nothing)' % tr, t_watch(tr, 'registerSignal', 'bell', True)),
              ('%s: getStatus(callback)' % tr, t_watch(tr, 'getStatus', 'St')),
              ('%s: getStatus' % tr, t_get(tr)),
              ('%s: sendRequestAsync(input)' % tr, t_send(tr, 'Out', True)),
              ('%s: sendRequestAsync' % tr, t_send(tr, 'Out', False)),
              ('%s: sendRequestAsync(nothing)' % tr, t_send(tr, 'ping', False)),
              ('%s: sendRequest(input)' % tr, t_sync(tr, 'Out', True)),
              ('%s: sendRequest' % tr, t_sync(tr, 'Out', False)),
              ('%s: sendRequest(nothing)' % tr, t_sync(tr, 'ping', False)),
              ('%s: what a proxy passes on' % tr, t_forward(tr)),
              ('%s: onServiceStatusChanged' % tr, t_observe(tr)),
              ('%s: what a stub publishes' % tr, t_publish(tr)),
              ('%s: status of a stub' % tr, t_present(tr)),
              ('%s: registerRequestHandler' % tr, t_handler(tr, 'In')),
              ('%s: registerRequestHandler(nothing)' % tr, t_handler(tr, 'ping')),
              ('%s: registerNotification' % tr, t_notified(tr, 'St')),
              ('%s: registerNotification(nothing)' % tr, t_notified(tr, 'bell')),
              ('%s: requests' % tr, t_request(tr)),
              ('%s: input of a request' % tr, t_input(tr)),
              ('%s: onAborted' % tr, t_aborted(tr)),
              ('%s: createProxy' % tr, t_create(tr, PX)),
              ('%s: createStub' % tr, t_create(tr, SB))]
TASKS += [('responses', t_response), ('operation ids', t_ids), ('observer that posts', t_async)]

"""Contracts of clients of services: C03.

The transport, the callbacks of the user, the contents of messages and the observers are stand-ins that obey
contracts; callbacks and observers are arbitrary and must be called with no lock held."""
from spec import *
from stl import as_ptr, get_str, set_str
import signalspec, re
from provspec import Msgs, rd, rp, same, vtable2, OPC, ST, N, MSG, CSD

TUS = ['@service.cpp'] + [CSD + x for x in ('ServiceRequester.cpp', 'CSMessage.cpp', 'CSError.cpp', 'Address.cpp')]
SR = N + 'ServiceRequester'
RID = N + 'RegID'
INV = (1 << 64) - 1
AV = {'Unavailable': 0, 'Available': 1, 'Unknown': 2}
MAPS = ('registerEntriesMap_', 'requestEntriesMap_', 'propertiesCache_')


class Tracked:
    """where an arbitrary but fixed element X is in a list (-1: nowhere), followed structurally through changes;
    lists of the table hold X at most once"""

    def __init__(self):
        self.px = {}

    def isx(self, st, nd):
        raise NotImplementedError

    def posx(self, st, S):
        ex = self.ex
        if isinstance(S, stl.SeqEmpty):
            return -1
        if isinstance(S, stl.SeqCopy):
            return self.posx(st, S.src)
        if isinstance(S, stl.SeqIns):
            j = self.posx(st, S.par)
            return ite(self.isx(st, S.base), S.p, ite(le(S.p, j), add(j, 1), j))
        if isinstance(S, stl.SeqDel):
            j = self.posx(st, S.par)
            return ite(eq(j, S.p), -1, ite(lt(S.p, j), sub(j, 1), j))
        if isinstance(S, stl.SeqCat):
            a, b = self.posx(st, S.a), self.posx(st, S.b)
            return ite(le(0, a), a, ite(le(0, b), add(b, S.a.n), -1))
        if isinstance(S, stl.SeqInit):
            c = self.px.get(S.uid)
            if c is None:
                c = self.px[S.uid] = z3.Int('posx:' + S.uid)
            ex.assume(st, band(c >= -1, lt(c, S.n)))
            return c
        raise Unsupported('position in this list')

    def tracked(self, ex, st, S, i, nd):
        if S.kr is None:
            p = self.posx(st, S)
            ex.assume(st, implies(band(le(0, i), lt(i, S.n)), eq(self.isx(st, nd), eq(p, i))))

    def vecs(self, st, rec, fi):
        """lists that a loop builds"""
        out = []
        for sl in rec.slots:
            if getattr(sl, 'kind', None) == 'seq':
                S = sl.get(self.ex, st, fi)
                if isinstance(S, stl.Seq) and S.kr is None:
                    out.append(sl)
        return out


class Reqr(Msgs, Tracked):
    """a requester in an arbitrary state"""

    def __init__(self, t):
        Msgs.__init__(self, t)
        Tracked.__init__(self)
        ex = self.ex
        ex.gfld['same_region'] = True
        install_opaque(ex)
        self.st = st = t.state()
        self.this = t.obj(st, 'requester')
        self.mtx, self.map = {}, {}
        for k in MAPS + ('serviceStatusObservers_',):
            self.mtx[k] = self.this.at(t.off(SR, k + '._mutex'))
            self.map[k] = self.this.at(t.off(SR, k + '._protected'))
        ex.write(st, self.this, 'm', 8, signalspec.vtable(t, r'vtable for maf::messaging::ServiceRequester$').at(16))
        ex.write(st, self.this.at(8), 'm', 8, vtable2(t, r'vtable for maf::messaging::ServiceRequester$'))
        self.sid = self.this.at(t.off(SR, 'sid_'))
        self.status = self.this.at(t.off(SR, 'serviceStatus_'))
        self.ids = self.this.at(t.off(SR, 'idMgr_'))
        self.av0 = rd(ex, st, self.status, 1)
        ex.assume(st, le(self.av0, 2))
        self.c0 = rd(ex, st, self.ids)
        # the counter does not wrap around
        ex.assume(st, lt(self.c0, (1 << 63)))
        cl = self.this.at(t.off(SR, 'client_'))
        self.cl, self.clctl = t.obj(st, 'client'), t.obj(st, 'clientctl')
        ex.write(st, self.cl, 'm', 8, signalspec.vtable(t, r'vtable for ClMock$').at(16))
        ex.write(st, cl, 'm', 8, self.cl)
        ex.write(st, cl.at(8), 'm', 8, self.clctl)
        ex.contracts['ClMock::sendMessageToServer'] = self.send
        ex.contracts['PlMock::clone'] = self.clone
        ex.contracts['ObMock::onServiceStatusChanged'] = self.observe
        ex.hooks['weak_lock'] = self.weak_lock
        ex.hooks['lock'] = self.lock
        ex.hooks['unlock'] = self.unlock
        ex.hooks['seq_init'] = self.seq_init
        ex.hooks['seq_node'] = self.seq_node
        ex.hooks['seq_alias'] = self.alias
        ex.hooks['erased'] = self.erased
        ex.hooks['pushed'] = self.pushed
        ex.icall_hook = self.icall
        self.eid, self.ecb = t.off(SR + '::RegEntry', 'requestID'), t.off(SR + '::RegEntry', 'callback')
        self.kinds = {}
        vt = {4: signalspec.vtable(t, r'vtable for PlMock$').at(16), 5: signalspec.vtable(t, r'vtable for ObMock$').at(16)}
        ex.hooks['vptr'] = lambda ex, st, b: vt.get(self.kinds.get(b.get_id()))
        for k in ('sent', 'calls', 'callsx', 'erx', 'erases', 'clones', 'clone used'):
            gset(st, k, 0)
        gset(st, 'clone', NULL)
        gset(st, 'clone of', NULL)
        for k in MAPS:
            self.mapof(st, k)

    def kr(self, k):
        return lambda ex, st, p: (get_str(ex, st, p),)

    def mapof(self, st, k):
        return stl.get_seq(self.ex, st, self.map[k], self.kr(k))

    def observers(self, st):
        return stl.get_seq(self.ex, st, self.map['serviceStatusObservers_'])

    def which(self, p):
        for k, m in self.mtx.items():
            if eq(p.base, m.base) is True and eq(p.off, m.off) is True:
                return k

    # -- environment
    def lock(self, ex, st, p):
        k = self.which(p)
        if k is None:
            return
        n = gget(st, 'locked ' + k, 0)
        if not (isc(n) and n == 0):
            # other threads were here
            stl.set_seq(ex, st, self.map[k], stl.SeqInit(ex, st, self.kr(k) if k in MAPS else None))
        gset(st, 'locked ' + k, n + 1)
        h = getattr(self, 'locked_' + k, None)
        if h:
            h(st, n)

    def unlock(self, ex, st, p):
        k = self.which(p)
        if k is None:
            return
        h = getattr(self, 'unlocked_' + k, None)
        if h:
            h(st, gget(st, 'locked ' + k, 0) - 1)

    def weak_lock(self, ex, st, v):
        if ex.ptr_eq(as_ptr(v), self.clctl) is True:
            r = ex.choose(st, 2) == 0
            gset(st, 'client', 1 if r else 0)
            return r
        return None

    def nolock(self, ex, st, what):
        ex.prove(st, 'client/no-lock-while-' + what, not st.locks, 'foreign code runs while a lock of the requester is held')

    def send(self, ex, st, c):
        self.nolock(ex, st, 'sending')
        ex.prove(st, 'client/sends-to-its-client', ex.ptr_eq(c.args[0], self.cl))
        q = rp(ex, st, c.args[1])
        r = ex.fresh_int(st, 'sendstatus', 0, 9)
        gadd(st, 'sent')
        for k, v in self.msg(st, q).items():
            if k == 'src':
                continue
            gset(st, 'sent ' + k, v)
        ex.prove(st, 'client/message-of-this-service', eq(gget(st, 'sent sid'), get_str(ex, st, self.sid)), 'a message to another service')
        gset(st, 'sent result', r)
        gset(st, 'sent stored', gget(st, 'stored', 0))
        return r

    def clone(self, ex, st, c):
        b = ex.fresh_base(st)
        self.kinds[b if isc(b) else b.get_id()] = 4
        ex.write(st, Ptr(b, 0), 'm', 8, signalspec.vtable(self.t, r'vtable for PlMock$').at(16))
        gset(st, 'clone', Ptr(b, 0))
        gset(st, 'clone of', c.args[0])
        gset(st, 'clone used', 0)
        gadd(st, 'clones')
        return Ptr(b, 0)

    def icall(self, ex, st, p, args, ins):
        """a callback of the user"""
        self.nolock(ex, st, 'calling-back')
        gadd(st, 'calls')
        w = rd(ex, st, as_ptr(args[0]))
        a = rp(ex, st, args[1]) if len(args) > 1 else None
        gset(st, 'called', ex.as_int(p))
        gset(st, 'called w', w)
        gset(st, 'called arg', a)
        wx = gget(st, 'wx')
        if wx is not None:
            gset(st, 'callsx', add(gget(st, 'callsx'), ite(band(eq(w, wx), eq(ex.as_int(p), gget(st, 'invx'))), 1, 0)))
        h = getattr(self, 'on_call', None)
        if h:
            h(st, p, a)
        return None

    def observe(self, ex, st, c):
        raise Unsupported('no observer here')

    # -- entries
    def seq_init(self, ex, st, p, S, ep):
        S.ep = ep
        if eq(p.off, 32) is True and not isc(p.base) and S.kr is None:
            S.tag = 'entries'
            # entries made while we did not look may have later ids
            S.late = any(not isc(n) or n > 1 for n in (gget(st, 'locked ' + k, 0) for k in MAPS))

    def alias(self, ex, st, p, ep):
        return None

    def seq_node(self, ex, st, S, i, nd):
        if stl.seqtag(S) == 'entries':
            self.entry(ex, st, S, i, nd)

    def entry(self, ex, st, S, i, nd):
        """table invariant: the ids in a table are different, and were allocated before; callbacks are different objects"""
        d = rd(ex, st, Ptr(nd, self.eid))
        w = rd(ex, st, Ptr(nd, self.ecb))
        if isc(d):
            return
        zi = z3.IntVal(i) if isc(i) else i
        ex.assume(st, band(uf('IDIX:%s' % S.uid)(d) == zi, lt(d, self.c0 if not getattr(S, 'late', True) else INV)))
        if not isc(w):
            ex.assume(st, uf('CBIX:%s' % S.uid)(w) == zi)

    def erased(self, ex, st, cont, nd):
        for k in MAPS:
            m = self.map[k]
            if eq(cont.base, m.base) is True and eq(cont.off, m.off) is True:
                ex.prove(st, 'client/table-locked', bool(st.locks), 'a table is changed without its lock')
                h = getattr(self, 'erased_' + k, None)
                if h:
                    h(st, nd)
                return
        if eq(cont.off, 32) is True:
            ex.prove(st, 'client/table-locked', bool(st.locks), 'a table is changed without its lock')
            gadd(st, 'erases')
            if gget(st, 'nx') is not None:
                gset(st, 'erx', add(gget(st, 'erx'), ite(eq(nd, gget(st, 'nx')), 1, 0)))
            h = getattr(self, 'erased_entry', None)
            if h:
                h(st, cont, nd)

    def pushed(self, ex, st, this, base):
        if eq(this.off, 32) is True:
            ex.prove(st, 'client/table-locked', bool(st.locks), 'a table is changed without its lock')
            h = getattr(self, 'pushed_entry', None)
            if h:
                h(st, this, base)

    def listat(self, st, M, op):
        """(is there a list for op, its node, the list)"""
        c = M.contains(self.ex, st, (op,))
        nd = M.node(self.ex, st, M.pos(self.ex, st, (op,)))
        return c, nd

    def emptied(self, st, k, nd):
        """a list may only be dropped when it is empty"""
        S = stl.get_seq(self.ex, st, Ptr(nd, 32))
        self.ex.prove(st, 'client/only-empty-lists-dropped', eq(S.n, 0), 'entries are lost')

    def callback(self, t, st, name='callback'):
        """a function object given by the user"""
        ex = self.ex
        cb = t.obj(st, name)
        return cb, rd(ex, st, cb), rd(ex, st, cb.at(16)), rd(ex, st, cb.at(24))


# ------------------------------------------------------------------ answers
class Answer(Reqr):
    """an answer arrives; an arbitrary pending request of the same operation is tracked"""

    def __init__(self, t, code):
        Reqr.__init__(self, t)
        ex, st = self.ex, self.st
        self.p, self.sp = self.new(st, 'msg', code)
        self.m0 = self.msg(st, self.p)
        ex.loop_hooks.append(self.inv)
        gset(st, 'looked', 0)

    def locked_requestEntriesMap_(self, st, n):
        ex = self.ex
        gset(st, 'looked', gget(st, 'looked') + 1)
        M = self.mapof(st, 'requestEntriesMap_')
        c, nd = self.listat(st, M, self.m0['op'])
        if not ex.decide(st, c):
            gset(st, 'S0', None)
            return
        S = stl.get_seq(ex, st, Ptr(nd, 32))
        gset(st, 'S0', S)
        gset(st, 'nd0', nd)
        # table invariant: the table holds no empty lists that an answer could find ... they do no harm either
        ix = ex.fresh_int(st, 'x', 0, 1 << 47)
        ex.assume(st, lt(ix, S.n))
        gset(st, 'ix', ix)
        nx = S.node(ex, st, ix)
        gset(st, 'nx', nx)
        gset(st, 'idx', rd(ex, st, Ptr(nx, self.eid)))
        gset(st, 'wx', rd(ex, st, Ptr(nx, self.ecb)))
        gset(st, 'cbx', bnot(eq(rd(ex, st, Ptr(nx, self.ecb + 16)), 0)))
        gset(st, 'invx', rd(ex, st, Ptr(nx, self.ecb + 24)))

    def erased_requestEntriesMap_(self, st, nd):
        self.emptied(st, 'requestEntriesMap_', nd)

    def erased_entry(self, st, cont, nd):
        ex = self.ex
        ex.prove(st, 'answer/only-this-table', gget(st, 'S0') is not None and eq(cont.base, gget(st, 'nd0')), 'an entry of another table or operation is removed')
        ex.prove(st, 'answer/removes-the-right-one', eq(rd(ex, st, Ptr(nd, self.eid)), self.m0['id']), 'the entry of another request is removed')

    def inv(self, ex, entry, head, rec, fi, norm):
        if gget(entry, 'S0') is None:
            return []
        out = []
        for sl in signalspec.iters(ex, head, rec, fi, None):
            def c(st, sl=sl):
                i = stl.iter_idx(ex, st, sl.get(ex, st, fi))
                return implies(lt(gget(st, 'ix'), i), bnot(eq(gget(st, 'idx'), self.m0['id'])))
            out.append(('not-before:' + sl.name, c))
        return out

    def on_call(self, st, p, a):
        self.ex.prove(st, 'answer/contents', a is not None and self.ex.ptr_eq(a, self.m0['payload']), 'the callback does not get the contents of the answer')


def t_answer(code):
    def task(t):
        R = Answer(t, code)
        ex, st = R.ex, R.st
        f = t.fn(SR + '::onIncomingMessage')
        final = code != 'PartialRequestUpdate'
        t.need('answered', 'another service', 'nothing pending', 'another request')
        maps = {k: R.mapof(st, k) for k in MAPS}

        def post(s, r):
            ex.prove(s, 'client/locks-released', not s.locks)
            ex.prove(s, 'client/handled', ex.to_bool(r), 'the message is not handled')
            ex.prove(s, 'answer/nothing-sent', eq(gget(s, 'sent'), 0))
            if not ex.decide(s, eq(R.m0['sid'], get_str(ex, s, R.sid))):
                ex.mark('another service')
                ex.prove(s, 'answer/of-another-service-ignored', gget(s, 'looked') == 0 and gget(s, 'calls') == 0, 'the answer of another service is taken')
                return
            ex.prove(s, 'client/other-tables-untouched', all(R.mapof(s, k) is maps[k] for k in MAPS if k != 'requestEntriesMap_'))
            if gget(s, 'looked') != 1:
                ex.fail(s, 'answer/looked-up', 'the pending requests are not looked up in one step')
                return
            if gget(s, 'S0') is None:
                ex.mark('nothing pending')
                ex.prove(s, 'answer/unknown-ignored', eq(gget(s, 'calls'), 0), 'a callback is called for an answer nobody waits for')
                return
            mine = ex.decide(s, eq(gget(s, 'idx'), R.m0['id']))
            if mine:
                ex.mark('answered')
                ex.prove(s, 'answer/callback-once', band(eq(gget(s, 'callsx'), ite(gget(s, 'cbx'), 1, 0)), eq(gget(s, 'calls'), gget(s, 'callsx'))), 'the callback of the request is not called exactly once')
                ex.prove(s, 'answer/over' if final else 'answer/still-pending', eq(gget(s, 'erx'), 1 if final else 0), 'an answered request is still pending' if final else 'a request is over after a partial update')
            else:
                ex.mark('another request')
                ex.prove(s, 'answer/others-not-called', eq(gget(s, 'callsx'), 0), 'the callback of another request is called')
                ex.prove(s, 'answer/others-still-pending', eq(gget(s, 'erx'), 0), 'another request is not pending any more')
        t.run(f, st, [R.this, R.sp], post)
    return task


def t_unknown(t):
    """messages that mean nothing to a client"""
    R = Reqr(t)
    ex, st = R.ex, R.st
    p, sp = R.new(st, 'msg')
    c = rd(ex, st, p.at(R.m['operationCode']), 1)
    ex.assume(st, band(*[bnot(eq(c, OPC[k])) for k in ('StatusRegister', 'SignalRegister', 'Request', 'StatusGet', 'PartialRequestUpdate')]))
    ex.assume(st, eq(R.msg(st, p)['sid'], get_str(ex, st, R.sid)))
    maps = {k: R.mapof(st, k) for k in MAPS}
    f = t.fn(SR + '::onIncomingMessage')

    def post(s, r):
        ex.prove(s, 'client/unknown-refused', bnot(ex.to_bool(r)), 'a message that means nothing to a client is reported as handled')
        ex.prove(s, 'client/unknown-changes-nothing', all(R.mapof(s, k) is maps[k] for k in MAPS) and gget(s, 'sent') == 0 and gget(s, 'calls') == 0)
    t.run(f, st, [R.this, sp], post)


# ------------------------------------------------------------------ notifications
class Notice(Reqr):
    """a status or signal arrives; an arbitrary registration for it is tracked"""

    def __init__(self, t, code, null):
        Reqr.__init__(self, t)
        ex, st = self.ex, self.st
        self.code, self.null = code, null
        self.p, self.sp = self.new(st, 'msg', code)
        pl = self.p.at(self.m['payload'])
        if null:
            ex.write(st, pl, 'm', 8, NULL)
            ex.write(st, pl.at(8), 'm', 8, NULL)
        else:
            o, c = t.obj(st, 'contents'), t.obj(st, 'contentsctl')
            stl.mark_alive(ex, st, c)
            ex.write(st, o, 'm', 8, signalspec.vtable(t, r'vtable for PlMock$').at(16))
            ex.write(st, pl, 'm', 8, o)
            ex.write(st, pl.at(8), 'm', 8, c)
        self.m0 = self.msg(st, self.p)
        ex.loop_hooks.append(self.inv)
        gset(st, 'looked', 0)
        self.o = ex.fresh_int(st, 'otherop', 0, (1 << 48) - 1)
        ex.assume(st, bnot(eq(self.o, self.m0['op'])))

    def isx(self, st, nd):
        # a copy of the callback of the tracked registration
        if gget(st, 'wx') is None:
            return False
        return band(eq(rd(self.ex, st, Ptr(nd, 0)), gget(st, 'wx')), eq(rd(self.ex, st, Ptr(nd, 24)), gget(st, 'invx')))

    def seq_node(self, ex, st, S, i, nd):
        if stl.seqtag(S) == 'entries' or S.kr is not None:
            return Reqr.seq_node(self, ex, st, S, i, nd)
        if gget(st, 'wx') is not None:
            self.tracked(ex, st, S, i, nd)
        if isinstance(S, stl.SeqInit):
            # see pushed: lists built here hold callbacks that are not empty
            ex.assume(st, implies(band(le(0, i), lt(i, S.n)), bnot(eq(rd(ex, st, Ptr(nd, 16)), 0))))

    def pushed(self, ex, st, this, base):
        if eq(this.off, 32) is not True:
            ex.prove(st, 'notify/callable', bnot(eq(rd(ex, st, Ptr(base, 16)), 0)), 'an empty function is going to be called')
        Reqr.pushed(self, ex, st, this, base)

    def snapshot(self, st):
        ex = self.ex
        M = self.mapof(st, 'registerEntriesMap_')
        c, nd = self.listat(st, M, self.m0['op'])
        if not ex.decide(st, c):
            gset(st, 'S0', None)
            return
        S = stl.get_seq(ex, st, Ptr(nd, 32))
        gset(st, 'S0', S)
        ix = ex.fresh_int(st, 'x', 0, 1 << 47)
        ex.assume(st, lt(ix, S.n))
        gset(st, 'ix', ix)
        nx = S.node(ex, st, ix)
        gset(st, 'nx', nx)
        gset(st, 'wx', rd(ex, st, Ptr(nx, self.ecb)))
        gset(st, 'invx', rd(ex, st, Ptr(nx, self.ecb + 24)))

    def locked_registerEntriesMap_(self, st, n):
        ex = self.ex
        gset(st, 'looked', n + 1)
        gset(st, 'M%d' % n, self.mapof(st, 'registerEntriesMap_'))
        gset(st, 'cached at', gget(st, 'cache', 0))
        if n == 0:
            gset(st, 'sub0', ex.decide(st, self.mapof(st, 'registerEntriesMap_').contains(ex, st, (self.m0['op'],))))
        # registrations do not change in between (they may: then the later look is what counts)
        self.snapshot(st)

    def entry(self, ex, st, S, i, nd):
        Reqr.entry(self, ex, st, S, i, nd)
        # registered callbacks are not empty (registering checks it)
        ex.assume(st, bnot(eq(rd(ex, st, Ptr(nd, self.ecb + 16)), 0)))

    def locked_propertiesCache_(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'propertiesCache_')
        gset(st, 'subscribed', gget(st, 'S0') is not None)
        gset(st, 'cache o has', M.contains(ex, st, (self.o,)))
        gset(st, 'cache o val', rp(ex, st, Ptr(M.node(ex, st, M.pos(ex, st, (self.o,))), 32)))
        gset(st, 'looked before cache', gget(st, 'looked'))

    def unlocked_propertiesCache_(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'propertiesCache_')
        k = (self.m0['op'],)
        gset(st, 'cache', 1)
        gset(st, 'cache has', M.contains(ex, st, k))
        gset(st, 'cache val', rp(ex, st, Ptr(M.node(ex, st, M.pos(ex, st, k)), 32)))
        ex.prove(st, 'status/other-cached-kept', band(eq(M.contains(ex, st, (self.o,)), gget(st, 'cache o has')), implies(gget(st, 'cache o has'), ex.ptr_eq(rp(ex, st, Ptr(M.node(ex, st, M.pos(ex, st, (self.o,))), 32)), gget(st, 'cache o val')))),
                 'another cached status is changed')

    def on_call(self, st, p, a):
        ex = self.ex
        if self.null:
            ex.prove(st, 'notify/contents', a is not None and ex.ptr_eq(a, NULL), 'contents out of nowhere')
            return
        if a is None:
            ex.fail(st, 'notify/own-copy', 'the callback does not get a copy of its own')
            return
        ex.prove(st, 'notify/own-copy', band(ex.ptr_eq(a, gget(st, 'clone')), eq(gget(st, 'clone used'), 0)), 'the callback does not get a copy of its own')
        ex.prove(st, 'notify/contents', ex.ptr_eq(gget(st, 'clone of'), self.m0['payload']), 'the copy is not one of the contents of the message')
        gset(st, 'clone used', 1)

    def erased_entry(self, st, cont, nd):
        self.ex.fail(st, 'notify/registrations-kept', 'a notification ends a registration')

    def inv(self, ex, entry, head, rec, fi, norm):
        out = []
        if gget(entry, 'S0') is None:
            return out
        vs = self.vecs(entry, rec, fi)
        S0 = gget(entry, 'S0')
        for sl in signalspec.iters(ex, head, rec, fi, None):
            v = sl.get(ex, head, fi)

            def idx(st, sl=sl):
                return stl.iter_idx(ex, st, sl.get(ex, st, fi))
            if v.seq is S0:
                for w in vs:
                    def c(st, idx=idx, w=w):
                        return eq(le(0, self.posx(st, w.get(ex, st, fi))), lt(gget(st, 'ix'), idx(st)))
                    out.append(('collected:' + sl.name, c))
                c0 = gget(entry, 'callsx')
                out.append(('notcalled:' + sl.name, lambda st, c0=c0: eq(gget(st, 'callsx'), c0)))
                continue
            S, c0 = v.seq, gget(entry, 'callsx')

            def called(st, idx=idx, S=S, c0=c0):
                p = self.posx(st, S)
                return eq(gget(st, 'callsx'), add(c0, ite(band(le(0, p), lt(p, idx(st))), 1, 0)))
            out.append(('called:' + sl.name, called))
        return out


def t_notice(code, null):
    def task(t):
        R = Notice(t, code, null)
        ex, st = R.ex, R.st
        f = t.fn(SR + '::onIncomingMessage')
        t.need('registered', 'nobody', 'another service')
        req = R.mapof(st, 'requestEntriesMap_')

        def post(s, r):
            ex.prove(s, 'client/locks-released', not s.locks)
            ex.prove(s, 'client/handled', ex.to_bool(r))
            ex.prove(s, 'notify/nothing-sent', eq(gget(s, 'sent'), 0))
            ex.prove(s, 'notify/requests-kept', R.mapof(s, 'requestEntriesMap_') is req, 'a notification is taken for an answer')
            if not ex.decide(s, eq(R.m0['sid'], get_str(ex, s, R.sid))):
                ex.mark('another service')
                ex.prove(s, 'notify/of-another-service-ignored', gget(s, 'looked') == 0 and gget(s, 'calls') == 0 and gget(s, 'cache') is None, 'the notification of another service is taken')
                return
            if gget(s, 'looked') == 0:
                ex.fail(s, 'notify/looked-up', 'the registrations are not looked at')
                return
            if code == 'StatusRegister':
                if gget(s, 'cache') is not None:
                    ex.prove(s, 'status/cached', band(gget(s, 'cache has'), ex.ptr_eq(gget(s, 'cache val'), R.m0['payload'])), 'the value is not remembered')
                    ex.prove(s, 'status/cached-if-subscribed', gget(s, 'subscribed') is True, 'a value nobody is subscribed to is remembered (and would never be updated)')
                    ex.prove(s, 'status/cached-before-told', gget(s, 'cached at') == 1, 'who registers while the callbacks are called gets an old value')
                else:
                    ex.prove(s, 'status/cached', gget(s, 'looked') > 0 and not gget(s, 'sub0', False), 'the value is not remembered')
            else:
                ex.prove(s, 'signal/not-cached', gget(s, 'cache') is None, 'a signal is remembered as a status')
            if gget(s, 'S0') is None:
                ex.mark('nobody')
                ex.prove(s, 'notify/nobody', eq(gget(s, 'calls'), 0), 'a callback is called for something nobody is registered for')
                return
            ex.mark('registered')
            ex.prove(s, 'notify/each-callback-once', eq(gget(s, 'callsx'), 1), 'a registered callback is not called exactly once')
        t.run(f, st, [R.this, R.sp], post)
    return task


# ------------------------------------------------------------------ asking: registrations and requests
class Ask(Reqr):
    """a callback is registered, or a request is sent"""

    def __init__(self, t, table, op=None):
        Reqr.__init__(self, t)
        ex, st = self.ex, self.st
        self.table = table
        self.op = op if op is not None else t.obj(st, 'op')
        self.opk = get_str(ex, st, self.op)
        ex.assume(st, bnot(eq(self.opk, 0)))
        self.maps0 = {k: self.mapof(st, k) for k in MAPS}
        for k in ('stored', 'dropped'):
            gset(st, k, 0)
        gset(st, 'id', INV)
        setattr(self, 'locked_' + table, self.locked)
        setattr(self, 'erased_' + table, lambda st, nd: self.emptied(st, table, nd))
        ex.loop_hooks.append(self.inv)

    def given(self, cb):
        """the callback"""
        ex, st = self.ex, self.st
        self.cb = cb
        self.cbw, self.cbm, self.cbi = rd(ex, st, cb), rd(ex, st, cb.at(16)), rd(ex, st, cb.at(24))

    def locked(self, st, n):
        ex = self.ex
        M = self.mapof(st, self.table)
        c, nd = self.listat(st, M, self.opk)
        gset(st, 'looks', n + 1)
        gset(st, 'there', ex.decide(st, c))
        if not gget(st, 'there'):
            gset(st, 'S0', None)
            if n == 0:
                gset(st, 'before', 0)
            return
        S = stl.get_seq(ex, st, Ptr(nd, 32))
        gset(st, 'S0', S)
        gset(st, 'nd0', nd)
        if n == 0:
            gset(st, 'before', S.n)
        ix = ex.fresh_int(st, 'x', 0, 1 << 47)
        if not ex.decide(st, lt(0, S.n)):
            gset(st, 'nx', None)
            gset(st, 'S0', None)
            return
        ex.assume(st, lt(ix, S.n))
        gset(st, 'ix', ix)
        nx = S.node(ex, st, ix)
        gset(st, 'nx', nx)
        gset(st, 'idx', rd(ex, st, Ptr(nx, self.eid)))
        gset(st, 'erx', 0)

    def inv(self, ex, entry, head, rec, fi, norm):
        """an entry that was passed is not the one that is looked for"""
        out = []
        if gget(entry, 'S0') is None:
            return out
        for sl in signalspec.iters(ex, head, rec, fi, None):
            def c(st, sl=sl):
                i = stl.iter_idx(ex, st, sl.get(ex, st, fi))
                return implies(lt(gget(st, 'ix'), i), bnot(eq(gget(st, 'idx'), self.wanted(st))))
            out.append(('not-before:' + sl.name, c))
        return out

    def wanted(self, st):
        return gget(st, 'id')

    def pushed_entry(self, st, this, base):
        ex = self.ex
        M = self.mapof(st, self.table)
        c, nd = self.listat(st, M, self.opk)
        ex.prove(st, 'ask/stored-under-its-operation', band(c, eq(this.base, nd)), 'the entry is stored where it will not be found')
        d = rd(ex, st, Ptr(base, self.eid))
        gset(st, 'id', d)
        gadd(st, 'stored')
        ex.prove(st, 'ask/fresh-id', band(bnot(eq(d, INV)), le(self.c0, d), lt(d, rd(ex, st, self.ids))), 'the id may already be in use')
        ex.prove(st, 'ask/stored-callback', band(eq(rd(ex, st, Ptr(base, self.ecb)), self.cbw), eq(rd(ex, st, Ptr(base, self.ecb + 16)), self.cbm), eq(rd(ex, st, Ptr(base, self.ecb + 24)), self.cbi)),
                 'another callback is stored')

    def erased_entry(self, st, cont, nd):
        ex = self.ex
        gadd(st, 'dropped')
        ex.prove(st, 'ask/removes-the-right-one', eq(rd(ex, st, Ptr(nd, self.eid)), self.wanted(st)), 'another entry is removed')
        if gget(st, 'nd0') is not None:
            ex.prove(st, 'ask/removes-from-its-operation', eq(cont.base, gget(st, 'nd0')))

    def on_call(self, st, p, a):
        ex = self.ex
        ex.prove(st, 'ask/own-callback-called', band(eq(gget(st, 'called w'), self.cbw), eq(ex.as_int(p), self.cbi)), 'another callback is called')

    def result(self, s, out):
        ex = self.ex
        return rd(ex, s, out), get_str(ex, s, out.at(self.t.off(RID, 'opID')))

    def untouched(self, s, what):
        ex = self.ex
        ex.prove(s, 'ask/unavailable-changes-nothing' if what == 'u' else 'ask/refused-changes-nothing',
                 all(self.mapof(s, k) is self.maps0[k] for k in MAPS) and gget(s, 'sent') == 0 and gget(s, 'calls') == 0 and gget(s, 'stored') == 0, 'something happens although nothing should')


class Register(Ask):
    """a second registration gets the remembered value"""

    def locked_propertiesCache_(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'propertiesCache_')
        k = (self.opk,)
        p = rp(ex, st, Ptr(M.node(ex, st, M.pos(ex, st, k)), 32))
        if not isc(p.base):
            self.kinds[p.base.get_id()] = 4
            term.KEEP.append(p.base)
            ex.assume(st, band(uf('KIND')(p.base) == 4, *[p.base != o for o in st.ghost.get(('objs',), ())]))
        gset(st, 'cached', band(M.contains(ex, st, k), bnot(ex.ptr_eq(p, NULL))))
        gset(st, 'cached val', p)

    def on_call(self, st, p, a):
        ex = self.ex
        Ask.on_call(self, st, p, a)
        ex.prove(st, 'register/remembered-value', band(gget(st, 'stored') == 1, ex.ptr_eq(a, gget(st, 'clone')), ex.ptr_eq(gget(st, 'clone of'), gget(st, 'cached val', NULL))), 'the callback does not get (a copy of) the remembered value')


def t_register(meth, code, nullstatus=False):
    def task(t):
        R = Register(t, 'registerEntriesMap_')
        ex, st = R.ex, R.st
        f = t.fn(SR + '::' + meth)
        out, cb = t.obj(st, 'result'), t.obj(st, 'callback')
        R.given(cb)
        sp = NULL if nullstatus else t.obj(st, 'callstatus')
        t.need('unavailable', 'empty', 'first', 'not first', 'first failed')
        if code == 'StatusRegister':
            t.need('remembered')

        def post(s, r):
            ex.prove(s, 'client/locks-released', not s.locks)
            d, o = R.result(s, out)
            invalid = bor(eq(d, INV), eq(o, 0))

            def status(v):
                if not nullstatus:
                    ex.prove(s, 'ask/status', eq(rd(ex, s, sp, 1), v), 'the status of the call is wrong')
            if ex.decide(s, bnot(eq(R.av0, AV['Available']))):
                ex.mark('unavailable')
                R.untouched(s, 'u')
                status(ST['ServiceUnavailable'])
                ex.prove(s, 'ask/unavailable-invalid-id', invalid, 'a registration that was not made looks valid')
                return
            if ex.decide(s, eq(R.cbm, 0)):
                ex.mark('empty')
                R.untouched(s, 'e')
                status(ST['InvalidParam'])
                ex.prove(s, 'ask/refused-invalid-id', invalid, 'a registration that was not made looks valid')
                return
            ex.prove(s, 'ask/stored-once', eq(gget(s, 'stored'), 1), 'the callback is not stored exactly once')
            ex.prove(s, 'client/other-tables-untouched', all(R.mapof(s, k) is R.maps0[k] for k in MAPS if k != R.table))
            if gget(s, 'stored') != 1:
                return
            first = ex.decide(s, eq(gget(s, 'before'), 0))
            if first:
                if gget(s, 'client') == 0:
                    ok = False
                    status(ST['ReceiverUnavailable'])
                else:
                    ex.prove(s, 'register/announced-once', eq(gget(s, 'sent'), 1), 'the first registration is not announced to the service exactly once')
                    if gget(s, 'sent') != 1:
                        return
                    ex.prove(s, 'register/announced-what', band(eq(gget(s, 'sent op'), R.opk), eq(gget(s, 'sent code'), OPC[code]), eq(gget(s, 'sent id'), gget(s, 'id'))), 'something else is announced')
                    ex.prove(s, 'register/stored-before-announced', eq(gget(s, 'sent stored'), 1), 'a value that comes at once would be missed')
                    ok = ex.decide(s, eq(gget(s, 'sent result'), ST['Success']))
                    status(gget(s, 'sent result'))
                ex.prove(s, 'register/not-called-yet', eq(gget(s, 'calls'), 0), 'the callback is called without a value')
                if not ok:
                    ex.mark('first failed')
                    ex.prove(s, 'ask/failed-invalid-id', invalid, 'a registration that failed looks valid')
                    ex.prove(s, 'ask/failed-looked', gget(s, 'looks') == 2, 'a registration that failed is kept')
                    if gget(s, 'S0') is not None:
                        ex.prove(s, 'ask/failed-removed', eq(gget(s, 'erx'), ite(eq(gget(s, 'idx'), gget(s, 'id')), 1, 0)), 'a registration that failed is kept, or another one removed')
                    return
                ex.mark('first')
            else:
                ex.mark('not first')
                ex.prove(s, 'register/announced-once', eq(gget(s, 'sent'), 0), 'a further registration is announced again')
                status(ST['Success'])
                if code == 'StatusRegister':
                    if gget(s, 'cached') is None:
                        ex.fail(s, 'register/remembered-value', 'the remembered value is not looked up')
                        return
                    c = ex.decide(s, gget(s, 'cached'))
                    ex.prove(s, 'register/remembered-value-once', eq(gget(s, 'calls'), 1 if c else 0), 'the remembered value is not delivered exactly once')
                    if c:
                        ex.mark('remembered')
                else:
                    ex.prove(s, 'register/not-called-yet', eq(gget(s, 'calls'), 0), 'the callback is called without a signal')
            ex.prove(s, 'ask/kept', eq(gget(s, 'dropped'), 0), 'the registration is dropped at once')
            ex.prove(s, 'ask/id-returned', band(eq(d, gget(s, 'id')), eq(o, R.opk)), 'the result does not identify the registration')
        t.run(f, st, [out, R.this, R.op, cb, sp], post)
    return task


def t_request(how, nullstatus=False):
    """sendRequestAsync, and getStatus with a callback"""
    def task(t):
        R = Ask(t, 'requestEntriesMap_')
        ex, st = R.ex, R.st
        cb = t.obj(st, 'callback')
        R.given(cb)
        code = 'Request'
        t.need('unavailable', 'pending', 'failed')
        out, pl = t.obj(st, 'result'), NULL
        sp = NULL if nullstatus else t.obj(st, 'callstatus')
        f = t.fn(SR + '::sendRequestAsync')
        psp = t.obj(st, 'contents')
        pl, pc = t.obj(st, 'contentsobj'), t.obj(st, 'contentsctl')
        stl.mark_alive(ex, st, pc)
        ex.write(st, psp, 'm', 8, pl)
        ex.write(st, psp.at(8), 'm', 8, pc)
        args = [out, R.this, R.op, psp, cb, sp]

        def post(s, r):
            ex.prove(s, 'client/locks-released', not s.locks)
            d, o = R.result(s, out)
            invalid = bor(eq(d, INV), eq(o, 0))
            stat = None if nullstatus else rd(ex, s, sp, 1)
            asked(R, s, code, pl, stat, d, o)
        t.run(f, st, args, post)
    return task


def asked(R, s, code, pl, stat, d=None, o=None):
    ex = R.ex
    invalid = None if d is None else bor(eq(d, INV), eq(o, 0))

    def status(v):
        if stat is not None:
            ex.prove(s, 'ask/status', eq(stat, v), 'the status of the call is wrong')
    if ex.decide(s, bnot(eq(R.av0, AV['Available']))):
        ex.mark('unavailable')
        R.untouched(s, 'u')
        status(ST['ServiceUnavailable'])
        if d is not None:
            ex.prove(s, 'ask/unavailable-invalid-id', invalid, 'a request that was not sent looks valid')
        return
    ex.prove(s, 'ask/stored-once', eq(gget(s, 'stored'), 1), 'the request is not stored exactly once')
    ex.prove(s, 'client/other-tables-untouched', all(R.mapof(s, k) is R.maps0[k] for k in MAPS if k != R.table))
    ex.prove(s, 'request/not-answered-yet', eq(gget(s, 'calls'), 0), 'the callback is called without an answer')
    if gget(s, 'stored') != 1:
        return
    if gget(s, 'client') == 0:
        ok = False
        status(ST['ReceiverUnavailable'])
    else:
        ex.prove(s, 'request/sent-once', eq(gget(s, 'sent'), 1), 'the request is not sent exactly once')
        if gget(s, 'sent') != 1:
            return
        ex.prove(s, 'request/sent-what', band(eq(gget(s, 'sent op'), R.opk), eq(gget(s, 'sent code'), OPC[code]), eq(gget(s, 'sent id'), gget(s, 'id')), ex.ptr_eq(gget(s, 'sent payload'), pl)),
                 'another request is sent')
        ex.prove(s, 'request/stored-before-sent', eq(gget(s, 'sent stored'), 1), 'an answer that comes at once would be missed')
        ok = ex.decide(s, eq(gget(s, 'sent result'), ST['Success']))
        status(gget(s, 'sent result'))
    if ok:
        ex.mark('pending')
        ex.prove(s, 'ask/kept', eq(gget(s, 'dropped'), 0), 'the request is dropped at once')
        if d is not None:
            ex.prove(s, 'ask/id-returned', band(eq(d, gget(s, 'id')), eq(o, R.opk)), 'the result does not identify the request')
        return
    ex.mark('failed')
    if d is not None:
        ex.prove(s, 'ask/failed-invalid-id', invalid, 'a request that could not be sent looks valid')
    ex.prove(s, 'ask/failed-looked', gget(s, 'looks') == 2, 'a request that could not be sent is kept pending')
    if gget(s, 'S0') is not None:
        ex.prove(s, 'ask/failed-removed', eq(gget(s, 'erx'), ite(eq(gget(s, 'idx'), gget(s, 'id')), 1, 0)), 'a request that could not be sent is kept pending, or another one is dropped')


class Cached(Ask):
    """reading a status"""

    def __init__(self, t):
        Ask.__init__(self, t, 'requestEntriesMap_')

    locked_propertiesCache_ = Register.locked_propertiesCache_

    def locked_registerEntriesMap_(self, st, n):
        gset(st, 'subscribed', self.mapof(st, 'registerEntriesMap_').contains(self.ex, st, (self.opk,)))

    def on_call(self, st, p, a):
        ex = self.ex
        Ask.on_call(self, st, p, a)
        self.value(st, a)

    def value(self, st, a):
        """a copy of the remembered value, or nothing"""
        ex = self.ex
        if gget(st, 'cached') is None:
            ex.fail(st, 'status/remembered-value', 'the remembered value is not looked up')
            return
        if ex.decide(st, gget(st, 'cached')):
            ex.mark('remembered')
            ex.prove(st, 'status/remembered-value', band(ex.ptr_eq(a, gget(st, 'clone')), ex.ptr_eq(gget(st, 'clone of'), gget(st, 'cached val'))), 'not (a copy of) the remembered value')
        else:
            ex.mark('not remembered')
            ex.prove(st, 'status/remembered-value', ex.ptr_eq(a, NULL), 'a value out of nowhere')


def t_getstatus(t):
    R = Cached(t)
    ex, st = R.ex, R.st
    cb = t.obj(st, 'callback')
    R.given(cb)
    ex.assume(st, bnot(eq(R.cbm, 0)))
    f = t.fn(SR + '::getStatus', r'std::function')
    t.need('remembered', 'not remembered', 'pending', 'failed', 'subscribed', 'unavailable')

    def post(s, r):
        ex.prove(s, 'client/locks-released', not s.locks)
        av = ex.decide(s, eq(R.av0, AV['Available']))
        sub = gget(s, 'subscribed')
        if not av or (sub is not None and ex.decide(s, sub)):
            ex.mark('subscribed' if av else 'unavailable')
            ex.prove(s, 'status/told-once', eq(gget(s, 'calls'), 1), 'the callback is not called exactly once')
            ex.prove(s, 'status/nothing-sent', all(R.mapof(s, k) is R.maps0[k] for k in MAPS) and gget(s, 'sent') == 0 and gget(s, 'stored') == 0, 'something is sent or stored')
            ex.prove(s, 'ask/status', eq(r, ST['Success' if av else 'ServiceUnavailable']), 'the status of the call is wrong')
            return
        if sub is None:
            ex.fail(s, 'status/subscription', 'not looked whether the status is subscribed to')
            return
        asked(R, s, 'StatusGet', NULL, r)
    t.run(f, st, [R.this, R.op, cb], post)


# ------------------------------------------------------------------ ending registrations and requests
class End(Ask):
    """an entry is given back; an arbitrary entry of its operation is tracked"""

    def __init__(self, t, table):
        ex = t.ex
        Ask.__init__(self, t, table, None)
        st = self.st
        self.reg = t.obj(st, 'regid')
        self.rid = rd(ex, st, self.reg)
        rop = self.reg.at(t.off(RID, 'opID'))
        self.opk = get_str(ex, st, rop)
        self.o = ex.fresh_int(st, 'otherop', 0, (1 << 48) - 1)
        ex.assume(st, bnot(eq(self.o, self.opk)))

    def wanted(self, st):
        return self.rid

    def locked_propertiesCache_(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'propertiesCache_')
        gset(st, 'cache o', M.contains(ex, st, (self.o,)))

    def unlocked_propertiesCache_(self, st, n):
        ex = self.ex
        M = self.mapof(st, 'propertiesCache_')
        gset(st, 'cache gone', bnot(M.contains(ex, st, (self.opk,))))
        ex.prove(st, 'status/other-cached-kept', eq(M.contains(ex, st, (self.o,)), gget(st, 'cache o')), 'another remembered value is dropped')

    def left(self, s):
        """entries of the operation that are left"""
        ex = self.ex
        M = self.mapof(s, self.table)
        c = M.contains(ex, s, (self.opk,))
        if gget(s, 'nd0') is None:
            return 0
        # the list stays where it was
        S = stl.get_seq(ex, s, Ptr(gget(s, 'nd0'), 32))
        return S.n

    def ended(self, s, what):
        ex = self.ex
        ex.prove(s, what + '/one-entry', le(gget(s, 'dropped'), 1), 'more than one entry is removed')
        if gget(s, 'S0') is not None:
            mine = eq(gget(s, 'idx'), self.rid)
            ex.prove(s, what + '/removed', implies(mine, eq(gget(s, 'erx'), 1)), 'the entry is still there')
            ex.prove(s, what + '/others-kept', implies(bnot(mine), eq(gget(s, 'erx'), 0)), 'another entry is removed')


def t_unregister(t):
    R = End(t, 'registerEntriesMap_')
    ex, st = R.ex, R.st
    f = t.fn(SR + '::unregister')
    t.need('invalid', 'last', 'others left', 'unavailable')

    def post(s, r):
        ex.prove(s, 'client/locks-released', not s.locks)
        ex.prove(s, 'unregister/no-callbacks', eq(gget(s, 'calls'), 0))
        if ex.decide(s, bor(eq(R.rid, INV), eq(R.opk, 0))):
            ex.mark('invalid')
            R.untouched(s, 'e')
            ex.prove(s, 'ask/status', eq(r, ST['InvalidParam']))
            return
        if gget(s, 'looks') != 1:
            ex.fail(s, 'unregister/table', 'the registrations are not looked at in one step')
            return
        R.ended(s, 'unregister')
        ex.prove(s, 'unregister/requests-kept', R.mapof(s, 'requestEntriesMap_') is R.maps0['requestEntriesMap_'])
        n = R.left(s)
        if ex.decide(s, eq(n, 0)):
            M = R.mapof(s, R.table)
            ex.prove(s, 'unregister/empty-list-dropped', bnot(M.contains(ex, s, (R.opk,))) if gget(s, 'there') else True, 'a client without registrations still counts as subscribed')
            ex.prove(s, 'unregister/value-forgotten', gget(s, 'cache gone', False), 'a value that is not updated any more is kept')
            if ex.decide(s, bnot(eq(R.av0, AV['Available']))):
                ex.mark('unavailable')
                ex.prove(s, 'ask/status', eq(r, ST['ServiceUnavailable']))
                ex.prove(s, 'unregister/nothing-sent', eq(gget(s, 'sent'), 0), 'sent although the service is not there')
                return
            ex.mark('last')
            ex.prove(s, 'ask/status', eq(r, ST['Success']))
            if gget(s, 'client') == 1:
                ex.prove(s, 'unregister/announced-once', eq(gget(s, 'sent'), 1), 'the end of the last registration is not announced')
                if gget(s, 'sent') == 1:
                    ex.prove(s, 'unregister/announced-what', band(eq(gget(s, 'sent op'), R.opk), eq(gget(s, 'sent code'), OPC['Unregister'])), 'something else is announced')
        else:
            ex.mark('others left')
            ex.prove(s, 'ask/status', eq(r, ST['Success']))
            ex.prove(s, 'unregister/not-announced', eq(gget(s, 'sent'), 0), 'the service is told to stop although there are other registrations')
            ex.prove(s, 'unregister/value-kept', gget(s, 'cache gone') is None, 'the remembered value is dropped although there are other registrations')
    t.run(f, st, [R.this, R.reg], post)


def t_unregisterall(t):
    R = End(t, 'registerEntriesMap_')
    ex, st = R.ex, R.st
    f = t.fn(SR + '::unregisterAll')
    t.need('unavailable', 'done')
    setattr(R, 'erased_registerEntriesMap_', lambda st, nd: None)
    M0 = R.maps0['registerEntriesMap_']
    ho = M0.contains(ex, st, (R.o,))

    def post(s, r):
        ex.prove(s, 'client/locks-released', not s.locks)
        if ex.decide(s, bnot(eq(R.av0, AV['Available']))):
            ex.mark('unavailable')
            R.untouched(s, 'u')
            ex.prove(s, 'ask/status', eq(r, ST['ServiceUnavailable']))
            return
        ex.mark('done')
        M = R.mapof(s, R.table)
        ex.prove(s, 'unregister/all-removed', bnot(M.contains(ex, s, (R.opk,))), 'registrations are left')
        ex.prove(s, 'unregister/other-operations-kept', eq(M.contains(ex, s, (R.o,)), ho), 'registrations of another operation are dropped')
        ex.prove(s, 'unregister/value-forgotten', gget(s, 'cache gone', False), 'a value that is not updated any more is kept')
        ex.prove(s, 'ask/status', eq(r, ST['Success']))
        if gget(s, 'client') == 1:
            ex.prove(s, 'unregister/announced-once', eq(gget(s, 'sent'), 1), 'the end of the registrations is not announced')
            if gget(s, 'sent') == 1:
                ex.prove(s, 'unregister/announced-what', band(eq(gget(s, 'sent op'), R.opk), eq(gget(s, 'sent code'), OPC['Unregister'])), 'something else is announced')
    t.run(f, st, [R.this, R.reg.at(t.off(RID, 'opID'))], post)


def t_abort(nullstatus):
    def task(t):
        R = End(t, 'requestEntriesMap_')
        ex, st = R.ex, R.st
        f = t.fn(SR + '::abortRequest')
        sp = NULL if nullstatus else t.obj(st, 'callstatus')
        t.need('invalid', 'aborted', 'not pending')

        def post(s, r):
            aborted(R, s, None if nullstatus else rd(ex, s, sp, 1), R.rid)
        t.run(f, st, [R.this, R.reg, sp], post)
    return task


def aborted(R, s, stat, rid):
    ex = R.ex

    def status(v):
        if stat is not None:
            ex.prove(s, 'ask/status', eq(stat, v), 'the status of the call is wrong')
    ex.prove(s, 'client/locks-released', not s.locks)
    ex.prove(s, 'abort/no-callbacks', eq(gget(s, 'calls'), 0), 'an aborted request is answered')
    if ex.decide(s, bor(eq(rid, INV), eq(R.opk, 0))):
        ex.mark('invalid')
        R.untouched(s, 'e')
        status(ST['InvalidParam'])
        return
    if gget(s, 'looks') != 1:
        ex.fail(s, 'abort/table', 'the requests are not looked at in one step')
        return
    R.ended(s, 'abort')
    ex.prove(s, 'abort/registrations-kept', R.mapof(s, 'registerEntriesMap_') is R.maps0['registerEntriesMap_'])
    if gget(s, 'dropped') == 1:
        ex.mark('aborted')
        if gget(s, 'client') == 1:
            ex.prove(s, 'abort/announced-once', eq(gget(s, 'sent'), 1), 'the service is not told')
            if gget(s, 'sent') == 1:
                ex.prove(s, 'abort/announced-what', band(eq(gget(s, 'sent op'), R.opk), eq(gget(s, 'sent code'), OPC['Abort']), eq(gget(s, 'sent id'), rid)), 'the service is told to abort something else')
                status(gget(s, 'sent result'))
        else:
            status(ST['ReceiverUnavailable'])
    else:
        ex.mark('not pending')
        ex.prove(s, 'abort/not-announced', eq(gget(s, 'sent'), 0), 'the service is told to abort what is not pending')
        status(ST['NoAction'])



# ------------------------------------------------------------------ availability of the service
OBS = 'serviceStatusObservers_'


class Watched(Reqr):
    """an arbitrary observer X is tracked; it is registered at most once"""

    def __init__(self, t):
        Reqr.__init__(self, t)
        ex, st = self.ex, self.st
        self.x = t.obj(st, 'x')
        self.kinds[self.x.base if isc(self.x.base) else self.x.base.get_id()] = 5
        ex.write(st, self.x, 'm', 8, signalspec.vtable(t, r'vtable for ObMock$').at(16))
        ex.contracts['std::list::remove_if'] = self.remove_if
        ex.loop_hooks.append(self.inv)
        for k in ('told', 'toldx', 'pushedx', 'pushes'):
            gset(st, k, 0)
        gset(st, 'threw', False)

    def isx(self, st, nd):
        return self.ex.ptr_eq(rp(self.ex, st, Ptr(nd, 0)), self.x)

    def seq_node(self, ex, st, S, i, nd):
        if stl.seqtag(S) == 'entries' or S.kr is not None:
            return Reqr.seq_node(self, ex, st, S, i, nd)
        self.tracked(ex, st, S, i, nd)
        o = rp(ex, st, Ptr(nd, 0))
        if not isc(o.base):
            # registered observers are not null (registering checks it)
            self.kinds[o.base.get_id()] = 5
            term.KEEP.append(o.base)
            ex.assume(st, band(bnot(eq(o.base, 0)), uf('RG')(o.base) == 0))
            ex.assume(st, band(*[o.base != b for b in st.ghost.get(('objs',), ()) if eq(b, self.x.base) is not True]))

    def remove_if(self, ex, st, c):
        """std::list::remove_if: what the predicate says decides; it is run on X"""
        S = stl.get_seq(ex, st, c.args[0])
        ex.prove(st, 'client/table-locked', bool(st.locks), 'the observers are changed without their lock')
        pred = stl.called_in(ex, c.body, lambda nm: not nm.startswith(('std::', 'llvm', '__', 'bool std::')) or nm.startswith('std::function::operator()'))
        if pred is None:
            raise Unsupported('predicate of remove_if')
        if len(c.args) != 2:
            raise Unsupported('closure of remove_if')
        c.body.parse()
        a, at = c.args[1], c.body.params[1][2]
        if 'byval' not in at:
            cl = Ptr(ex.fresh_base(st), 0)
            if isinstance(a, Ptr):
                ex.write(st, cl, 'm', 8, a)
            else:
                ex.write(st, cl, 'm', 8, a)
            a = cl
        p = self.posx(st, S)

        def result(st, gone):
            T = stl.SeqInit(ex, st, None)
            ex.assume(st, le(T.n, S.n))
            q = self.posx(st, T)
            ex.assume(st, eq(le(0, q), False if gone else le(0, p)))
            stl.set_seq(ex, st, c.args[0], T)
            gset(st, 'removals', True)
        if not ex.decide(st, le(0, p)):
            result(st, False)
            return None

        def done(ex, st, v):
            result(st, ex.decide(st, ex.to_bool(v)))
            ex.finish_call(st, None)
        ex.push_call(st, pred, [a, Ptr(S.node(ex, st, p), 0)], on_ret=done)
        return '$pushed'

    def observe(self, ex, st, c):
        self.nolock(ex, st, 'telling-observers')
        gadd(st, 'told')
        isx = ex.ptr_eq(c.args[0], self.x)
        gset(st, 'toldx', add(gget(st, 'toldx'), ite(isx, 1, 0)))
        return self.on_told(st, c, isx)

    def inv(self, ex, entry, head, rec, fi, norm):
        out = []
        for sl in signalspec.iters(ex, head, rec, fi, None):
            S, c0, t0 = sl.get(ex, head, fi).seq, gget(entry, 'toldx'), gget(entry, 'threw')
            if S.kr is not None:
                continue

            def idx(st, sl=sl):
                return stl.iter_idx(ex, st, sl.get(ex, st, fi))

            def told(st, idx=idx, S=S, c0=c0):
                p = self.posx(st, S)
                return eq(gget(st, 'toldx'), add(c0, ite(band(le(0, p), lt(p, idx(st))), 1, 0)))
            out.append(('told:' + sl.name, told))
            out.append(('gone:' + sl.name, lambda st, S=S: implies(gget(st, 'threw'), le(0, self.posx(st, S)))))
        return out


class Changed(Watched):
    def __init__(self, t):
        Watched.__init__(self, t)
        ex, st = self.ex, self.st
        self.ssid = t.obj(st, 'sid')
        self.old, self.new = ex.fresh_int(st, 'old', 0, 2), ex.fresh_int(st, 'new', 0, 2)
        gset(st, 'P0', None)
        gset(st, 'xleft', True)

    def locked_serviceStatusObservers_(self, st, n):
        ex = self.ex
        S = self.observers(st)
        p = self.posx(st, S)
        if gget(st, 'P0') is None:
            gset(st, 'P0', p)
            ex.prove(st, 'change/stored-before-told', eq(rd(ex, st, self.status, 1), self.new), 'an observer that registers now is told the old status, and misses the change')
        gset(st, 'P1', p)

    def unlocked_serviceStatusObservers_(self, st, n):
        ex = self.ex
        p = self.posx(st, self.observers(st))
        gone = band(le(0, gget(st, 'P1')), bnot(le(0, p)))
        ex.prove(st, 'change/observers-kept', implies(gone, gget(st, 'throws', False)), 'an observer is dropped that is still available')
        ex.prove(st, 'change/unavailable-observers-dropped', implies(gget(st, 'throws', False), bnot(le(0, p))), 'an observer that is not available any more is kept')
        gset(st, 'throws', False)

    def on_told(self, st, c, isx):
        ex = self.ex
        ex.prove(st, 'change/told-what', band(eq(get_str(ex, st, c.args[1]), get_str(ex, st, self.sid)), eq(ex.as_int(c.args[2]), self.old), eq(ex.as_int(c.args[3]), self.new)), 'an observer is told something else')
        if ex.choose(st, 2) == 1:
            gset(st, 'threw', bor(gget(st, 'threw'), isx))
            gset(st, 'throws', isx)
            ex.mark('observer not available')
            ex.throw_state(st, '_ZTIN3maf9messaging20UnavailableExceptionE')
            return '$throw'
        return None


def t_changed(t):
    R = Changed(t)
    ex, st = R.ex, R.st
    f = t.fn(SR + '::onServiceStatusChanged', r'^maf::')
    maps = {k: R.mapof(st, k) for k in MAPS}
    ob0 = R.observers(st)
    t.need('not this service', 'unchanged', 'unavailable', 'available', 'observer not available')
    for k in MAPS[:2]:
        setattr(R, 'erased_' + k, lambda st, nd: None)

    def post(s, r):
        ex.prove(s, 'client/locks-released', not s.locks)
        ex.prove(s, 'change/nothing-sent', gget(s, 'sent') == 0 and gget(s, 'calls') == 0)
        av = rd(ex, s, R.status, 1)
        mine = ex.decide(s, eq(get_str(ex, s, R.ssid), get_str(ex, s, R.sid)))
        if not mine or ex.decide(s, eq(R.new, R.av0)):
            ex.mark('unchanged' if mine else 'not this service')
            ex.prove(s, 'change/no-change', band(eq(av, R.av0), all(R.mapof(s, k) is maps[k] for k in MAPS), gget(s, 'told') == 0, R.observers(s) is ob0), 'a change of nothing changes something')
            return
        ex.prove(s, 'change/stored', eq(av, R.new), 'the status is not stored')
        gone = ex.decide(s, eq(R.new, AV['Unavailable']))
        ex.mark('unavailable' if gone else 'available')
        for k in MAPS[:2]:
            if gone:
                n = R.mapof(s, k).n
                ex.prove(s, 'change/cleared ' + k, eq(n, 0), 'what waits for a service that is gone is kept')
            else:
                ex.prove(s, 'change/kept ' + k, R.mapof(s, k) is maps[k], 'registrations or requests are lost')
        if gget(s, 'P0') is None:
            ex.fail(s, 'change/observers-told', 'observers are not told')
            return
        ex.prove(s, 'change/observers-told-once', eq(gget(s, 'toldx'), ite(le(0, gget(s, 'P0')), 1, 0)), 'an observer is not told exactly once')
    t.run(f, st, [R.this, R.ssid, R.old, R.new], post)


class Watch(Watched):
    """registering an observer: a change may come at any time before the lock is taken"""

    def locked_serviceStatusObservers_(self, st, n):
        ex = self.ex
        self.av1 = ex.fresh_int(st, 'now', 0, 2)
        ex.write(st, self.status, 'm', 1, self.av1)
        gset(st, 'av1', self.av1)

    def pushed(self, ex, st, this, base):
        m = self.map[OBS]
        if eq(this.base, m.base) is True and eq(this.off, m.off) is True:
            ex.prove(st, 'client/table-locked', bool(st.locks), 'the observers are changed without their lock')
            gset(st, 'pushes', gget(st, 'pushes') + 1)
            ex.prove(st, 'watch/right-observer', ex.ptr_eq(rp(ex, st, Ptr(base, 0)), self.x), 'another observer is registered')
            return
        Reqr.pushed(self, ex, st, this, base)

    def on_told(self, st, c, isx):
        ex = self.ex
        ex.prove(st, 'watch/right-observer', isx, 'another observer is told')
        ex.prove(st, 'watch/told-what', band(eq(get_str(ex, st, c.args[1]), get_str(ex, st, self.sid)), eq(ex.as_int(c.args[2]), AV['Unknown']), eq(ex.as_int(c.args[3]), AV['Available'])), 'an observer is told something else')
        ex.prove(st, 'watch/stored-before-told', eq(gget(st, 'pushes'), 1))
        return None


def t_watch(null):
    def task(t):
        R = Watch(t)
        ex, st = R.ex, R.st
        f = t.fn(SR + '::registerServiceStatusObserver')
        sp = t.obj(st, 'observer')
        ctl = t.obj(st, 'observerctl')
        stl.mark_alive(ex, st, ctl)
        ex.write(st, sp, 'm', 8, NULL if null else R.x)
        ex.write(st, sp.at(8), 'm', 8, NULL if null else ctl)
        ob0 = R.observers(st)
        t.need(*([] if null else ['told', 'not told']))

        def post(s, r):
            ex.prove(s, 'client/locks-released', not s.locks)
            if null:
                ex.prove(s, 'watch/nobody', gget(s, 'pushes') == 0 and gget(s, 'told') == 0 and R.observers(s) is ob0, 'nobody is registered')
                return
            ex.prove(s, 'watch/stored-once', eq(gget(s, 'pushes'), 1), 'the observer is not stored exactly once')
            if gget(s, 'av1') is None:
                ex.fail(s, 'watch/table-locked', 'the observers are changed without their lock')
                return
            a = ex.decide(s, eq(gget(s, 'av1'), AV['Available']))
            ex.mark('told' if a else 'not told')
            ex.prove(s, 'watch/told-at-once', eq(gget(s, 'toldx'), 1 if a else 0), 'an observer of a service that is there is not told at once (or told without reason)')
        t.run(f, st, [R.this, sp], post)
    return task


class Unwatch(Watched):
    def locked_serviceStatusObservers_(self, st, n):
        gset(st, 'P0', self.posx(st, self.observers(st)))


def t_unwatch(other):
    def task(t):
        R = Unwatch(t)
        ex, st = R.ex, R.st
        f = t.fn(SR + '::unregisterServiceStatusObserver')
        sp = t.obj(st, 'observer')
        ctl = t.obj(st, 'observerctl')
        stl.mark_alive(ex, st, ctl)
        ex.write(st, sp, 'm', 8, t.obj(st, 'y') if other else R.x)
        ex.write(st, sp.at(8), 'm', 8, ctl)
        maps = {k: R.mapof(st, k) for k in MAPS}

        def post(s, r):
            ex.prove(s, 'client/locks-released', not s.locks)
            if gget(s, 'P0') is None:
                ex.fail(s, 'watch/table-locked', 'the observers are changed without their lock')
                return
            p = R.posx(s, R.observers(s))
            ex.prove(s, 'watch/other-observers-kept' if other else 'watch/removed', eq(le(0, p), le(0, gget(s, 'P0')) if other else False), 'another observer is removed' if other else 'the observer is still there')
            ex.prove(s, 'client/other-tables-untouched', all(R.mapof(s, k) is maps[k] for k in MAPS) and gget(s, 'told') == 0)
        t.run(f, st, [R.this, sp], post)
    return task


def t_deinit(t):
    """nothing waits for an answer any more: the blocking requests end"""
    R = Reqr(t)
    ex, st = R.ex, R.st
    R.erased_requestEntriesMap_ = lambda st, nd: None

    def post(s, r):
        ex.prove(s, 'client/locks-released', not s.locks)
        ex.prove(s, 'deinit/requests-dropped', eq(R.mapof(s, 'requestEntriesMap_').n, 0), 'requests are still pending')
        ex.prove(s, 'deinit/quiet', gget(s, 'calls') == 0 and gget(s, 'sent') == 0)
    t.run(t.fn(SR + '::deinit'), st, [R.this], post)


# ------------------------------------------------------------------ blocking requests
class Sync(Cached):
    """std::promise and std::future obey contracts: get() waits until the callback that was stored with the request is called
    (then it returns what set_value got), or until nothing holds the promise any more (then it throws future_error)"""

    def __init__(self, t, code, pl):
        Cached.__init__(self, t)
        ex, st = self.ex, self.st
        self.code, self.pl = code, pl
        self.timeout = ex.fresh_int(st, 'timeout', 0, 1 << 40)
        C = ex.contracts
        C['std::promise::promise'] = self.p_ctor
        C['std::promise::~promise'] = lambda ex, st, c: None
        C['std::promise::get_future'] = self.p_future
        C['std::promise::set_value'] = self.p_set
        C['std::future::get'] = self.f_get
        C['std::__basic_future::wait_for'] = self.f_wait
        C['std::__basic_future::wait'] = self.f_wait_plain
        C['std::future::~future'] = C['std::__basic_future::~__basic_future'] = lambda ex, st, c: None
        ex.hooks['strong'] = self.strong
        for k in ('promise', 'wait status', 'outcome', 'value', 'set', 'functor', 'fnode'):
            gset(st, k, None)
        gset(st, 'holders', 0)

    def strong(self, ex, st, v, d):
        v = as_ptr(v)
        if isc(v.base) and v.base != 0:
            gset(st, ('holds', v.base), gget(st, ('holds', v.base), 1) + d)

    def p_ctor(self, ex, st, c):
        gset(st, 'promise', c.args[0])
        return None

    def p_future(self, ex, st, c):
        ex.prove(st, 'sync/its-promise', gget(st, 'promise') is not None and ex.ptr_eq(c.args[1], gget(st, 'promise')))
        gset(st, 'future', c.args[0])
        return None

    def p_set(self, ex, st, c):
        ex.prove(st, 'sync/its-promise', gget(st, 'promise') is not None and ex.ptr_eq(c.args[0], gget(st, 'promise')), 'another promise is kept')
        if gget(st, 'set') is not None:
            ex.throw_state(st, '_ZTISt12future_error')
            return '$throw'
        gset(st, 'set', rp(ex, st, c.args[1]))
        return None

    def pushed_entry(self, st, this, base):
        ex = self.ex
        cb = Ptr(base, self.ecb)
        self.cbw, self.cbm, self.cbi = rd(ex, st, cb), rd(ex, st, cb.at(16)), rd(ex, st, cb.at(24))
        Ask.pushed_entry(self, st, this, base)
        gset(st, 'fnode', cb)
        ex.prove(st, 'sync/callable', bnot(eq(self.cbm, 0)), 'nobody would be told the answer')

    def waits(self, st):
        """what was asked before waiting"""
        ex = self.ex
        if gget(st, 'waiting'):
            return
        gset(st, 'waiting', True)
        self.nolock(ex, st, 'waiting')
        ex.prove(st, 'ask/stored-once', gget(st, 'stored') == 1, 'the request is not stored exactly once')
        ex.prove(st, 'request/sent-once', gget(st, 'sent') == 1, 'the request is not sent exactly once')
        ex.prove(st, 'ask/kept', eq(gget(st, 'dropped'), 0), 'the request is dropped at once')
        if gget(st, 'sent') != 1 or gget(st, 'stored') != 1:
            raise PathEnd()
        ex.prove(st, 'request/sent-what', band(eq(gget(st, 'sent op'), self.opk), eq(gget(st, 'sent code'), OPC[self.code]), eq(gget(st, 'sent id'), gget(st, 'id')), ex.ptr_eq(gget(st, 'sent payload'), self.pl)),
                 'another request is sent')
        ex.prove(st, 'request/stored-before-sent', eq(gget(st, 'sent stored'), 1), 'an answer that comes at once would be missed')
        ex.prove(st, 'sync/waits-for-what-was-sent', eq(gget(st, 'sent result'), ST['Success']), 'waits for an answer to a request that was not sent')
        w = rp(ex, st, gget(st, 'fnode'))
        ctl = rp(ex, st, w.at(8))
        if isc(ctl.base):
            ex.prove(st, 'sync/only-the-request-keeps-the-promise', gget(st, ('holds', ctl.base), 1) == 1, 'the caller waits for ever when the request is dropped')

    def answers(self, ex, st, times, k):
        """the answer arrives: the stored callback is called"""
        cb = gget(st, 'fnode')
        inv = rp(ex, st, cb.at(24))
        fn = ex.func(ex.base_fn[inv.base])
        o, ctl = self.ans
        sp = Ptr(ex.fresh_base(st), 0)
        ex.write(st, sp, 'm', 8, o)
        ex.write(st, sp.at(8), 'm', 8, ctl)

        def done(ex, st, v):
            # a further (partial) answer finds the first one
            o2 = self.ans2
            if times > 1:
                ex.write(st, sp, 'm', 8, o2)
                ex.push_call(st, fn, [cb, sp], on_ret=lambda ex, st, v: k(st))
            else:
                k(st)
        ex.push_call(st, fn, [cb, sp], on_ret=done)
        return '$pushed'

    def f_get(self, ex, st, c):
        self.waits(st)
        st_ = gget(st, 'wait status')
        if st_ == 1:
            ex.fail(st, 'sync/timeout-kept', 'waits on after the time is over')
            raise PathEnd()
        if st_ is None:
            ex.prove(st, 'sync/timeout-kept', eq(self.timeout, 0), 'waits without a time limit')
        n = ex.choose(st, 3)
        if n == 2:
            gset(st, 'outcome', 'broken')
            ex.throw_state(st, '_ZTISt12future_error')
            return '$throw'
        gset(st, 'outcome', 'answered')
        out = c.args[0]

        def k(st):
            v = gget(st, 'set')
            if v is None:
                ex.fail(st, 'sync/answer-taken', 'the answer does not end the waiting')
                raise PathEnd()
            gset(st, 'value', v)
            ex.write(st, out, 'm', 8, v)
            ex.write(st, out.at(8), 'm', 8, self.ans[1])
            ex.finish_call(st, None)
        return self.answers(ex, st, n + 1, k)

    def f_wait(self, ex, st, c):
        self.waits(st)
        ex.prove(st, 'sync/timeout-kept', eq(rd(ex, st, c.args[1]), self.timeout), 'waits for another time than wanted')
        ex.prove(st, 'sync/zero-means-no-limit', bnot(eq(self.timeout, 0)), 'no time limit means that it waits for the answer')
        r = ex.choose(st, 2)
        gset(st, 'wait status', r)
        if r == 1:
            gset(st, 'outcome', 'timeout')
        return r

    def f_wait_plain(self, ex, st, c):
        self.waits(st)
        ex.prove(st, 'sync/timeout-kept', eq(self.timeout, 0), 'waits without a time limit')
        gset(st, 'wait status', 0)
        return None


def t_sync(meth, nullstatus=False, null=False):
    def task(t):
        ex = t.ex
        R = Sync(t, 'Request' if meth == 'sendRequest' else 'StatusGet', NULL)
        st = R.st
        out = t.obj(st, 'result')
        sp = NULL if nullstatus else t.obj(st, 'callstatus')
        R.ans = (NULL, NULL) if null else (t.obj(st, 'answer'), t.obj(st, 'answerctl'))
        R.ans2 = t.obj(st, 'answer2')
        if not null:
            stl.mark_alive(ex, st, R.ans[1])
        if meth == 'sendRequest':
            f = t.fn(SR + '::sendRequest')
            psp = t.obj(st, 'contents')
            R.pl, pc = t.obj(st, 'contentsobj'), t.obj(st, 'contentsctl')
            stl.mark_alive(ex, st, pc)
            ex.write(st, psp, 'm', 8, R.pl)
            ex.write(st, psp.at(8), 'm', 8, pc)
            args = [out, R.this, R.op, psp, sp, R.timeout]
        else:
            f = t.fn(SR + '::getStatus', r'ActionCallStatus\*')
            args = [out, R.this, R.op, sp, R.timeout]
        t.need('unavailable', 'failed', 'answered', 'broken', 'timeout', *([] if meth == 'sendRequest' else ['subscribed', 'remembered', 'not remembered']))

        def post(s, r):
            ex.prove(s, 'client/locks-released', not s.locks)
            v = rp(ex, s, out)
            stat = None if nullstatus else rd(ex, s, sp, 1)

            def status(n):
                if stat is not None:
                    ex.prove(s, 'ask/status', eq(stat, ST[n]), 'the status of the call is wrong')

            def nothing():
                ex.prove(s, 'sync/no-answer', ex.ptr_eq(v, NULL), 'an answer out of nowhere')
            av = ex.decide(s, eq(R.av0, AV['Available']))
            sub = gget(s, 'subscribed')
            if meth != 'sendRequest' and (not av or (sub is not None and ex.decide(s, sub))):
                ex.mark('subscribed' if av else 'unavailable')
                ex.prove(s, 'status/nothing-sent', all(R.mapof(s, k) is R.maps0[k] for k in MAPS) and gget(s, 'sent') == 0 and gget(s, 'stored') == 0, 'something is sent or stored')
                status('Success' if av else 'ServiceUnavailable')
                R.value(s, v)
                return
            if meth != 'sendRequest' and sub is None:
                ex.fail(s, 'status/subscription', 'not looked whether the status is subscribed to')
                return
            ex.prove(s, 'request/not-answered-yet', eq(gget(s, 'calls'), 0))
            how = gget(s, 'outcome')
            if not gget(s, 'waiting'):
                nothing()
                asked(R, s, R.code, R.pl, stat)
                if av:
                    ex.prove(s, 'sync/waits', bor(gget(s, 'client') == 0, bnot(eq(gget(s, 'sent result', 0), ST['Success']))), 'does not wait for the answer')
                return
            ex.mark(how)
            if how == 'answered':
                ex.prove(s, 'sync/answer', ex.ptr_eq(v, R.ans[0]), 'not the answer is returned')
                status('Success')
            elif how == 'broken':
                nothing()
                status('ActionBroken')
            elif how == 'timeout':
                nothing()
                status('Timeout')
                ex.prove(s, 'sync/timeout-looked', gget(s, 'looks') == 2, 'a request whose time is over is kept pending')
                if gget(s, 'S0') is not None:
                    ex.prove(s, 'sync/timeout-removed', eq(gget(s, 'erx'), ite(eq(gget(s, 'idx'), gget(s, 'id')), 1, 0)), 'a request whose time is over is kept pending, or another one dropped')
                if gget(s, 'dropped') == 1 and gget(s, 'client') == 1:
                    ex.prove(s, 'sync/timeout-announced', eq(gget(s, 'sent'), 2), 'the service is not told that nobody waits any more')
                    if gget(s, 'sent') == 2:
                        ex.prove(s, 'sync/timeout-aborted', band(eq(gget(s, 'sent op'), R.opk), eq(gget(s, 'sent code'), OPC['Abort']), eq(gget(s, 'sent id'), gget(s, 'id'))), 'the service is told to abort something else')
            if how != 'timeout':
                ex.prove(s, 'sync/sent-once', eq(gget(s, 'sent'), 1), 'something else is sent')
        t.run(f, st, args, post)
    return task


C03 = [('answer(%s)' % k, t_answer(k)) for k in ('Request', 'StatusGet', 'PartialRequestUpdate')] + [('unknown message', t_unknown)] + \
      [('%s message%s' % (k, '(no contents)' if n else ''), t_notice(k, n)) for k in ('StatusRegister', 'SignalRegister') for n in (False, True)] + \
      [('registerStatus', t_register('registerStatus', 'StatusRegister')), ('registerSignal', t_register('registerSignal', 'SignalRegister')),
       ('registerStatus(status not wanted)', t_register('registerStatus', 'StatusRegister', True)),
       ('sendRequestAsync', t_request('')), ('sendRequestAsync(status not wanted)', t_request('', True)), ('getStatus(callback)', t_getstatus), ('unregister', t_unregister),
       ('unregisterAll', t_unregisterall), ('abortRequest', t_abort(False)), ('abortRequest(status not wanted)', t_abort(True)),
       ('onServiceStatusChanged', t_changed), ('registerServiceStatusObserver', t_watch(False)), ('registerServiceStatusObserver(nobody)', t_watch(True)),
       ('unregisterServiceStatusObserver', t_unwatch(False)), ('unregisterServiceStatusObserver(others)', t_unwatch(True)), ('deinit', t_deinit),
       ('sendRequest', t_sync('sendRequest')), ('sendRequest(empty answer)', t_sync('sendRequest', False, True)), ('sendRequest(status not wanted)', t_sync('sendRequest', True)),
       ('getStatus', t_sync('getStatus')), ('getStatus(status not wanted)', t_sync('getStatus', True))]
TASKS = C03

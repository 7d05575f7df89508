"""Contracts of waiting for a service status: W01.

The status and the stop flag are guarded by the mutex of the signal: acquiring it makes them arbitrary (other threads)."""
from spec import *
import signalspec
from stl import as_ptr
from provspec import rd, rp
from procspec import NULL

TUS = ['@wait.cpp']
N = 'maf::messaging::'
SG = N + 'ServiceStatusSignal'
READY, TIMEOUT, INTERRUPTED = 0, 1, 2
UNITS = {'ms': (r'waitIfNot<long, std::ratio<1l, 1000l> ?>', 1000000), 's': (r'waitIfNot<long, std::ratio<1l, 1l> ?>', 1000000000), 'ns': (r'waitIfNot<long, std::ratio<1l, 1000000000l> ?>', 1)}
LIMIT = 1 << 62


def same_time(d, v):
    return bor(eq(d, v), eq(d, add(v, 1 << 64)))


class Sig:
    def __init__(self, t, guarded=True):
        self.t, self.ex = t, t.ex
        ex, S = self.ex, self
        install_opaque(ex)
        self.st = st = t.state()
        rec = '^maf::messaging::ServiceStatusSignal$'
        self.o_m, self.o_cv = t.off(rec, '~std::(recursive_|timed_)?mutex'), t.off(rec, '~std::condition_variable')
        self.o_cur, self.o_stop = t.off(rec, '~Availability'), t.off(rec, '~^(_Bool|bool|std::atomic|(class|struct) std::atomic)')
        self.this = t.obj(st, 'signal')
        for k, v in dict(seen=0, changed=0, owe=0, notified=0, lapsed=0, sampled=0, now=0, waits=0, cur=0, stop=0).items():
            gset(st, k, v)
        if not guarded:
            return
        self.mutex = self.this.at(self.o_m)

        def is_m(ex, st, p):
            return ex.entails(st, ex.ptr_eq(p, S.mutex))

        def on_lock(ex, st, p):
            cur, stop = S.cells(st)
            ex.assume(st, band(le(0, cur), le(cur, 2), le(0, stop), le(stop, 1)))
            gset(st, 'cur0', cur), gset(st, 'stop0', stop)
            gset(st, 'notified', 0)
            gset(st, 'seen', 1)

        def on_unlock(ex, st, p):
            cur, stop = S.cells(st)
            gset(st, 'cur', cur), gset(st, 'stop', stop)
            same = band(eq(cur, gget(st, 'cur0')), eq(stop, gget(st, 'stop0')))
            gset(st, 'owe', ite(bor(same, eq(gget(st, 'notified'), 1)), gget(st, 'owe'), 1))
        install_monitors(ex, [Monitor(t, is_m, lambda ex, st, p: [(S.this.at(S.o_cur), 1), (S.this.at(S.o_stop), 1)], on_lock, on_unlock)])

        def touch(ex, st, p, *a):
            if isc(p.off) and p.off in (S.o_cur, S.o_stop) and ex.entails(st, eq(p.base, S.this.base)) and stl.held(ex, st, S.mutex) is None:
                ex.fail(st, 'state-only-under-its-lock', 'the status or the stop flag is used without the lock: another thread may be changing it')
        ex.hooks['prestore'] = touch
        ex.hooks['load'] = touch
        ex.hooks['cv'] = self.cv
        ex.hooks['cv_timed'] = self.timed
        ex.hooks['now'] = self.clock

    def cells(self, st):
        return rd(self.ex, st, self.this.at(self.o_cur), 1), rd(self.ex, st, self.this.at(self.o_stop), 1)

    def clock(self, ex, st):
        v = ex.fresh_int(st, 'now', 0, LIMIT)
        ex.assume(st, le(gget(st, 'now'), v))
        gset(st, 'now', v)
        if isc(gget(st, 'sampled')) and gget(st, 'sampled') == 0:
            gset(st, 'began', v)
            gset(st, 'sampled', 1)
        return v

    def cv(self, ex, st, kind, cv):
        ex.prove(st, 'uses-its-condition', ex.ptr_eq(cv, self.this.at(self.o_cv)), 'waits on, or notifies, something that the other side does not use')
        if kind == 'wait':
            cur, stop = self.cells(st)
            e = gget(st, 'expect')
            ex.prove(st, 'blocks-only-while-there-is-reason', band(bnot(eq(cur, e)), eq(stop, 0)) if e is not None else False,
                     'blocks although the awaited status is there or the waiting was stopped: nobody will wake it')
            gset(st, 'waits', 1)
        elif kind == 'notify_all':
            gset(st, 'notified', 1)
            gset(st, 'owe', 0)

    def timed(self, ex, st, cv, tp, out):
        d = rd(ex, st, as_ptr(tp), 8)
        lim = gget(st, 'limit')
        if lim is None:
            ex.fail(st, 'waits-without-limit', 'a wait without time limit gives up after some time')
            return
        ex.prove(st, 'deadline-is-the-limit', same_time(d, add(gget(st, 'began'), lim)) if gget(st, 'began') is not None else False,
                 'the wait ends earlier or later than the time limit given')
        if out:
            gset(st, 'lapsed', 1)

    def final(self, s):
        ex = self.ex
        ex.prove(s, 'lock-released', not s.locks)
        ex.prove(s, 'change-wakes-all-waiters', eq(gget(s, 'owe'), 0), 'the status or the stop flag changed and not every waiter is woken: one sleeps on')


def fn(t, name, pred=None):
    return t.fn(SG + '::' + name, pred)


def t_wait(unit):
    def task(t):
        S = Sig(t)
        ex, st = t.ex, S.st
        e = ex.fresh_int(st, 'expected', 0, 2)
        gset(st, 'expect', e)
        if unit is None:
            f = fn(t, 'waitIfNot', lambda d: re.search(r'waitIfNot\(maf::messaging::Availability\)$', d))
            args = [S.this, e]
        elif unit == 'number':
            f = fn(t, 'waitIfNot', lambda d: re.search(r'waitIfNot\(maf::messaging::Availability, long long\)$', d))
        else:
            f = fn(t, 'waitIfNot', lambda d: re.search(UNITS[unit][0], d))
        if unit is not None:
            k = UNITS['ms' if unit == 'number' else unit][1]
            n = ex.fresh_int(st, 'limit', 0, (1 << 64) - 1)
            neg = le((1 << 64) - (1 << 32), n)
            ex.assume(st, bor(neg, le(n, (1 << 60) // k)))
            gset(st, 'limit', mul(ite(neg, sub(n, 1 << 64), n), k))
            args = [S.this, e, n]

        def inv(ex, entry, head, rec, fi, norm):
            return [('not-lapsed', lambda st: eq(gget(st, 'lapsed'), 0)), ('nothing-owed', lambda st: eq(gget(st, 'owe'), 0)), ('nothing-changed', lambda st: eq(S.cells(st)[0], gget(st, 'cur0')) if gget(st, 'cur0') is not None else True),
                    ('not-stopped-by-itself', lambda st: eq(S.cells(st)[1], gget(st, 'stop0')) if gget(st, 'stop0') is not None else True)]
        ex.loop_hooks.append(inv)

        def post(s, v):
            v = v[0] if isinstance(v, (list, tuple)) else v
            S.final(s)
            ex.prove(s, 'looks-under-the-lock', eq(gget(s, 'seen'), 1))
            cur, stop = gget(s, 'cur'), gget(s, 'stop')
            there = eq(cur, e)
            for n, c in (('Ready', READY), ('Interrupted', INTERRUPTED)) + ((('TimeOut', TIMEOUT),) if unit else ()):
                if ex.feasible(s, eq(v, c)):
                    ex.mark(n)
            ex.prove(s, 'changes-nothing', band(eq(cur, gget(s, 'cur0')), eq(stop, gget(s, 'stop0'))), 'waiting changes the status or the stop flag')
            ex.prove(s, 'result/ready-only-if-it-is', implies(eq(v, READY), band(there, eq(stop, 0))), 'reports the awaited status although it is not there, or although the waiting was stopped')
            ex.prove(s, 'result/interrupted-only-if-stopped', implies(eq(v, INTERRUPTED), eq(stop, 1)), 'reports an interruption that did not happen')
            if unit:
                ex.prove(s, 'result/timeout-only-after-the-limit', implies(eq(v, TIMEOUT), band(bnot(there), eq(stop, 0), eq(gget(s, 'lapsed'), 1))),
                         'reports that the time is up although it is not, or although the status was there')
            ex.prove(s, 'result/one-of-the-three', bor(eq(v, READY), eq(v, INTERRUPTED), eq(v, TIMEOUT) if unit else False))
        t.run(f, st, args, post)
        t.need('Ready', 'Interrupted', *(['TimeOut'] if unit else []))
    return task


def t_change(what):
    def task(t):
        S = Sig(t)
        ex, st = t.ex, S.st
        new = ex.fresh_int(st, 'new', 0, 2)
        if what == 'stop':
            f, args = fn(t, 'stop'), [S.this]
        else:
            f, args = fn(t, 'onServiceStatusChanged'), [S.this, t.obj(st, 'sid'), ex.fresh_int(st, 'old', 0, 2), new]

        def post(s, v):
            S.final(s)
            cur, stop = gget(s, 'cur'), gget(s, 'stop')
            ex.prove(s, 'looks-under-the-lock', eq(gget(s, 'seen'), 1))
            if what == 'stop':
                ex.prove(s, 'stopped', band(eq(stop, 1), eq(cur, gget(s, 'cur0'))), 'the waiting is not stopped, or the status changes')
            else:
                ex.prove(s, 'status-is-what-was-told', band(eq(cur, new), eq(stop, gget(s, 'stop0'))), 'the status kept is not the one told, or the stop is lost')
        t.run(f, st, args, post)
    return task


def t_current(t):
    S = Sig(t)
    ex, st = t.ex, S.st

    def post(s, v):
        S.final(s)
        ex.prove(s, 'status-is-what-was-told', eq(v, gget(s, 'cur')) if gget(s, 'seen') else False)
        ex.prove(s, 'changes-nothing', band(eq(gget(s, 'cur'), gget(s, 'cur0')), eq(gget(s, 'stop'), gget(s, 'stop0'))))
    t.run(fn(t, 'currentStatus'), st, [S.this], post)


def t_result(t):
    ex = t.ex
    st = t.state()
    w = t.obj(st, 'result')
    v = rd(ex, st, w, 1)
    ex.assume(st, band(le(0, v), le(v, 2)))
    for n, c in (('isReady', READY), ('isTimeout', TIMEOUT), ('isInterrupted', INTERRUPTED)):
        t.run(t.fn(SG + '::WaitStatus::' + n), st.clone(), [w], lambda s, r, c=c: ex.prove(s, 'result/as-reported', eq(ex.to_bool(r), eq(v, c)), 'a wait result reads as something else'))


def t_make(tr):
    """a new signal: nothing available, not stopped, registered with the proxy when there is one"""
    def task(t):
        S = Sig(t, guarded=False)
        ex, st = t.ex, S.st
        out = t.obj(st, 'handle')
        gset(st, 'registered', 0)
        gset(st, 'watch', NULL)

        def made(s, v):
            o = rp(ex, s, out)
            s.ghost = dict(s.ghost)
            ex.prove(s, 'a-signal-is-handed-out', bnot(eq(o.base, 0)))
            S.this = o
            cur, stop = S.cells(s)
            ex.prove(s, 'starts-unavailable-and-waiting', band(eq(cur, 0), eq(stop, 0)), 'a new signal has a status already, or is stopped')
            return o
        if tr is None:
            f = fn2(t, r'serviceStatusSignal\(\)$')
            t.run(f, st, [out], made)
            return
        f = fn2(t, r'serviceStatusSignal<.*%s>' % tr)
        h = t.obj(st, 'proxy handle')
        px, ctl = ex.fresh_int(st, 'proxy', 0, HEAP_LIMIT - 1), t.obj(st, 'proxy ctl')
        ex.write(st, h, 'm', 8, Ptr(px, 0))
        ex.write(st, h.at(8), 'm', 8, ctl)

        def reg(ex, st, c):
            ex.prove(st, 'registered-with-the-proxy-given', ex.ptr_eq(c.args[0], Ptr(px, 0)))
            gset(st, 'watch', rp(ex, st, as_ptr(c.args[1])))
            gset(st, 'registered', add(gget(st, 'registered'), 1))
            return None
        ex.contracts[N + 'BasicProxy::registerServiceStatusObserver'] = reg

        def post(s, v):
            o = made(s, v)
            ex.prove(s, 'told-of-every-change', eq(gget(s, 'registered'), ite(eq(px, 0), 0, 1)), 'the signal is not registered with the proxy (once): it never learns the status')
            ex.prove(s, 'told-of-every-change', implies(bnot(eq(px, 0)), ex.ptr_eq(gget(s, 'watch'), o)), 'another object than the one handed out is registered')
        t.run(f, st, [out, h], post)
    return task


def fn2(t, rx):
    return t.fn(N + 'serviceStatusSignal', lambda d: re.search(rx, d))


TASKS = [('wait', t_wait(None)), ('wait(number)', t_wait('number'))] + [('wait(%s)' % u, t_wait(u)) for u in UNITS] + \
    [('stop', t_change('stop')), ('told', t_change('told')), ('currentStatus', t_current), ('result', t_result),
     ('make', t_make(None)), ('make(itc)', t_make('itc::ParamTrait')), ('make(local)', t_make('ipc::local::ParamTrait'))]

"""Contract of the blocking timer: Y01.

`running`, `cyclic` and the count of starts are guarded by the mutex of the timer.  A run (one call of start) is live until the
timer is stopped or started again; other threads do that whenever the run does not hold the mutex (rely), and the callback may do
it on the run's own thread.  Every method proves what the others rely on (guarantee): starts are counted, and whoever ends a live
run wakes it."""
from spec import *
from stl import as_ptr
from provspec import rd, rp
from procspec import NULL
import signalspec
from waitspec import same_time

TUS = ['src/common/maf/messaging/SyncTimer.cpp', '@timer.cpp']
T = 'maf::messaging::SyncTimer'
LIMIT = 1 << 62


class Timer:
    def __init__(self, t, who):
        self.t, self.ex, self.who = t, t.ex, who
        ex, S = self.ex, self
        install_opaque(ex)
        self.st = st = t.state()
        rec = '^maf::messaging::SyncTimerDataPrv$'
        self.o_m, self.o_cv = t.off(rec, '~std::(recursive_|timed_)?mutex'), t.off(rec, '~std::condition_variable')
        self.o_run, self.o_cyc = t.off(rec, 'running'), t.off(rec, 'cyclic')
        try:
            self.o_cnt = t.off(rec, '~^(unsigned (int|long|long long)|std::(uint64_t|size_t|uint32_t)|size_t|uint64_t|uint32_t|(struct |class )?std::atomic<unsigned)')
        except Unsupported:
            self.o_cnt = None
        self.this, self.d = t.obj(st, 'timer'), t.obj(st, 'timer data')
        ex.write(st, self.this.at(t.off('^maf::messaging::SyncTimer$', 'd_')), 'm', 8, self.d)
        for k, v in dict(on=0, mine=-1, killed=0, ncalls=0, pending=0, fresh=0, base=0, now=0, waits=0, owe=0, notified=0, cs=0, run=0, cnt=0, cyc=0, run0=0, cnt0=0, cyc0=0,
                         started=0, peek=-1).items():
            gset(st, k, v)
        self.mutex = self.d.at(self.o_m)

        def is_m(ex, st, p):
            return ex.entails(st, ex.ptr_eq(p, S.mutex))

        def region(ex, st, p):
            return [(S.d.at(o), n) for o, n in ((S.o_run, 1), (S.o_cyc, 1), (S.o_cnt, 8)) if o is not None]

        def on_lock(ex, st, p):
            S.others(st)
            gset(st, 'notified', 0), gset(st, 'started', 0)
            gset(st, 'cs', 1)
            S.remember(st)

        install_monitors(ex, [Monitor(t, is_m, region, on_lock, lambda ex, st, p: S.leave(st))])
        self.region = region

        def touch(ex, st, p, *a):
            if isc(p.off) and p.off in (S.o_run, S.o_cyc, S.o_cnt) and ex.entails(st, eq(p.base, S.d.base)):
                if stl.held(ex, st, S.mutex) is None:
                    ex.fail(st, 'state-only-under-its-lock', 'the state of the timer is used without its lock: another thread may be changing it')
                if a and p.off == S.o_run and len(a) > 1:
                    v = a[1]
                    if ex.entails(st, ex.to_bool(v)):
                        gset(st, 'on', 1), gset(st, 'started', 1)
        def stored(ex, st, p, size, v):
            if isc(p.off) and p.off == S.o_cnt and ex.entails(st, eq(p.base, S.d.base)):
                gset(st, 'mine', ex.as_int(v))
        if who != 'ctor':
            ex.hooks['prestore'] = touch
            ex.hooks['store'] = stored
            ex.hooks['load'] = touch

        def atomic(ex, st, kind, p, ty, v, mod):
            if not (isc(p.off) and p.off == S.o_run and ex.entails(st, eq(p.base, S.d.base))):
                return None
            if stl.held(ex, st, S.mutex) is not None:
                return None
            if kind == 'load':
                r = ex.fresh_int(st, 'running', 0, 1)
                gset(st, 'peek', r)
                return r
            ex.fail(st, 'state-only-under-its-lock', 'the timer is marked running or stopped without its lock: a run between its test and its wait misses it')
            return True
        ex.atomic_hook = atomic
        ex.hooks['cv'] = self.cv
        ex.hooks['cv_timed'] = self.timed
        ex.hooks['now'] = self.clock
        ex.icall_hook = self.icall
        ex.contracts['ExMock::execute'] = self.execute

    def cells(self, st):
        ex = self.ex
        return (rd(ex, st, self.d.at(self.o_run), 1), rd(ex, st, self.d.at(self.o_cnt), 8) if self.o_cnt is not None else 0, rd(ex, st, self.d.at(self.o_cyc), 1))

    def remember(self, st):
        for k, v in zip(('run0', 'cnt0', 'cyc0'), self.cells(st)):
            gset(st, k, v)

    def others(self, st):
        """what others may have done since this thread last looked (the cells are already arbitrary)"""
        ex = self.ex
        run, cnt, cyc = self.cells(st)
        ex.assume(st, band(le(0, run), le(run, 1), le(0, cyc), le(cyc, 1), le(0, cnt), lt(cnt, LIMIT)))
        if gget(st, 'cs'):
            ex.assume(st, le(gget(st, 'cnt'), cnt))
        if self.who != 'start' or not (isc(gget(st, 'on')) and gget(st, 'on') == 1):
            return
        k = ex.fresh_int(st, 'others', 0, 2)
        old, mine = gget(st, 'killed'), gget(st, 'mine')
        ex.assume(st, le(old, k))
        counted = self.o_cnt is not None
        ex.assume(st, implies(eq(k, 0), band(eq(run, 1), eq(cnt, mine) if counted else True)))
        ex.assume(st, implies(eq(k, 1), band(eq(run, 0), eq(cnt, mine) if counted else True)))
        ex.assume(st, implies(eq(k, 2), lt(mine, cnt) if counted else True))
        gset(st, 'killed', k)

    def own(self, st):
        """the run this call has begun"""
        if isc(gget(st, 'on')) and gget(st, 'on') == 1 and isc(gget(st, 'mine')) and gget(st, 'mine') == -1:
            gset(st, 'mine', self.cells(st)[1])

    def leave(self, st):
        ex = self.ex
        self.own(st)
        run, cnt, cyc = self.cells(st)
        r0, c0 = gget(st, 'run0'), gget(st, 'cnt0')
        gset(st, 'run', run), gset(st, 'cnt', cnt), gset(st, 'cyc', cyc)
        mine = eq(gget(st, 'started'), 1)
        if self.o_cnt is not None:
            ex.prove(st, 'starts-are-counted', bor(bnot(mine), lt(c0, cnt)), 'a run that is replaced cannot tell: the start is not counted')
            ex.prove(st, 'only-starts-are-counted', bor(mine, eq(c0, cnt)), 'a run is ended by something that is not a start')
        else:
            ex.prove(st, 'starts-are-counted', bnot(mine), 'a run that has been stopped, but has not woken yet, cannot tell that the timer was started again: it goes on and takes the end of the new one')
        ended = band(eq(r0, 1), bor(eq(run, 0), bnot(eq(c0, cnt)), mine))
        if self.who == 'start' and isc(gget(st, 'on')) and gget(st, 'on') == 1:
            ex.prove(st, 'leaves-the-runs-of-others', implies(band(bnot(mine), eq(gget(st, 'killed'), 2)), eq(run, r0)), 'a run that was replaced ends the run that replaced it')
            ended = band(ended, bor(mine, eq(gget(st, 'killed'), 2)))
        gset(st, 'started', 0)
        gset(st, 'owe', ite(band(ended, eq(gget(st, 'notified'), 0)), 1, gget(st, 'owe')))

    def clock(self, ex, st):
        v = ex.fresh_int(st, 'now', 0, LIMIT)
        ex.assume(st, le(gget(st, 'now'), v))
        gset(st, 'now', v)
        f = gget(st, 'fresh')
        gset(st, 'base', ite(eq(f, 0), v, gget(st, 'base')))
        gset(st, 'fresh', 1)
        return v

    def cv(self, ex, st, kind, cv):
        ex.prove(st, 'uses-its-condition', ex.ptr_eq(cv, self.d.at(self.o_cv)), 'waits on, or notifies, something that the other side does not use')
        if kind == 'wait':
            self.own(st)
            ex.prove(st, 'blocks-only-while-live', band(eq(gget(st, 'on'), 1), eq(gget(st, 'killed'), 0), eq(gget(st, 'owe'), 0)), 'blocks although the timer was stopped or started again: nobody will wake it')
            gset(st, 'waits', 1)
        else:
            gset(st, 'notified', 1)
            gset(st, 'owe', 0)

    def timed(self, ex, st, cv, tp, out):
        d = rd(ex, st, as_ptr(tp), 8)
        ex.prove(st, 'deadline-is-one-period', band(eq(gget(st, 'fresh'), 1), same_time(d, add(gget(st, 'base'), gget(st, 'period')))), 'the timer fires earlier or later than its time')
        if out:
            gset(st, 'pending', 1)

    # -- callbacks
    def icall(self, ex, st, p, args, ins):
        ex.prove(st, 'callback/the-right-one', eq(ex.as_int(p), gget(st, 'cb inv', -1)), 'another function is called than the one that was given')
        ex.prove(st, 'callback/the-right-one', eq(rd(ex, st, as_ptr(args[0])), gget(st, 'cb w', -1)), 'another function is called than the one that was given')
        ex.prove(st, 'callback/by-whom', eq(gget(st, 'executor'), 0), 'the callback is called directly although an executor was given')
        self.fires(st)

    def execute(self, ex, st, c):
        out = ex.choose(st, 2)
        p = as_ptr(c.args[1])
        ex.prove(st, 'callback/by-whom', eq(as_ptr(c.args[0]).base, gget(st, 'executor')), 'another executor is used than the one given')
        ex.prove(st, 'callback/the-right-one', band(eq(ex.as_int(rp(ex, st, p.at(24))), gget(st, 'cb inv', -1)), eq(rd(ex, st, p), gget(st, 'cb w', -1)), bnot(eq(rp(ex, st, p.at(16)).base, 0))),
                 'the executor gets another function than the one given, or an empty one')
        self.fires(st)
        ex.write(st, p.at(16), 'm', 8, NULL)
        return out == 0

    def fires(self, st):
        ex = self.ex
        self.own(st)
        ex.prove(st, 'callback/only-while-live', eq(gget(st, 'killed'), 0), 'calls back although the timer was stopped, or started again, before its time was up')
        ex.prove(st, 'callback/when-time-is-up', eq(gget(st, 'pending'), 1), 'calls back although its time is not up')
        gset(st, 'pending', 0), gset(st, 'fresh', 0)
        gset(st, 'ncalls', add(gget(st, 'ncalls'), 1))
        # the callback may use the timer, on this thread; so may others when the lock was let go
        h = stl.held(ex, st, self.mutex) is not None
        if h:
            self.leave_for_callback(st)
            for q, n in self.region(ex, st, None):
                havoc_monitor(ex, st, q, n)
            self.others(st)
            self.remember(st)

    def leave_for_callback(self, st):
        run, cnt, cyc = self.cells(st)
        self.ex.prove(st, 'runs-while-calling-back', eq(run, 1), 'the callback finds the timer not running')
        gset(st, 'run', run), gset(st, 'cnt', cnt), gset(st, 'cyc', cyc)
        gset(st, 'started', 0)

    def final(self, s):
        ex = self.ex
        ex.prove(s, 'lock-released', not s.locks)
        ex.prove(s, 'whoever-ends-a-run-wakes-it', eq(gget(s, 'owe'), 0), 'a running timer is stopped or started again, and its wait is not woken')


def t_start(executor, how='ms', empty=False):
    def task(t):
        S = Timer(t, 'start')
        ex, st = t.ex, S.st
        n = ex.fresh_int(st, 'milliseconds', 0, (1 << 64) - 1)
        neg = le((1 << 64) - (1 << 32), n)
        ex.assume(st, bor(neg, le(n, (1 << 60) // 1000000)))
        gset(st, 'period', mul(ite(neg, sub(n, 1 << 64), n), 1000000))
        cb = t.obj(st, 'callback')
        m = rp(ex, st, cb.at(16))
        if empty:
            ex.write(st, cb.at(16), 'm', 8, NULL)
        else:
            ex.assume(st, band(bnot(eq(m.base, 0)), eq(m.off, 0)))
            gset(st, 'cb w', rd(ex, st, cb)), gset(st, 'cb inv', ex.as_int(rp(ex, st, cb.at(24))))
        h, o, ctl = t.obj(st, 'executor handle'), t.obj(st, 'executor'), t.obj(st, 'executor ctl')
        ex.hooks['vptr'] = lambda ex, st, b, vt=signalspec.vtable(t, r'vtable for ExMock$').at(16): vt if b.get_id() == o.base.get_id() else None
        KEEP.append(o.base)
        stl.mark_alive(ex, st, ctl)
        ex.write(st, h, 'm', 8, o if executor else NULL)
        ex.write(st, h.at(8), 'm', 8, ctl if executor else NULL)
        gset(st, 'executor', o.base if executor else 0)
        if how == 'ms':
            f = t.fn(T + '::start', lambda d: 'std::ratio<1l, 1000l>' in d.split('std::function')[0])
        else:
            f = t.fn(T + '::start', lambda d: re.search(r'start\(long long,', d))

        def inv(ex, entry, head, rec, fi, norm):
            g = lambda k: (lambda st: gget(st, k))
            live = lambda st: eq(gget(st, 'killed'), 0)
            c = [('live', live), ('nothing-owed', lambda st: eq(gget(st, 'owe'), 0)), ('no-call-missed', lambda st: eq(gget(st, 'pending'), 0)),
                 ('timed', lambda st: eq(gget(st, 'fresh'), 1)), ('not-timed', lambda st: eq(gget(st, 'fresh'), 0)),
                 ('nothing-written', lambda st: bor(eq(gget(st, 'started'), 1), band(*[eq(gget(st, k), v) for k, v in zip(('run0', 'cnt0', 'cyc0'), S.cells(st))]))),
                 ('counted', lambda st: bor(eq(gget(st, 'started'), 0), lt(gget(st, 'cnt0'), S.cells(st)[1]))), ('told-the-last', lambda st: bor(eq(gget(st, 'started'), 0), eq(gget(st, 'run0'), 0), eq(gget(st, 'notified'), 1))),
                 ('no-start', lambda st: eq(gget(st, 'started'), 0)), ('start', lambda st: band(le(0, gget(st, 'started')), le(gget(st, 'started'), 1))), ('called', lambda st: le(1, gget(st, 'ncalls'))), ('calls', lambda st: le(0, gget(st, 'ncalls')))]
            if not isc(gget(entry, 'mine')) or gget(entry, 'mine') != -1:
                c += [('own-run', lambda st: eq(gget(st, 'mine'), gget(entry, 'mine')))]
            c += [('state', lambda st: band(eq(S.cells(st)[0], 1), eq(S.cells(st)[1], gget(st, 'mine')))),
                  ('killed', lambda st: implies(eq(gget(st, 'killed'), 0), band(eq(S.cells(st)[0], 1), eq(S.cells(st)[1], gget(st, 'mine')))))]
            c += [('stopped', lambda st: implies(eq(gget(st, 'killed'), 1), band(eq(S.cells(st)[0], 0), eq(S.cells(st)[1], gget(st, 'mine'))))),
                  ('replaced', lambda st: implies(eq(gget(st, 'killed'), 2), lt(gget(st, 'mine'), S.cells(st)[1]))),
                  ('range', lambda st: band(le(0, gget(st, 'killed')), le(gget(st, 'killed'), 2))),
                  ('seen', lambda st: le(gget(st, 'cnt'), S.cells(st)[1]))]
            # an inner loop is cut before what holds at the head of the outer one is known: there, relative to its entry
            core = [f for n, f in c if n in ('nothing-owed', 'nothing-written', 'counted', 'told-the-last', 'start', 'killed', 'stopped', 'replaced', 'range', 'seen')]
            h = band(*[f(entry) for f in core])
            return c + [('kept:' + n, lambda st, f=f: implies(h, f(st))) for n, f in c if f in core]
        ex.loop_hooks.append(inv)

        def post(s, v):
            S.final(s)
            if empty:
                ex.prove(s, 'no-callback-no-run', band(eq(gget(s, 'on'), 0), eq(gget(s, 'waits'), 0), eq(gget(s, 'ncalls'), 0)), 'a timer without callback runs')
                return
            k = gget(s, 'killed')
            if ex.feasible(s, eq(k, 0)):
                ex.mark('ends by itself')
            if ex.feasible(s, eq(k, 1)):
                ex.mark('is stopped')
            if ex.feasible(s, eq(k, 2)):
                ex.mark('is replaced')
            ex.prove(s, 'begins-a-run', eq(gget(s, 'on'), 1), 'nothing is started')
            live = eq(k, 0)
            ex.prove(s, 'result/calls-back', implies(live, band(le(1, gget(s, 'ncalls')), eq(gget(s, 'pending'), 0))), 'the time was up, the timer was not stopped, and the callback was not called')
            ex.prove(s, 'result/cyclic-goes-on', implies(live, eq(gget(s, 'cyc'), 0)), 'a cyclic timer ends although nobody stopped it')
            ex.prove(s, 'result/not-running-afterwards', implies(bnot(eq(k, 2)), eq(gget(s, 'run'), 0)), 'the timer says that it runs although its run is over')
        t.run(f, st, [S.this, n, cb, h], post)
        if not empty:
            t.need('ends by itself', 'is stopped', 'is replaced')
    return task


def t_ctl(what):
    def task(t):
        S = Timer(t, what)
        ex, st = t.ex, S.st
        args = [S.this]
        arg = None
        if what == 'setCyclic':
            arg = z3.Bool('cyclic!arg')
            args.append(arg)
        f = t.fn(T + '::' + ('~SyncTimer' if what == 'end' else what))

        def post(s, v):
            S.final(s)
            if what == 'running':
                seen = gget(s, 'run') if gget(s, 'cs') else gget(s, 'peek')
                ex.prove(s, 'tells-whether-it-runs', eq(ex.to_bool(v), eq(seen, 1)), 'the answer is not what the timer is')
            if what in ('stop', 'end'):
                ex.prove(s, 'stopped', eq(gget(s, 'run'), 0) if gget(s, 'cs') else False, 'the timer goes on after it was stopped')
            if what == 'setCyclic':
                ex.prove(s, 'cyclic-as-told', eq(eq(gget(s, 'cyc'), 1), arg) if gget(s, 'cs') else False, 'the timer is not cyclic when told, or the reverse')
            elif gget(s, 'cs') and what != 'end':
                ex.prove(s, 'cyclic-stays', eq(gget(s, 'cyc'), gget(s, 'cyc0')))
            if gget(s, 'cs') and what in ('restart', 'running', 'setCyclic'):
                ex.prove(s, 'run-stays', eq(gget(s, 'run'), gget(s, 'run0')), 'the timer is stopped, or marked running')
        t.run(f, st, args, post)
    return task


def t_ctor(t, plain=False):
    S = Timer(t, 'ctor')
    ex, st = t.ex, S.st
    arg = False if plain else z3.Bool('cyclic!arg')
    f = t.fn('plain_timer' if plain else T + '::SyncTimer')
    off = t.off('^maf::messaging::SyncTimer$', 'd_')

    def post(s, v):
        S.d = rp(ex, s, S.this.at(off))
        ex.prove(s, 'made', bnot(eq(S.d.base, 0)))
        run, cnt, cyc = S.cells(s)
        ex.prove(s, 'starts-stopped', eq(run, 0), 'a new timer says that it runs')
        ex.prove(s, 'cyclic-as-told', eq(eq(cyc, 1), arg), 'a new timer is not cyclic when told, or the reverse')
    t.run(f, st, [S.this] if plain else [S.this, arg], post)


TASKS = [('construct', t_ctor), ('construct(default)', lambda t: t_ctor(t, True))] + [('start' + ('(executor)' if e else '') + ('(number)' if h != 'ms' else ''), t_start(e, h)) for h in ('ms', 'number') for e in (False, True)] + \
    [('start(no callback)', t_start(False, 'ms', True))] + [(w, t_ctl(w)) for w in ('stop', 'restart', 'running', 'setCyclic', 'end')]

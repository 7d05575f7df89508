"""Contracts of processors (P01 jobs, P02 messages) and of the routing between them (R01).

The job queue obeys its contract (Q01, Q02), the signals that hold the message handlers theirs (S01, S02).  Code of the
user (jobs, handlers, start and end functions) is arbitrary, may throw, and must be called with no lock held."""
from spec import *
from stl import as_ptr, get_str, set_str
import signalspec, re
from provspec import rd, rp

MS = 'src/common/maf/messaging/'
MODEL = ['-include', os.path.join(VERIF, 'tu', 'model_future.h')]
TUS = [('@processor.cpp', MODEL), (MS + 'Processor.cpp', MODEL), (MS + 'Router.cpp', MODEL), (MS + 'Routing.cpp', [])]
N = 'maf::messaging::'
PR = N + 'Processor'
PD = N + 'ProcessorDataPrv'
TP = N + 'this_processor::'
Q = 'maf::threading::ThreadSafeQueue::'


class Proc:
    """a processor in an arbitrary state; the calling thread belongs to no processor, to this one or to another one"""

    def __init__(self, t):
        self.t, self.ex = t, t.ex
        ex = self.ex
        self.st = st = t.state()
        self.p, self.d = self.processor(st, 'processor')
        self.o, self.od = self.processor(st, 'other')
        # ids are not empty, and different processors have different ones (create)
        ex.assume(st, band(bnot(eq(self.id(st, self.d), self.id(st, self.od))), bnot(eq(self.id(st, self.d), 0)), bnot(eq(self.id(st, self.od), 0))))
        self.q = self.d.at(t.off(PD, 'pendingExecutions'))
        self.tl = self.tlvar()
        for k in ('pushes', 'calls', 'closed', 'cleared', 'reopened', 'waits', 'left', 'done', 'gone'):
            gset(st, k, 0)
        gset(st, 'due', None)
        for k in ('push', 'wait', 'waitUntil', 'close', 'clear', 'reOpen', 'isClosed', 'size', '~ThreadSafeQueue'):
            ex.contracts[Q + k] = (lambda h: lambda ex, st, c: h(ex, st, c))(getattr(self, 'q_' + k.strip('~')))
        for k in ('done', 'gone', 'future'):
            ex.contracts['dv_task_' + k] = getattr(self, 'task_' + k)
        ex.contracts['std::__basic_future::wait'] = self.fwait
        ex.contracts[N + 'details::Router::removeProcessor'] = self.leave
        ex.contracts[N + 'generateAnonymousID'] = lambda ex, st, c: set_str(ex, st, c.args[0], ex.fresh_int(st, 'anonymous', 1, (1 << 48) - 1))
        ex.contracts['maf::pattern::SingletonObject::instance'] = lambda ex, st, c: self.router
        self.router = t.obj(st, 'router')
        ex.contracts[N + 'isAnonymous'] = lambda ex, st, c: eq(uf('ANON')(get_str(ex, st, c.args[0])), 1)
        # a local static that nothing changes holds what it was initialised with
        for m in t.prog.mods:
            for g in m.global_lines:
                if re.match(r'_ZZ.*emptyProcessorID.*emptyID', g):
                    set_str(ex, st, ex.global_ptr(g, m), 0)
        ex.hooks['weak_lock'] = self.weak_lock
        ex.loop_hooks.append(self.inv)
        ex.icall_hook = self.icall
        self.throwing = False
        self.alive = True

    def processor(self, st, name):
        t, ex = self.t, self.ex
        p, d, ctl = t.obj(st, name), t.obj(st, name + 'data'), t.obj(st, name + 'ctl')
        ex.write(st, p, 'm', 8, p)
        ex.write(st, p.at(8), 'm', 8, ctl)
        ex.write(st, p.at(t.off(PR, 'd_')), 'm', 8, d)
        if name == 'processor':
            self.ctl = ctl
        else:
            self.octl = ctl
        return p, d

    def id(self, st, d):
        return get_str(self.ex, st, d.at(self.t.off(PD, 'id')))

    def tlvar(self):
        for m in self.t.prog.mods:
            for g in m.global_lines:
                if re.search(r'14this_processor.*9instance_E', g):
                    return self.ex.global_ptr(g, m)
        raise Unsupported('the variable holding the processor of a thread')

    def thread_of(self, st, who):
        self.ex.write(st, self.tl, 'm', 8, who)
        gset(st, 'thread', who)

    def each_thread(self):
        for nm, p in (('no', NULL), ('this', self.p), ('other', self.o)):
            st = self.st.clone()
            self.thread_of(st, p)
            yield nm, st

    # -- environment
    def weak_lock(self, ex, st, v):
        for c in (self.ctl, self.octl):
            if ex.ptr_eq(as_ptr(v), c) is True:
                if self.alive is None and c is self.ctl:
                    r = ex.choose(st, 2) == 0
                    gset(st, 'was alive', r)
                    return r
                return self.alive
        return None

    def nolock(self, st, what):
        self.ex.prove(st, 'processor/no-lock-while-' + what, not st.locks, 'foreign code runs while a lock is held')

    def myq(self, st, c):
        self.ex.prove(st, 'processor/its-own-queue', self.ex.ptr_eq(c.args[0], self.q), 'the queue of another processor is used')

    def words(self, st, f):
        ex = self.ex
        return tuple(rd(ex, st, f.at(k)) for k in (0, 8, 16, 24))

    def q_push(self, ex, st, c):
        self.myq(st, c)
        j = rp(ex, st, c.args[1])
        ex.write(st, c.args[1], 'm', 8, NULL)
        gadd(st, 'pushes')
        gset(st, 'job', j)
        ex.prove(st, 'processor/queues-a-job', bnot(eq(j.base, 0)), 'nothing is put into the queue of jobs')
        return None

    def q_isClosed(self, ex, st, c):
        self.myq(st, c)
        r = ex.choose(st, 2) == 1
        gset(st, 'stopped', r)
        return r

    def q_close(self, ex, st, c):
        self.myq(st, c)
        gset(st, 'closed', 1)
        gset(st, 'cleared', 0)
        gset(st, 'reopened', 0)
        return None

    def q_clear(self, ex, st, c):
        self.myq(st, c)
        gset(st, 'cleared', 1)
        return None

    def q_reOpen(self, ex, st, c):
        self.myq(st, c)
        gset(st, 'reopened', 1)
        return None

    def q_size(self, ex, st, c):
        self.myq(st, c)
        r = ex.fresh_int(st, 'size', 0, 1 << 47)
        gset(st, 'size', r)
        return r

    def q_ThreadSafeQueue(self, ex, st, c):
        return None

    def ajob(self, st, b):
        """an address that may be that of a job: an object of its own that existed before"""
        return bor(eq(b, 0), band(lt(b, HEAP_LIMIT), *[bnot(eq(b, o)) for o in st.ghost[('objs',)]]))

    def inv(self, ex, entry, head, rec, fi, norm):
        """the job in hand"""
        out = []
        for sl in rec.slots:
            v = sl.get(ex, head, fi)
            if isinstance(v, Ptr) and getattr(sl, 'kind', None) in (None, 'm', 'mem'):
                def c(st, sl=sl):
                    return self.ajob(st, as_ptr(sl.get(ex, st, fi)).base)
                out.append(('job-in-hand:' + sl.name, c))
        return out

    def take(self, st, out):
        """the oldest job is taken out"""
        ex = self.ex
        b = ex.fresh_int(st, 'job', 1, HEAP_LIMIT - 1)
        ex.assume(st, band(self.ajob(st, b), eq(uf('RG')(b), 0)))
        j = Ptr(b, 0)
        w = self.words(st, j)
        ex.assume(st, bnot(eq(w[2], 0)))
        ex.write(st, out, 'm', 8, j)
        gset(st, 'due', 1)
        gset(st, 'due w', w[0])
        gset(st, 'due inv', w[3])

    def waiting(self, st):
        ex = self.ex
        self.nolock(st, 'waiting-for-jobs')
        due = gget(st, 'due')
        ex.prove(st, 'processor/every-job-is-run', due is None or eq(due, 0), 'the next job is taken before the last one was run')
        ex.prove(st, 'processor/runs-until-stopped', bnot(eq(gget(st, 'ended', 0), 1)), 'goes on after the end')

    def q_wait(self, ex, st, c):
        self.myq(st, c)
        self.waiting(st)
        gset(st, 'waited', 1)
        if ex.choose(st, 2) == 0:
            self.take(st, c.args[1])
            return True
        gset(st, 'ended', 1)
        gset(st, 'due', 0)
        return False

    def q_waitUntil(self, ex, st, c):
        gset(st, 'until', rd(ex, st, c.args[2]))
        if gget(st, 'deadline') is not None:
            ex.prove(st, 'processor/waits-until-the-deadline', eq(gget(st, 'until'), gget(st, 'deadline')), 'another deadline than the one given')
        return self.q_wait(ex, st, c)

    def icall(self, ex, st, p, args, ins):
        """code of the user"""
        self.nolock(st, 'running-user-code')
        w = rd(ex, st, as_ptr(args[0]))
        gadd(st, 'calls')
        gset(st, 'called w', w)
        gset(st, 'called inv', ex.as_int(p))
        h = getattr(self, 'on_call', None)
        if h:
            h(st, w, ex.as_int(p), args)
        if self.throwing and ex.choose(st, 2) == 1:
            gset(st, 'threw', 1)
            ex.throw_state(st, '_ZTISt9exception')
            return '$throw'
        return None

    # -- tasks and futures (library contract: tu/model_future.h)
    def task_done(self, ex, st, c):
        gadd(st, 'done')
        gset(st, 'done task', c.args[0])
        gset(st, 'done threw', c.args[1])
        return None

    def task_gone(self, ex, st, c):
        gadd(st, 'gone')
        return None

    def task_future(self, ex, st, c):
        f = Ptr(ex.fresh_base(st), 0)
        fc = Ptr(ex.fresh_base(st), 0)
        stl.mark_alive(ex, st, fc)
        ex.write(st, c.args[0], 'm', 8, f)
        ex.write(st, c.args[0].at(8), 'm', 8, fc)
        gset(st, 'future', f)
        gset(st, 'future of', c.args[1])
        return None

    def fwait(self, ex, st, c):
        f = rp(ex, st, c.args[0])
        if ex.decide(st, eq(f.base, 0)):
            gset(st, 'waited for nothing', 1)
            ex.throw_state(st, '_ZTISt12future_error')
            return '$throw'
        ex.prove(st, 'processor/waits-for-its-task', ex.ptr_eq(f, gget(st, 'future', NULL)), 'waits for another task')
        self.nolock(st, 'waiting')
        gset(st, 'waited for', f)
        return None

    def leave(self, ex, st, c):
        gadd(st, 'left')
        gset(st, 'leaver', rp(ex, st, c.args[1]))
        return True

    # -- building blocks
    def job(self, st, name='exec'):
        """a function given by the user"""
        f = self.t.obj(st, name)
        w = self.words(st, f)
        self.ex.assume(st, bnot(eq(w[2], 0)))
        return f, w

    def queued(self, st, w, what='processor'):
        """exactly the given job was put into the queue"""
        ex = self.ex
        n = gget(st, 'pushes')
        ex.prove(st, what + '/job-queued-once', eq(n, 1) if isc(n) else False, 'the job is not queued exactly once')
        if isc(n) and n == 1:
            j = self.words(st, gget(st, 'job'))
            ex.prove(st, what + '/the-given-job', band(eq(j[0], w[0]), eq(j[2], w[2]), eq(j[3], w[3])), 'another job than the one given is queued')

    def called_once(self, st, w, what='processor'):
        ex = self.ex
        n = gget(st, 'calls')
        ex.prove(st, what + '/job-run-once', eq(n, 1), 'the job does not run exactly once')
        if gget(st, 'called w') is not None:
            ex.prove(st, what + '/the-given-job-runs', band(eq(gget(st, 'called w'), w[0]), eq(gget(st, 'called inv'), w[3])), 'another job runs')


def call_op(t):
    return t.fn('std::function::operator()', r'std::function<void \(\)>::operator\(\)')


# ------------------------------------------------------------------ P01: jobs
def t_submit(meth, own):
    """executeAsync, execute: of a given processor, or of the processor of the thread"""
    def task(t):
        P = Proc(t)
        ex = P.ex
        f = t.fn(TP + meth if own else PR + '::' + meth)
        t.need('refused')
        if not own or meth == 'executeAsync':
            t.need('queued')
        if meth == 'execute':
            t.need('at once')
        for th, st in P.each_thread():
            if own and th == 'other':
                continue
            e, w = P.job(st)

            def post(s, r, th=th, w=w):
                n, k = gget(s, 'pushes'), gget(s, 'calls')
                if own and th == 'no':
                    ex.mark('refused')
                    ex.prove(s, 'processor/nobody-to-run-it', band(eq(n, 0), eq(k, 0), bnot(ex.to_bool(r))), 'a job without a processor is accepted')
                    return
                if gget(s, 'stopped'):
                    ex.mark('refused')
                    ex.prove(s, 'processor/stopped-refuses', band(eq(n, 0), eq(k, 0), bnot(ex.to_bool(r))), 'a stopped processor accepts a job')
                    return
                ex.prove(s, 'processor/acceptance-reported', ex.to_bool(r), 'an accepted job is reported as refused')
                if meth == 'execute' and th == 'this':
                    ex.mark('at once')
                    ex.prove(s, 'processor/own-thread-runs-at-once', eq(n, 0), 'a job of the own thread is delayed')
                    P.called_once(s, w)
                else:
                    ex.mark('queued')
                    ex.prove(s, 'processor/not-run-on-this-thread', eq(k, 0), 'a job runs on the wrong thread')
                    P.queued(s, w)
                ex.prove(s, 'processor/locks-released', not s.locks)
            t.run(f, st, [e] if own else [P.p, e], post)
    return task


def t_run(meth):
    """the loop: every job that is taken out runs once, before the next is taken; the thread belongs to the processor"""
    def task(t):
        P = Proc(t)
        ex = P.ex
        P.throwing = True
        f = t.fn(PR + '::' + meth)
        once = 'Once' in meth
        t.need('ended', 'threw')

        def on_call(st, w, inv, args):
            th = gget(st, 'thread')
            want = th if not (isc(th.base) and th.base == 0) else P.p
            ex.prove(st, 'processor/thread-belongs-to-it', ex.ptr_eq(rp(ex, st, P.tl), want), 'user code runs while the thread does not belong to the processor')
            kind = None
            for nm in ('init', 'deinit'):
                x = gget(st, nm)
                if x is not None and ex.entails(st, eq(inv, x)):
                    kind = nm
            if kind == 'init':
                ex.prove(st, 'processor/start-function-first', band(eq(gget(st, 'inits'), 0), eq(gget(st, 'waited', 0), 0)), 'the start function runs twice or after jobs')
                gset(st, 'inits', 1)
            elif kind == 'deinit':
                ex.prove(st, 'processor/end-function-last', band(eq(gget(st, 'deinits'), 0), bor(eq(gget(st, 'ended', 0), 1), eq(gget(st, 'threw', 0), 1))),
                         'the end function runs twice or before the end')
                gset(st, 'deinits', 1)
                P.throwing = False
            else:
                due = gget(st, 'due')
                ex.prove(st, 'processor/runs-what-it-took', band(due is not None, eq(due, 1), eq(w, gget(st, 'due w')), eq(inv, gget(st, 'due inv'))) if due is not None else False,
                         'a job runs twice, or another one than the one taken out')
                gset(st, 'due', 0)

        def icall(ex_, st, p, args, ins):
            P.throwing = True
            return P.icall(ex_, st, p, args, ins)
        P.on_call = on_call
        ex.icall_hook = icall
        cases = [(a, b) for a in (0, 1) for b in (0, 1)] if meth == 'run' else [(0, 0)]
        for th, st0 in P.each_thread():
            for a, b in cases:
                st = st0.clone()
                for k in ('inits', 'deinits', 'waited', 'ended', 'threw'):
                    gset(st, k, 0)
                gset(st, 'due', 0)
                gset(st, 'due w', 0)
                gset(st, 'due inv', 0)
                args = [P.p]
                if meth == 'run':
                    fi, wi = P.job(st, 'threadInit')
                    fd, wd = P.job(st, 'threadDeinit')
                    if not a:
                        ex.write(st, fi.at(16), 'm', 8, NULL)
                    else:
                        gset(st, 'init', wi[3])
                    if not b:
                        ex.write(st, fd.at(16), 'm', 8, NULL)
                    else:
                        gset(st, 'deinit', wd[3])
                    args += [fi, fd]
                    ex.assume(st, bnot(eq(wi[3], wd[3])))
                else:
                    dl = ex.fresh_int(st, 'deadline', 0, 1 << 60)
                    if 'Until' in meth:
                        gset(st, 'deadline', dl)
                    args += [dl]

                def after(s, kind, r=None, a=a, b=b):
                    due = gget(s, 'due')
                    ex.prove(s, 'processor/thread-given-back', ex.ptr_eq(rp(ex, s, P.tl), gget(s, 'thread')), 'the thread still belongs to the processor afterwards')
                    ex.prove(s, 'processor/nothing-taken-is-lost', eq(due, 0), 'a job was taken out but not run')
                    if kind == 'threw':
                        return
                    if meth == 'run':
                        ex.prove(s, 'processor/start-function-called', eq(gget(s, 'inits'), a), 'the start function was not called')
                        ex.prove(s, 'processor/end-function-called', eq(gget(s, 'deinits'), b), 'the end function was not called')
                    if once:
                        n = gget(s, 'calls')
                        ex.prove(s, 'processor/one-job', eq(n, ite(ex.to_bool(r), 1, 0)), 'does not report whether a job was run')
                        if ex.decide(s, ex.to_bool(r)):
                            return
                    ex.prove(s, 'processor/ends-when-stopped', eq(gget(s, 'ended'), 1), 'ends although it was not stopped')

                def post(s, r):
                    after(s, 'ret', r)
                    if isc(gget(s, 'ended')) and gget(s, 'ended') == 1:
                        ex.mark('ended')

                def unwind(s, v):
                    ex.mark('threw')
                    after(s, 'threw')
                t.run(f, st, args, post, unwind)
    return task


def t_stop(own):
    def task(t):
        P = Proc(t)
        ex = P.ex
        f = t.fn(TP + 'stop' if own else PR + '::stop')
        t.need('was running')
        for th, st in P.each_thread():
            if own and th != 'this':
                if th == 'no':
                    t.run(f, st, [], lambda s, r: ex.prove(s, 'processor/nobody-to-stop', bnot(ex.to_bool(r)), 'reports that a processor was stopped'))
                continue

            def post(s, r):
                if own:
                    ex.prove(s, 'processor/stop-reported', ex.to_bool(r))
                if gget(s, 'stopped'):
                    return
                ex.mark('was running')
                ex.prove(s, 'processor/stopped', band(eq(gget(s, 'closed'), 1), eq(gget(s, 'reopened'), 0)), 'a stopped processor still accepts jobs')
                ex.prove(s, 'processor/pending-jobs-dropped', eq(gget(s, 'cleared'), 1), 'jobs stay in the queue of a stopped processor')
                anon = eq(uf('ANON')(P.id(s, P.d)), 1)
                ex.prove(s, 'processor/leaves-routing', eq(gget(s, 'left'), ite(anon, 0, 1)), 'a stopped processor is still reachable by its name')
                if gget(s, 'left'):
                    ex.prove(s, 'processor/it-leaves', ex.ptr_eq(gget(s, 'leaver'), P.p), 'another processor is removed')
                ex.prove(s, 'processor/locks-released', not s.locks)
            t.run(f, st, [] if own else [P.p], post)
    return task


def t_rest(t):
    P = Proc(t)
    ex = P.ex
    st = P.st.clone()
    P.thread_of(st, NULL)

    def p1(s, r):
        ex.prove(s, 'processor/reusable', eq(gget(s, 'reopened'), 1), 'a processor to be used again stays stopped')
    t.run(t.fn(PR + '::reuse'), st, [P.p], p1)
    st = P.st.clone()

    def p2(s, r):
        ex.prove(s, 'processor/tells-stopped', eq(ex.to_bool(r), gget(s, 'stopped')), 'does not tell whether it is stopped')
    t.run(t.fn(PR + '::stopped'), st, [P.p], p2)
    st = P.st.clone()
    t.run(t.fn(PR + '::pendingCout'), st, [P.p], lambda s, r: ex.prove(s, 'processor/tells-pending', eq(r, gget(s, 'size')), 'wrong number of pending jobs'))
    st = P.st.clone()
    t.run(t.fn(PR + '::id'), st, [P.p], lambda s, r: ex.prove(s, 'processor/tells-its-id', eq(get_str(ex, s, as_ptr(r)), P.id(s, P.d)), 'wrong id'))
    for th, st in P.each_thread():
        out = Ptr(ex.fresh_base(st), 0)
        for k in ('instance', 'ref'):
            t.run(t.fn(TP + k), st.clone(), [out],
                  lambda s, r: ex.prove(s, 'processor/of-the-thread', ex.ptr_eq(rp(ex, s, out), gget(s, 'thread')), 'tells the wrong processor of the thread'))

        def pid(s, r, th=th):
            v = get_str(ex, s, as_ptr(r))
            ex.prove(s, 'processor/id-of-the-thread', eq(v, 0 if th == 'no' else P.id(s, P.d if th == 'this' else P.od)), 'tells the wrong id of the processor of the thread')
        t.run(t.fn(TP + 'id'), st.clone(), [], pid)
        if th != 'other':
            t.run(t.fn(TP + 'stopped'), st.clone(), [], lambda s, r, th=th: ex.prove(s, 'processor/of-the-thread-stopped', eq(ex.to_bool(r), gget(s, 'stopped', False)), 'wrong answer whether the processor of the thread is stopped'))


def t_waitable(own):
    def task(t):
        P = Proc(t)
        ex = P.ex
        P.throwing = True
        f = t.fn(TP + 'waitableExecute') if own else t.fn(PR + '::waitableExecute', lambda d: 'function<void' in d)
        t.need('refused', 'done')
        if not own:
            t.need('queued')
        for th, st in P.each_thread():
            if own and th == 'other':
                continue
            e, w = P.job(st)
            out = Ptr(ex.fresh_base(st), 0)

            def fut(s):
                return rp(ex, s, out)

            def ran(s, w=w):
                """the job was called and its future knows"""
                P.called_once(s, w)
                ex.prove(s, 'waitable/end-of-the-job-signalled', eq(gget(s, 'done'), 1), 'who waits is not told that the job has run')
                if gget(s, 'done'):
                    ex.prove(s, 'waitable/of-this-job', ex.ptr_eq(gget(s, 'done task'), gget(s, 'future of', NULL)), 'the end of another job is signalled')
                    ex.prove(s, 'waitable/exception-passed-on', eq(ex.to_bool(gget(s, 'done threw')), bool(gget(s, 'threw', 0))), 'whether the job threw is not passed on')
                ex.mark('done')

            def post(s, r, th=th, w=w):
                if th == 'no' and own or gget(s, 'stopped'):
                    ex.mark('refused')
                    ex.prove(s, 'waitable/refused', band(eq(fut(s).base, 0), eq(gget(s, 'pushes'), 0), eq(gget(s, 'calls'), 0)) if th == 'no' and own or not gget(s, 'future') else eq(gget(s, 'pushes'), 0),
                             'a refused job leaves something to wait for')
                    return
                ex.prove(s, 'waitable/signal-given', ex.ptr_eq(fut(s), gget(s, 'future', NULL)), 'nothing to wait for, or for another job')
                if th == 'this':
                    ex.prove(s, 'waitable/own-thread-runs-at-once', eq(gget(s, 'pushes'), 0), 'a job of the own thread is queued: waiting for it never ends')
                    ran(s)
                    return
                n = gget(s, 'pushes')
                ex.prove(s, 'waitable/job-queued-once', eq(n, 1), 'the job is not queued exactly once')
                ex.prove(s, 'waitable/not-run-on-this-thread', eq(gget(s, 'calls'), 0), 'a job runs on the wrong thread')
                if n:
                    ex.mark('queued')
                    t.run(call_op(t), s, [gget(s, 'job')], lambda s2, r2: ran(s2), cover='job run')
            t.run(f, st, ([out] if own else [out, P.p]) + [e], post)
    return task


def t_bound(meth, how, own):
    """functions bound to a processor: calling one, however often, executes the job on the processor as long as it lives"""
    def task(t):
        P = Proc(t)
        ex = P.ex
        f = t.fn(TP + meth if own else PR + '::' + meth)
        t.need('first call', 'second call', 'processor gone')
        for k in ('execute', 'executeAsync', 'waitableExecute'):
            def c(ex_, st, c, k=k):
                g = c.args[-1]
                gset(st, 'ops', gget(st, 'ops', ()) + ((k, P.words(st, g)),))
                ex.prove(st, 'bound/on-its-processor', ex.ptr_eq(c.args[0] if c.args[0] is not g and k != 'waitableExecute' else c.args[1], P.p), 'runs on another processor')
                if k == 'waitableExecute':
                    P.task_future(ex, st, type('C', (), dict(args=[c.args[0], NULL])))
                    return None
                return ex.choose(st, 2) == 1
            ex.contracts[PR + '::' + k] = c
        for th, st in P.each_thread():
            if own and th != 'this':
                continue
            e, w = P.job(st)
            out = Ptr(ex.fresh_base(st), 0)

            def call(s, k):
                gset(s, 'ops', ())
                gset(s, 'future', NULL)
                P.alive = None
                gset(s, ('alive', P.ctl.base.get_id()), 0)

                def post2(s2, r, k=k):
                    ops = gget(s2, 'ops')
                    if gget(s2, 'was alive') is False:
                        ex.mark('processor gone')
                        ex.prove(s2, 'bound/nothing-after-the-end', not ops, 'acts on a processor that is gone')
                    else:
                        ex.mark(k)
                        ok = len(ops) == 1 and ops[0][0] == how
                        ex.prove(s2, 'bound/executes-once', ok, 'the job is not executed exactly once')
                        if ok:
                            j = ops[0][1]
                            ex.prove(s2, 'bound/the-given-job', band(eq(j[0], w[0]), eq(j[2], w[2]), eq(j[3], w[3])), 'another job than the one given is executed (' + k + ')')
                        if how == 'waitableExecute':
                            ex.prove(s2, 'bound/waits', ex.ptr_eq(gget(s2, 'waited for', NULL), gget(s2, 'future')), 'does not wait for the job')
                    if k == 'first call':
                        gset(s2, 'was alive', None)
                        call(s2, 'second call')
                t.run(call_op(t), s, [out], post2, cover='called')

            def post(s, r):
                ex.prove(s, 'bound/nothing-yet', not gget(s, 'ops'), 'executes before it is called')
                call(s, 'first call')
            gset(st, 'ops', ())
            P.alive = True
            t.run(f, st, ([out] if own else [out, P.p]) + [e], post)
    return task


# ------------------------------------------------------------------ P02: messages
H = 'maf::signal_slots::details::'


class Msg(Proc):
    """a processor with an arbitrary table of message handlers, and a message"""

    def __init__(self, t):
        Proc.__init__(self, t)
        ex, st = self.ex, self.st
        ex.gfld['same_region'] = True
        self.mtx = self.d.at(t.off(PD, 'msgHandlersMap') + t.off(r'maf::threading::Lockable<std::map<std::type_index.*', '_mutex'))
        self.map = self.d.at(t.off(PD, 'msgHandlersMap') + t.off(r'maf::threading::Lockable<std::map<std::type_index.*', '_protected'))
        for k in ('connect', 'connected', 'notify'):
            ex.contracts[H + 'BasicSignal_::' + k] = getattr(self, 's_' + k)
        ex.contracts[H + 'BasicSignalThreadSafe::BasicSignalThreadSafe'] = self.s_new
        ex.contracts[H + 'Connection::Connection'] = self.con_move
        ex.contracts[H + 'Connection::operator='] = self.con_move
        ex.contracts[H + 'Connection::~Connection'] = lambda ex, st, c: None
        ex.hooks['lock'] = self.lock
        ex.hooks['erased'] = self.erased
        ex.hooks['inserted'] = self.inserted
        ex.hooks['container_access'] = self.access
        ex.hooks['seq_init'] = lambda ex, st, p, S, ep: setattr(S, 'ep', ep)
        ex.loop_hooks.append(lambda ex, entry, head, rec, fi, norm: [] if gget(entry, 'dropped') is None else
                             [('stays-dropped', lambda st: bnot(self.table(st).contains(ex, st, (gget(st, 'dropped'),))))])
        for k in ('notified', 'asked', 'connects', 'erx', 'locked', 'made'):
            gset(st, k, 0)
        self.table(st)

    def kr(self, ex, st, p):
        return (rd(ex, st, p),)

    def table(self, st):
        return stl.get_seq(self.ex, st, self.map, self.kr)

    def message(self, st, name='msg'):
        m = self.t.obj(st, name)
        mgr, data = rd(self.ex, st, m), rd(self.ex, st, m.at(8))
        self.ex.assume(st, bnot(eq(mgr, 0)))
        return m, mgr, data

    def mtype(self, st, mgr):
        return uf('anytype')(mgr)

    def mine(self, p):
        return eq(p.base, self.mtx.base) is True and eq(p.off, self.mtx.off) is True

    def lock(self, ex, st, p):
        if not self.mine(p):
            return
        if gget(st, 'locked'):
            stl.set_seq(ex, st, self.map, stl.SeqInit(ex, st, self.kr))
        gset(st, 'locked', 1)
        gset(st, 'M0', self.table(st))
        w = gget(st, 'watch')
        if w is not None:
            # the signal of this entry when the lock was taken
            gset(st, 'watched', self.at(st, gget(st, 'M0'), w, True)[1])

    def guarded(self, st):
        self.ex.prove(st, 'messages/table-locked', bool(st.locks), 'the table of handlers is used without its lock')

    def access(self, ex, st, p, *a):
        if eq(p.base, self.map.base) is True and eq(p.off, self.map.off) is True:
            self.guarded(st)

    def at(self, st, M, ty, now=False):
        """(is there an entry, the signal of the entry)"""
        ex = self.ex
        c = M.contains(ex, st, (ty,))
        if not now and M is gget(st, 'M0') and gget(st, 'watch') is not None and eq(ty, gget(st, 'watch')) is True:
            return c, gget(st, 'watched')
        nd = M.node(ex, st, M.pos(ex, st, (ty,)))
        sig = rp(ex, st, Ptr(nd, 8))
        # table invariant: every entry has a signal
        ex.assume(st, implies(c, band(bnot(eq(sig.base, 0)), eq(sig.off, 0))))
        return c, sig

    def s_new(self, ex, st, c):
        gadd(st, 'made')
        gset(st, 'new signal', c.args[0])
        return None

    def s_connect(self, ex, st, c):
        con, sig, f = c.args
        gadd(st, 'connects')
        gset(st, 'connected to', sig)
        gset(st, 'slot', f)
        gset(st, 'slot words', self.words(st, f))
        gset(st, 'connection', con)
        gset(st, 'M1', self.table(st))
        return None

    def con_move(self, ex, st, c):
        # connections are moved on (they cannot be copied); a new one is connected to nothing
        if len(c.args) == 2 and ex.ptr_eq(c.args[1], gget(st, 'connection', NULL)) is True:
            gset(st, 'connection', c.args[0])
        return c.args[0] if c.norm.endswith('=') else None

    def s_connected(self, ex, st, c):
        r = ex.fresh_int(st, 'connected', 0, 1)
        gset(st, 'asked', c.args[0])
        gset(st, 'answer', r)
        return eq(r, 1)

    def s_notify(self, ex, st, c):
        self.nolock(st, 'notifying')
        gadd(st, 'notified')
        gset(st, 'notified signal', c.args[0])
        gset(st, 'notified mgr', rd(ex, st, c.args[1]))
        gset(st, 'notified data', rd(ex, st, c.args[1].at(8)))
        gset(st, 'notified table', self.table(st))
        if self.throwing and ex.choose(st, 2) == 1:
            gset(st, 'threw', 1)
            ex.throw_state(st, '_ZTISt9exception')
            return '$throw'
        return None

    def erased(self, ex, st, cont, nd):
        if not (eq(cont.base, self.map.base) is True and eq(cont.off, self.map.off) is True):
            return
        self.guarded(st)
        ty = rd(ex, st, Ptr(nd, 0))
        sig = rp(ex, st, Ptr(nd, 8))
        a = gget(st, 'asked')
        uncon = band(ex.ptr_eq(sig, a), eq(gget(st, 'answer'), 0)) if isinstance(a, Ptr) else False
        want = gget(st, 'dropped')
        ex.prove(st, 'messages/only-these-handlers-dropped', bor(uncon, eq(ty, want) if want is not None else False), 'handlers of another kind of message are dropped although connected')

    def inserted(self, ex, st, cont, nd):
        if eq(cont.base, self.map.base) is True and eq(cont.off, self.map.off) is True:
            self.guarded(st)

    def delivered(self, s, mgr, data):
        """processing the message: notified once if there are handlers when it is processed"""
        ex = self.ex
        ty = self.mtype(s, mgr)
        c, sig = self.at(s, gget(s, 'M0'), ty)
        n = gget(s, 'notified')
        if ex.decide(s, c):
            ex.mark('delivered')
            ex.prove(s, 'messages/delivered-once', eq(n, 1), 'the message does not reach its handlers exactly once')
            if n:
                ex.prove(s, 'messages/to-its-handlers', ex.ptr_eq(gget(s, 'notified signal'), sig), 'the message reaches handlers of another kind')
                ex.prove(s, 'messages/unchanged', band(eq(gget(s, 'notified mgr'), mgr), eq(gget(s, 'notified data'), data)), 'the handlers get another message')
        else:
            ex.mark('no handlers')
            ex.prove(s, 'messages/nobody-to-deliver-to', eq(n, 0), 'a message without handlers is delivered')
        ex.prove(s, 'messages/locks-released', not s.locks)


def t_post(own, waitable):
    def task(t):
        P = Msg(t)
        ex = P.ex
        name = 'waitablePost' if waitable else 'post'
        f = t.fn(TP + name if own else PR + '::' + name, r'\(std::any\)')
        t.need('refused', 'delivered', 'no handlers', 'no handler connected')
        P.throwing = waitable
        for th, st in P.each_thread():
            if own and th == 'other':
                continue
            m, mgr, data = P.message(st)
            gset(st, 'watch', P.mtype(st, mgr))
            out = Ptr(ex.fresh_base(st), 0)

            def post(s, r, th=th, mgr=mgr, data=data):
                n = gget(s, 'pushes')
                ty = P.mtype(s, mgr)
                M = gget(s, 'M0')
                if own and th == 'no':
                    ex.prove(s, 'messages/nobody', eq(n, 0) if waitable else band(eq(n, 0), bnot(ex.to_bool(r))), 'a message to no processor is accepted')
                    return
                if waitable:
                    fut = rp(ex, s, out)
                    ok = bnot(eq(fut.base, 0))
                    ex.prove(s, 'messages/refused-nothing-to-wait-for', bor(ok, band(eq(n, 0), eq(gget(s, 'notified'), 0))), 'nothing to wait for, but the message is processed')
                else:
                    ok = ex.to_bool(r)
                    ex.prove(s, 'messages/refused-not-queued', bor(ok, eq(n, 0)), 'a refused message is processed')
                if M is None:
                    ex.mark('refused')
                    ex.prove(s, 'messages/stopped-refuses', bnot(ok), 'a stopped processor accepts a message')
                    return
                if not (th == 'this' and waitable) or gget(s, 'notified') == 0 and gget(s, 'done') == 0:
                    c, sig = P.at(s, M, ty)
                    # what was known about the handlers
                    if not ex.decide(s, c) or not ex.decide(s, bnot(eq(gget(s, 'answer', 1), 0))):
                        ex.mark('no handler connected')
                        ex.prove(s, 'messages/nobody-listens-refused', bnot(ok), 'a message that nobody handles is accepted')
                        return
                    ex.prove(s, 'messages/its-handlers-asked', ex.ptr_eq(gget(s, 'asked'), sig) if isinstance(gget(s, 'asked'), Ptr) else False, 'asks the wrong handlers')
                    if gget(s, 'stopped'):
                        ex.prove(s, 'messages/stopped-in-between', eq(n, 0))
                        return
                ex.prove(s, 'messages/accepted', ok, 'a message with handlers is refused')
                if th == 'this' and waitable:
                    ex.prove(s, 'messages/own-thread-at-once', eq(n, 0), 'a message that is waited for on the own thread is queued: waiting never ends')
                    P.delivered(s, mgr, data)
                    done(s)
                    return
                ex.prove(s, 'messages/queued-once', eq(n, 1), 'the message is not queued exactly once')
                ex.prove(s, 'messages/not-on-this-thread', eq(gget(s, 'notified'), 0), 'the message is processed on the wrong thread')
                if n:
                    def later(s2, r2, mgr=mgr, data=data):
                        P.delivered(s2, mgr, data)
                        if waitable:
                            done(s2)
                    t.run(call_op(t), s, [gget(s, 'job')], later, cover='processed')

            def done(s):
                ex.prove(s, 'messages/end-signalled', eq(gget(s, 'done'), 1), 'who waits is not told that the message was processed')
                if gget(s, 'done'):
                    ex.prove(s, 'messages/end-of-this-one', ex.ptr_eq(gget(s, 'done task'), gget(s, 'future of', NULL)), 'the end of another message is signalled')
            t.run(f, st, ([out] if waitable else []) + ([] if own else [P.p]) + [m], post)
    return task


def t_mconnect(t):
    """a handler is connected to the signal of its kind of message, and the connection is that of the handler"""
    P = Msg(t)
    ex, st = P.ex, P.st
    f = t.fn(PR + '::connect', r'std::type_index const')
    t.need('first', 'another')
    P.thread_of(st, NULL)
    key = t.obj(st, 'msgid')
    ty = rd(ex, st, key)
    cb, w = P.job(st, 'handler')
    out = Ptr(ex.fresh_base(st), 0)
    tz = ex.fresh_int(st, 'otherkind', 1, HEAP_LIMIT - 1)
    ex.assume(st, bnot(eq(tz, ty)))
    gset(st, 'watch', ty)

    def post(s, r):
        c0, sig0 = P.at(s, gget(s, 'M0'), ty)
        ex.prove(s, 'messages/handler-connected-once', eq(gget(s, 'connects'), 1), 'the handler is not connected exactly once')
        if not gget(s, 'connects'):
            return
        M1 = P.table(s)
        to = gget(s, 'connected to')
        if ex.decide(s, c0):
            ex.mark('another')
            ex.prove(s, 'messages/handlers-kept', ex.ptr_eq(to, sig0), 'the handlers connected before are lost')
        else:
            ex.mark('first')
            ex.prove(s, 'messages/new-handlers', ex.ptr_eq(to, gget(s, 'new signal', NULL)), 'connected to the handlers of another kind of message')
        c1 = M1.contains(ex, s, (ty,))
        nd = M1.node(ex, s, M1.pos(ex, s, (ty,)))
        ex.prove(s, 'messages/handlers-found-again', band(c1, ex.ptr_eq(rp(ex, s, Ptr(nd, 8)), to)), 'messages do not find the handler')
        j = gget(s, 'slot words')
        ex.prove(s, 'messages/the-given-handler', band(eq(j[0], w[0]), eq(j[2], w[2]), eq(j[3], w[3])), 'another handler is connected')
        ex.prove(s, 'messages/connection-of-the-handler', ex.ptr_eq(rp(ex, s, out), gget(s, 'connection')), 'the connection is not that of the handler')
        ex.prove(s, 'messages/other-kinds-kept', eq(gget(s, 'M0').contains(ex, s, (tz,)), M1.contains(ex, s, (tz,))), 'handlers of another kind are gone')
        ex.prove(s, 'messages/locks-released', not s.locks)
    t.run(f, st, [out, P.p, key, cb], post)


def t_mdisconnect(own):
    def task(t):
        P = Msg(t)
        ex = P.ex
        f = t.fn(TP + 'disconnect' if own else PR + '::disconnect', r'std::type_index const')
        t.need('gone')
        for th, st in P.each_thread():
            if th != 'this':
                continue
            key = t.obj(st, 'msgid')
            gset(st, 'dropped', rd(ex, st, key))

            def post(s, r):
                ex.mark('gone')
                M = P.table(s)
                M0 = gget(s, 'M0')
                c = M0.contains(ex, s, (gget(s, 'dropped'),))
                if gget(s, 'connects'):
                    return
                ex.prove(s, 'messages/handlers-dropped', bnot(M.contains(ex, s, (gget(s, 'dropped'),))), 'the handlers are still there')
                ex.prove(s, 'messages/locks-released', not s.locks)
            t.run(f, st, [key] if own else [P.p, key], post)
    return task


def t_mconnected(t):
    P = Msg(t)
    ex, st = P.ex, P.st
    f = t.fn(PR + '::connected', r'std::type_index const')
    t.need('nobody', 'asked')
    key = t.obj(st, 'msgid')
    ty = rd(ex, st, key)

    def post(s, r):
        c, sig = P.at(s, gget(s, 'M0'), ty)
        if not ex.decide(s, c):
            ex.mark('nobody')
            ex.prove(s, 'messages/no-handlers-not-connected', bnot(ex.to_bool(r)), 'says that a message is handled that is not')
        else:
            ex.mark('asked')
            ok = isinstance(gget(s, 'asked'), Ptr)
            ex.prove(s, 'messages/tells-connected', band(ex.ptr_eq(gget(s, 'asked'), sig), eq(ex.to_bool(r), eq(gget(s, 'answer'), 1))) if ok else False,
                     'does not tell whether a handler is connected')
        ex.prove(s, 'messages/locks-released', not s.locks)
    t.run(f, st, [P.p, key], post)


MC = N + 'MsgConnection'


def t_mcon(t):
    """MsgConnection: an owner of the connection of a handler"""
    ex = t.ex
    ops = ('connected', 'disconnect', 'reconnect')
    st0 = t.state()
    con, inner, other, oinner = t.obj(st0, 'connection'), t.obj(st0, 'inner'), t.obj(st0, 'other'), t.obj(st0, 'otherinner')
    for k in ('~Connection',) + ops:
        def c(ex, st, c, k=k):
            gset(st, 'ops', gget(st, 'ops', ()) + ((k, c.args[0]),))
            if k == 'connected':
                r = ex.choose(st, 2) == 1
                gset(st, 'r', r)
                return r
            return None
        ex.contracts[H + 'Connection::' + k] = c
    t.need('nothing', 'used', 'moved', 'assigned', 'assigned to itself')
    for full in (True, False):
        for k in ops:
            st = st0.clone()
            ex.write(st, con, 'm', 8, inner if full else NULL)

            def post(s, r, k=k):
                o = gget(s, 'ops', ())
                ex.mark('used' if full else 'nothing')
                ex.prove(s, 'connection/of-its-handler', len(o) == (1 if full else 0) and all(x[0] == k and ex.ptr_eq(x[1], inner) is True for x in o), 'acts on another connection, or not at all')
                if k == 'connected':
                    ex.prove(s, 'connection/tells-connected', eq(ex.to_bool(r), gget(s, 'r', False)), 'does not tell whether the handler is connected')
            t.run(t.fn(MC + '::' + k), st, [con], post)
        # moving
        st = st0.clone()
        ex.write(st, other, 'm', 8, oinner if full else NULL)
        new = Ptr(ex.fresh_base(st), 0)

        def moved(s, r):
            ex.mark('moved')
            ex.prove(s, 'connection/moved', band(ex.ptr_eq(rp(ex, s, new), oinner if full else NULL), eq(rp(ex, s, other).base, 0), not gget(s, 'ops', ())), 'moving does not hand over the connection')
        t.run(t.fn(MC + '::MsgConnection', r'&&\)'), st, [new, other], moved)
        st = st0.clone()
        ex.write(st, other, 'm', 8, oinner)
        ex.write(st, con, 'm', 8, inner if full else NULL)

        def assigned(s, r):
            ex.mark('assigned')
            ex.prove(s, 'connection/assigned', band(ex.ptr_eq(rp(ex, s, con), oinner), eq(rp(ex, s, other).base, 0)), 'assigning does not hand over the connection')
            o = gget(s, 'ops', ())
            ex.prove(s, 'connection/old-one-given-back', len(o) == (1 if full else 0) and all(x[0] == '~Connection' and ex.ptr_eq(x[1], inner) is True for x in o), 'the old connection object is leaked')
            ex.prove(s, 'connection/returns-itself', ex.ptr_eq(as_ptr(r), con))
        t.run(t.fn(MC + '::operator='), st, [con, other], assigned)
        st = st0.clone()
        ex.write(st, con, 'm', 8, inner if full else NULL)

        def self_(s, r):
            ex.mark('assigned to itself')
            ex.prove(s, 'connection/assigned-to-itself', band(ex.ptr_eq(rp(ex, s, con), inner if full else NULL), not gget(s, 'ops', ())), 'assigning a connection to itself loses it')
        t.run(t.fn(MC + '::operator='), st, [con, con], self_)
        st = st0.clone()
        ex.write(st, con, 'm', 8, inner if full else NULL)

        def dead(s, r):
            o = gget(s, 'ops', ())
            ex.prove(s, 'connection/given-back', len(o) == (1 if full else 0) and all(x[0] == '~Connection' and ex.ptr_eq(x[1], inner) is True for x in o), 'the connection object is leaked, or given back twice')
        t.run(t.fn(MC + '::~MsgConnection'), st, [con], dead)


def typeinfo(t, rx):
    for m in t.prog.mods:
        for g in m.global_lines:
            if re.match(rx, g):
                return t.ex.global_ptr(g, m)
    raise Unsupported('type information ' + rx)


def t_typed(empty):
    """typed handlers: connected for their kind of message, and called once with the contents of each"""
    def task(t):
        P = Msg(t)
        ex, st = P.ex, P.st
        P.thread_of(st, NULL)
        f = t.fn(PR + '::connect', r'connect<Data>\(std::function<void \(%s\)>' % ('' if empty else 'Data const&'))
        ti = typeinfo(t, r'_ZTI4Data$')
        t.need('called', 'sent')
        cb, w = P.job(st, 'handler')
        out = Ptr(ex.fresh_base(st), 0)

        def generic(ex, st, c):
            if not st.frames or c.norm != PR + '::connect' or 'Data' in c.dem:
                return '$body'
            gadd(st, 'connects')
            gset(st, 'kind', rd(ex, st, c.args[2]))
            slot = Ptr(ex.fresh_base(st), 0)
            ex.copy_region(st, slot, c.args[3], 32)
            gset(st, 'slot', slot)
            ex.write(st, c.args[0], 'm', 8, Ptr(ex.fresh_base(st), 0))
            return None
        ex.contracts[PR + '::connect'] = generic

        def post(s, r):
            ex.prove(s, 'typed/connected-once', eq(gget(s, 'connects'), 1), 'the handler is not connected exactly once')
            if not gget(s, 'connects'):
                return
            ex.prove(s, 'typed/for-its-kind', eq(gget(s, 'kind'), ex.as_int(ti)), 'the handler is connected for another kind of message')
            slot = gget(s, 'slot')
            # a message of this kind, as post<Data> makes it
            d = t.obj(s, 'data')
            v = rd(ex, s, d)

            def gpost(ex, st, c):
                if 'Data' in c.dem:
                    return '$body'
                gadd(st, 'posts')
                m = Ptr(ex.fresh_base(st), 0)
                ex.copy_region(st, m, c.args[-1], 16)
                gset(st, 'message', m)
                return True
            ex.contracts[PR + '::post'] = gpost
            gset(s, 'posts', 0)

            def posted(s2, r2):
                ex.mark('sent')
                ex.prove(s2, 'typed/posted-once', eq(gget(s2, 'posts'), 1), 'the message is not posted exactly once')
                m = gget(s2, 'message')
                gset(s2, 'calls', 0)

                def on_call(s3, w3, inv, args):
                    if not empty:
                        gset(s3, 'got', rd(ex, s3, args[1]))
                P.on_call = on_call

                def called(s3, r3):
                    ex.mark('called')
                    P.called_once(s3, w, 'typed')
                    if not empty:
                        ex.prove(s3, 'typed/contents', eq(gget(s3, 'got', -1), v), 'the handler gets other contents than those sent')
                t.run(t.fn('std::function::operator()', r'std::function<void \(std::any const&\)>::operator\(\)'), s2, [slot, m], called, cover='notified')
            t.run(t.fn(PR + '::post', r'post<Data, Data&>'), s, [P.p, d], posted, cover='posted')
        t.run(f, st, [out, P.p, cb], post)
    return task


def t_forward(name, own):
    """typed operations: the same operation for messages of their type, on the same processor, with the contents given and the answer reported"""
    def task(t):
        P = Msg(t)
        ex, st = P.ex, P.st
        P.thread_of(st, P.p)
        pre = TP if own else PR + '::'
        f = t.fn(pre + name, r'%s<Data\b' % name)
        ti = typeinfo(t, r'_ZTI4Data$')
        t.need('done')
        wait, msg = name == 'waitablePost', name in ('post', 'waitablePost')
        d = t.obj(st, 'data')
        v = rd(ex, st, d)
        out = Ptr(ex.fresh_base(st), 0)
        fs = [ex.fn_ptr(k).base for q in t.prog.mods for k in q.funcs if '4Data' in k and '_S_manage' in k]
        gset(st, 'n', 0)

        def go(ex, st, c):
            if '<Data' in c.dem.split('(')[0]:
                return '$body'
            a = list(c.args)
            if wait:
                o = a.pop(0)
                ex.write(st, o, 'm', 8, Ptr(uf('sent')(z3.IntVal(7)), 0))
                ex.write(st, o.at(8), 'm', 8, NULL)
            gadd(st, 'n')
            if len(a) == 2:
                ex.prove(st, 'typed/on-the-same', ex.ptr_eq(as_ptr(a[0]), P.p), 'acts on another processor')
            x = as_ptr(a[-1])
            if msg:
                mgr = rd(ex, st, x)
                ex.prove(st, 'typed/kind', bor(*[eq(mgr, b) for b in fs]), 'a message of another kind is sent')
                ex.prove(st, 'typed/contents', eq(rd(ex, st, x.at(8)), v), 'other contents are sent')
            else:
                ex.prove(st, 'typed/kind', eq(rd(ex, st, x), ex.as_int(ti)), 'acts on another kind of message')
            if wait or name == 'disconnect':
                return None
            r = ex.fresh_int(st, 'result', 0, 1)
            gset(st, 'result', r)
            return eq(r, 1)
        for q in (TP, PR + '::'):
            ex.contracts[q + name] = go

        def post(s, r):
            ex.mark('done')
            ex.prove(s, 'typed/done-once', eq(gget(s, 'n'), 1), 'the operation is not done exactly once')
            if not gget(s, 'n') or name == 'disconnect':
                return
            ex.prove(s, 'typed/result', eq(ex.to_bool(r), eq(gget(s, 'result'), 1)) if not wait else eq(rp(ex, s, out).base, uf('sent')(z3.IntVal(7))), 'another result is reported')
        t.run(f, st, ([out] if wait else []) + ([] if own else [P.p]) + ([d] if msg else []), post)
    return task


def t_own_connect(t):
    """a typed handler connected for the processor of this thread: as if it were connected with that processor"""
    P = Msg(t)
    ex, st = P.ex, P.st
    P.thread_of(st, P.p)
    f = t.fn(TP + 'connect', r'connect<Data\b')
    cb, w = P.job(st, 'handler')
    out = Ptr(ex.fresh_base(st), 0)
    con = Ptr(ex.fresh_base(st), 0)
    gset(st, 'n', 0)
    t.need('connected')

    def go(ex, st, c):
        gadd(st, 'n')
        ex.prove(st, 'typed/on-the-same', ex.ptr_eq(as_ptr(c.args[1]), P.p), 'connects with another processor')
        ex.prove(st, 'typed/for-its-kind', 'connect<Data>' in c.dem, 'connects for another kind of message')
        g = P.words(st, c.args[2])
        ex.prove(st, 'typed/the-given-handler', band(eq(g[0], w[0]), eq(g[2], w[2]), eq(g[3], w[3])), 'connects another handler')
        ex.write(st, c.args[0], 'm', 8, con)
        return None
    ex.contracts[PR + '::connect'] = go

    def post(s, r):
        ex.mark('connected')
        ex.prove(s, 'typed/connected-once', eq(gget(s, 'n'), 1), 'the handler is not connected exactly once')
        ex.prove(s, 'typed/connection', ex.ptr_eq(rp(ex, s, out), con), 'another connection is returned')
    t.run(f, st, [out, cb], post)


MTASKS = [('post', t_post(False, False)), ('this post', t_post(True, False)), ('waitablePost', t_post(False, True)), ('this waitablePost', t_post(True, True)),
          ('connect', t_mconnect), ('disconnect', t_mdisconnect(False)), ('this disconnect', t_mdisconnect(True)), ('connected', t_mconnected),
          ('connection', t_mcon), ('typed', t_typed(False)), ('typed empty', t_typed(True)), ('this typed connect', t_own_connect)]
MTASKS += [('%styped %s' % ('this ' if o else '', n), t_forward(n, o)) for n, o in
           (('disconnect', False), ('disconnect', True), ('connected', False), ('post', False), ('post', True), ('waitablePost', False))]


def t_executor(meth, how, own):
    """executors of a processor: each function they are given is executed on it as long as it lives"""
    def task(t):
        P = Proc(t)
        ex = P.ex
        f = t.fn(TP + meth if own else PR + '::' + meth)
        t.need('executed', 'processor gone')
        for k in ('execute', 'executeAsync', 'waitableExecute'):
            def c(ex_, st, c, k=k):
                gset(st, 'ops', gget(st, 'ops', ()) + ((k, P.words(st, c.args[-1])),))
                ex.prove(st, 'executor/on-its-processor', ex.ptr_eq(c.args[1 if k == 'waitableExecute' else 0], P.p), 'executes on another processor')
                if k == 'waitableExecute':
                    if ex.choose(st, 2) == 1:
                        gset(st, 'stopped', True)       # refused: nothing to wait for
                        ex.write(st, c.args[0], 'm', 8, NULL)
                        ex.write(st, c.args[0].at(8), 'm', 8, NULL)
                        return None
                    P.task_future(ex, st, type('C', (), dict(args=[c.args[0], NULL])))
                    return None
                ok = ex.choose(st, 2) == 1
                gset(st, 'taken', ok)
                return ok
            ex.contracts[PR + '::' + k] = c
        for th, st in P.each_thread():
            if own and th == 'other':
                continue
            out = Ptr(ex.fresh_base(st), 0)
            gset(st, 'ops', ())

            def post(s, r, th=th):
                o = rp(ex, s, out)
                if own and th == 'no':
                    ex.prove(s, 'executor/no-processor-no-executor', eq(o.base, 0), 'an executor of no processor')
                    return
                P.alive = None
                gset(s, ('alive', P.ctl.base.get_id()), 0)
                gset(s, 'stopped', False)
                fp = rp(ex, s, rp(ex, s, o).at(16))
                name = ex.base_fn.get(fp.base) if isc(fp.base) else None
                fn = next((m.funcs[name] for m in t.prog.mods if name in m.funcs), None)
                if fn is None:
                    raise Unsupported('execute() of the executor')
                e, w = P.job(s)

                def post2(s2, r2):
                    ops = gget(s2, 'ops')
                    if gget(s2, 'was alive') is False:
                        ex.mark('processor gone')
                        ex.prove(s2, 'executor/nothing-after-the-end', not ops, 'acts on a processor that is gone')
                        ex.prove(s2, 'executor/gone-reported', bnot(ex.to_bool(r2)), 'does not report that the processor is gone')
                        return
                    ex.mark('executed')
                    ok = len(ops) == 1 and ops[0][0] == how
                    ex.prove(s2, 'executor/executes-once', ok, 'the function is not executed exactly once, or in another way')
                    if ok:
                        j = ops[0][1]
                        ex.prove(s2, 'executor/the-given-function', band(eq(j[0], w[0]), eq(j[2], w[2]), eq(j[3], w[3])), 'another function is executed')
                    if gget(s2, 'taken', False):
                        ex.prove(s2, 'executor/taken-reported', ex.to_bool(r2), 'reports that the function was not executed although it was taken')
                    if not gget(s2, 'stopped'):
                        if how == 'waitableExecute':
                            ex.prove(s2, 'executor/waits', ex.ptr_eq(gget(s2, 'waited for', NULL), gget(s2, 'future', NULL)), 'does not wait for the function')
                    else:
                        ex.prove(s2, 'executor/refusal-reported', bnot(ex.to_bool(r2)), 'does not report that the function was not executed')
                t.run(fn, s, [o, e], post2, cover='execute')
            P.alive = True
            t.run(f, st, [out] if own else [out, P.p], post)
    return task


def t_value(t):
    """executing a function for its result: the caller gets what the function returned, and only after the function has run;
    the function runs at once (own thread), while the caller waits, or never (the processor stops: nothing is promised then)"""
    P = Proc(t)
    ex = P.ex
    f = t.fn('dv_value')
    R = ex.fresh_int(P.st, 'result', 0, (1 << 63) - 1)
    cb = t.obj(P.st, 'computation')
    t.need('at once', 'while waiting', 'refused')

    def compute(ex, st, c):
        ex.prove(st, 'value/the-given-function', ex.ptr_eq(c.args[0], cb), 'another function is executed')
        gadd(st, 'calls')
        return R
    ex.contracts['Computation::operator()'] = compute

    def call_job(ex, st, done):
        j = gget(st, 'job')
        fn = ex.func(ex.base_fn[rp(ex, st, j.at(24)).base])
        ex.push_call(st, fn, [j], on_ret=done)
        return '$pushed'

    def submit(ex, st, c):
        if 'waitableExecute<' in c.dem:
            return '$body'
        ex.prove(st, 'value/on-its-processor', ex.ptr_eq(c.args[1], P.p), 'executes on another processor')
        gadd(st, 'submits')
        how = gget(st, 'how')
        if how == 'refused':
            ex.write(st, c.args[0], 'm', 8, NULL)
            ex.write(st, c.args[0].at(8), 'm', 8, NULL)
            return None
        j = Ptr(ex.fresh_base(st), 0)
        ex.copy_region(st, j, c.args[2], 32)
        gset(st, 'job', j)
        P.task_future(ex, st, type('C', (), dict(args=[c.args[0], NULL])))
        if how == 'at once':
            return call_job(ex, st, lambda ex, st, v: ex.finish_call(st, None))
        return None

    def wait(ex, st, c):
        r = P.fwait(ex, st, c)
        if r is not None or gget(st, 'how') != 'while waiting' or gget(st, 'calls'):
            return r
        return call_job(ex, st, lambda ex, st, v: ex.finish_call(st, None))

    def timed(ex, st, c):
        # a wait with a limit may end before the job has run (1: timeout), or when it has (0: ready)
        if not gget(st, 'calls') and gget(st, 'how') == 'while waiting' and ex.choose(st, 2):
            return 1
        r = P.fwait(ex, st, c)
        if r is not None:
            return r
        if gget(st, 'how') != 'while waiting' or gget(st, 'calls'):
            return 0
        return call_job(ex, st, lambda ex, st, v: ex.finish_call(st, 0))
    ex.contracts[PR + '::waitableExecute'] = submit
    ex.contracts['std::__basic_future::wait'] = wait
    ex.contracts['std::__basic_future::wait_for'] = timed
    ex.contracts['std::__basic_future::wait_until'] = timed
    for how in ('at once', 'while waiting', 'refused'):
        for th, st in P.each_thread():
            gset(st, 'how', how)
            gset(st, 'submits', 0)

            def post(s, r, how=how):
                ex.mark(how)
                ex.prove(s, 'value/after-the-function-ran', gget(s, 'calls') == 1 and gget(s, 'submits') == 1, 'comes back before the function has run once')
                ex.prove(s, 'value/of-the-function', eq(ex.as_int(r), R), 'returns something else than the function')

            def unwind(s, v, how=how):
                ex.mark(how)
                ex.prove(s, 'value/only-a-refusal-throws', how == 'refused')
            t.run(f, st, [P.p, cb], post, unwind=unwind, cover='value')


AP = N + 'AsyncProcessor'


class Async(Proc):
    """a processor run by a thread of its own, or not (yet)"""

    def __init__(self, t):
        Proc.__init__(self, t)
        ex, st = self.ex, self.st
        self.a, self.sig, self.sctl = t.obj(st, 'async'), t.obj(st, 'running'), t.obj(st, 'runningctl')
        self.b, self.bp, self.bctl, self.bsig, self.bsctl = [t.obj(st, 'b' + k) for k in ('', 'p', 'pc', 's', 'sc')]
        self.oi, self.os = t.off(N + 'ProcessorExBase', 'instance_'), t.off(AP, 'stopSignal_')
        self.set(st, self.a, self.p, self.ctl, None, None)
        self.alive = True
        for k in ('stops', 'gets', 'launched', 'runs'):
            gset(st, k, 0)
        ex.contracts[PR + '::stop'] = self.stop
        ex.contracts[PR + '::run'] = self.run
        ex.contracts['dv_future_of'] = self.future_of
        ex.contracts['std::future::get'] = self.get
        ex.contracts['std::__basic_future::wait_for'] = self.wait_for
        ex.hooks['strong'] = self.strong

    def set(self, st, a, p, ctl, sig, sctl):
        ex = self.ex
        for o, v in ((self.oi, p), (self.oi + 8, ctl), (self.os, sig), (self.os + 8, sctl)):
            ex.write(st, a.at(o), 'm', 8, v if v is not None else NULL)

    def stop(self, ex, st, c):
        gset(st, 'stops', gget(st, 'stops') + 1)
        ex.prove(st, 'launched/stops-its-processor', ex.ptr_eq(c.args[0], self.p), 'another processor is stopped')
        return None

    def run(self, ex, st, c):
        gset(st, 'runs', gget(st, 'runs') + 1)
        gset(st, 'run', (c.args[0], self.words(st, c.args[1]), self.words(st, c.args[2])))
        return None

    def future_of(self, ex, st, c):
        ex.write(st, c.args[0], 'm', 8, self.sig)
        ex.write(st, c.args[0].at(8), 'm', 8, self.sctl)
        gset(st, 'launched', gget(st, 'launched') + 1)
        gset(st, 'policy', c.args[1])
        g = Ptr(ex.fresh_base(st), 0)
        ex.copy_region(st, g, c.args[2], 32)
        gset(st, 'function', g)
        return None

    def ended(self, st):
        self.ex.prove(st, 'launched/waits-only-for-an-end', gget(st, 'stops') > 0 or not gget(st, 'must stop'), 'waits for a run that nobody ends')

    def get(self, ex, st, c):
        f = rp(ex, st, c.args[0])
        ex.prove(st, 'launched/waits-for-its-run', ex.ptr_eq(f, self.sig), 'waits for something else')
        self.ended(st)
        gset(st, 'gets', gget(st, 'gets') + 1)
        ex.write(st, c.args[0], 'm', 8, NULL)
        ex.write(st, c.args[0].at(8), 'm', 8, NULL)
        return None

    def wait_for(self, ex, st, c):
        k = ex.choose(st, 2)        # ready or timeout
        ex.prove(st, 'launched/waits-for-its-run', ex.ptr_eq(rp(ex, st, c.args[0]), self.sig), 'waits for something else')
        gset(st, 'timed', ex.read_int(st, c.args[1], 8))
        gset(st, 'timed out', k == 1)
        return k

    def strong(self, ex, st, ctl, d):
        # releasing the future of a thread waits for its end
        if d < 0 and ex.ptr_eq(as_ptr(ctl), self.sctl) is True and gget(st, 'gets') == 0 and gget(st, 'holds', 1) == 1:
            self.ended(st)


def t_launch(t):
    A = Async(t)
    ex = A.ex
    t.need('launched', 'running already', 'no processor')
    for case in ('launched', 'running already', 'no processor'):
        st = A.st.clone()
        if case == 'running already':
            A.set(st, A.a, A.p, A.ctl, A.sig, A.sctl)
        elif case == 'no processor':
            A.set(st, A.a, None, None, None, None)
        fi, wi = A.job(st, 'threadInit')
        fd, wd = A.job(st, 'threadDeinit')

        def post(s, r, case=case):
            ex.mark(case)
            n = gget(s, 'launched')
            ex.prove(s, 'launched/once', n == (1 if case == 'launched' else 0), 'the processor is not run by exactly one thread')
            ex.prove(s, 'launched/known-to-run', ex.ptr_eq(rp(ex, s, A.a.at(A.os)), NULL if case == 'no processor' else A.sig), 'a running processor counts as not running, or the other way round')
            if n == 1:
                ex.prove(s, 'launched/on-a-thread-of-its-own', eq(gget(s, 'policy'), 1), 'the processor does not run on a thread of its own')
                ex.prove(s, 'launched/not-here', gget(s, 'runs') == 0, 'the processor runs on the calling thread')

                def ran(s2, r2):
                    ex.prove(s2, 'launched/runs-once', gget(s2, 'runs') == 1, 'the processor is not run exactly once')
                    if gget(s2, 'runs') == 1:
                        p, i, d = gget(s2, 'run')
                        ex.prove(s2, 'launched/runs-its-processor', ex.ptr_eq(p, A.p), 'another processor is run')
                        ex.prove(s2, 'launched/with-the-given-functions', band(eq(i[0], wi[0]), eq(i[3], wi[3]), eq(d[0], wd[0]), eq(d[3], wd[3])), 'other start and end functions than those given')
                t.run(call_op(t), s, [gget(s, 'function')], ran, cover='thread')
        t.run(t.fn(AP + '::launch'), st, [A.a, fi, fd], post)


def t_stopwait(t):
    """stopping and waiting, destroying, assigning: never waits for a run that nobody ends, and never leaves one behind"""
    A = Async(t)
    ex = A.ex
    t.need('stopped', 'not running', 'timeout')
    for what in ('stopAndWait', '~AsyncProcessor', 'operator='):
        for running in (True, False):
            st = A.st.clone()
            gset(st, 'must stop', True)
            args = [A.a]
            if running:
                A.set(st, A.a, A.p, A.ctl, A.sig, A.sctl)
            if what == 'stopAndWait':
                d = t.obj(st, 'duration')
                args.append(d)
                dv = ex.read_int(st, d, 8)
            if what == 'operator=':
                A.set(st, A.b, A.bp, A.bctl, A.bsig, A.bsctl)
                args.append(A.b)

            def post(s, r, what=what, running=running):
                if not running:
                    ex.mark('not running')
                    ex.prove(s, 'launched/nothing-to-stop', gget(s, 'stops') == 0 or what != 'stopAndWait')
                else:
                    ex.prove(s, 'launched/stopped', gget(s, 'stops') >= 1, 'the processor is not stopped')
                    if what == 'stopAndWait':
                        if gget(s, 'gets') == 0:
                            ex.mark('timeout')
                            ex.prove(s, 'launched/waits-for-ever-if-told', bnot(eq(dv, 0)), 'does not wait')
                            ex.prove(s, 'launched/still-to-wait-for', ex.ptr_eq(rp(ex, s, A.a.at(A.os)), A.sig), 'a run that has not ended is forgotten')
                        else:
                            ex.mark('stopped')
                            ex.prove(s, 'launched/not-running-any-more', eq(rp(ex, s, A.a.at(A.os)).base, 0), 'an ended run counts as running')
                    else:
                        ex.prove(s, 'launched/waited-for', gget(s, 'gets') == 1, 'goes on while the processor still runs')
                if what == 'operator=':
                    ex.prove(s, 'launched/taken-over', band(ex.ptr_eq(rp(ex, s, A.a.at(A.oi)), A.bp), ex.ptr_eq(rp(ex, s, A.a.at(A.os)), A.bsig), eq(rp(ex, s, A.b.at(A.os)).base, 0)), 'assigning does not hand over the running processor')
                ex.prove(s, 'launched/locks-released', not s.locks)
            t.run(t.fn(AP + '::' + what), st, args, post)
    # onto itself
    st = A.st.clone()
    A.set(st, A.a, A.p, A.ctl, A.sig, A.sctl)

    def same(s, r):
        ex.prove(s, 'launched/assigned-to-itself', band(ex.ptr_eq(rp(ex, s, A.a.at(A.oi)), A.p), ex.ptr_eq(rp(ex, s, A.a.at(A.os)), A.sig), gget(s, 'stops') == 0), 'assigning to itself loses or stops the processor')
    gset(st, 'holds', 0)
    t.run(t.fn(AP + '::operator='), st, [A.a, A.a], same)

def t_asyncwait(t):
    """waiting for a running processor, for ever or for some time: comes back when the run has ended (and then it is not running
    any more) or the time is over (and then it still is)"""
    A = Async(t)
    ex = A.ex
    t.need('ended', 'timeout', 'not running')
    f = t.fn(AP + '::wait')
    for running in (True, False):
        st = A.st.clone()
        gset(st, 'waited', 0)
        if running:
            A.set(st, A.a, A.p, A.ctl, A.sig, A.sctl)
        d = t.obj(st, 'duration')
        dv = ex.read_int(st, d, 8)

        def post(s, r, running=running, dv=dv):
            left = rp(ex, s, A.a.at(A.os))
            if not running:
                ex.mark('not running')
                ex.prove(s, 'launched/nothing-to-wait-for', gget(s, 'gets') == 0 and gget(s, 'timed') is None, 'waits for something that does not run')
                return
            tm = gget(s, 'timed')
            if tm is not None:
                ex.prove(s, 'launched/waits-as-long-as-told', eq(tm, dv), 'waits for another time than told')
            if tm is not None and gget(s, 'timed out'):
                ex.mark('timeout')
                ex.prove(s, 'launched/does-not-block-after-the-time', gget(s, 'gets') == 0, 'waits for ever although a time was given')
                ex.prove(s, 'launched/still-to-wait-for', ex.ptr_eq(left, A.sig), 'a run that has not ended is forgotten')
                return
            ex.mark('ended')
            ex.prove(s, 'launched/waits-for-ever-if-told', bor(tm is not None, bnot(lt(0, signed(dv, 64)))), 'waits for ever although a time was given')
            ex.prove(s, 'launched/not-running-any-more', band(gget(s, 'gets') == 1, eq(left.base, 0)), 'an ended run counts as running')
        t.run(f, st, [A.a, d], post)


ANON = '[anonymous].'


def first(ex, st, v, n):
    """the string of the first n characters (n known)"""
    if n == 0:
        return 0
    t = uf('first', 2)(v if not isc(v) else z3.IntVal(v), z3.IntVal(n))
    setrange(t, 0, (1 << 48) - 1)
    ex.assume(st, band(t >= 0, t < (1 << 48)))
    return t


def view(ex, st, n, p):
    """contents of a string view"""
    p = as_ptr(p)
    if not isc(n):
        raise Unsupported('view of unknown length')
    if isc(p.base) and p.base in ex.base_global:
        mod, name = ex.base_global[p.base]
        gi = mod.global_init(name)
        if gi and gi[1] and gi[1][0] == 'str':
            return stl.str_id(gi[1][1][p.off:p.off + n])
    v = ex.read(st, p, 'cstr', 0, lambda s, b, o, e: None)
    if v is None:
        raise Unsupported('view of unknown contents')
    return first(ex, st, v, n)


def t_anon(t):
    """names that were generated are told apart from names given by the user by their prefix"""
    ex = t.ex
    st = t.state()
    t.need('generated', 'given')
    h = Ptr(ex.fresh_base(st), 0)
    i = ex.fresh_int(st, 'id', 1, (1 << 48) - 1)
    set_str(ex, st, h, i)

    def same_view(ex, st, c):
        if 'basic_string_view' not in c.dem:
            return '$body'
        a = c.args
        if len(a) != 4:
            raise Unsupported('comparison of views')
        return band(eq(a[0], a[2]), eq(view(ex, st, a[0], a[1]), view(ex, st, a[2], a[3])))
    ex.contracts['std::operator=='] = same_view

    def post(s, r):
        gen = band(lt(len(ANON), stl.slen(ex, s, i)), eq(first(ex, s, i, len(ANON)), stl.str_id(ANON)))
        ex.mark('generated' if ex.decide(s, gen) else 'given')
        ex.prove(s, 'processor/generated-name', eq(ex.to_bool(r), gen), 'a name given by the user is taken for a generated one (it would stay in routing for ever), or the other way round')
    t.run(t.fn(N + 'isAnonymous'), st, [h], post)


def t_generate(t):
    """generated names differ from each other"""
    ex = t.ex
    st = t.state()
    out = Ptr(ex.fresh_base(st), 0)
    MAX = (1 << 31) - 2
    st.ghost['cur'] = ex.fresh_int(st, 'counter', 0, MAX)
    st.ghost['taken'] = ()

    def rely(ex, st):
        n = ex.fresh_int(st, 'counter', 0, MAX)
        ex.assume(st, band(le(gget(st, 'cur'), n), lt(n, MAX)))
        gset(st, 'cur', n)
        return n

    def atom(ex, st, kind, p, ty, v, mod):
        c = rely(ex, st)
        if kind == 'load':
            return c
        if kind != 'store' and v[0] == 'add':
            ex.prove(st, 'processor/names-advance', eq(v[1], 1), 'the counter of names does not advance')
            gset(st, 'taken', gget(st, 'taken') + (c, add(c, v[1])))
            gset(st, 'cur', add(c, v[1]))
            return c
        if kind != 'store' and v[0] == 'cmpxchg':
            if ex.decide(st, eq(c, v[1])):
                ex.prove(st, 'processor/names-advance', lt(c, v[2]), 'the counter of names does not advance')
                gset(st, 'taken', gget(st, 'taken') + (c, v[2]))
                gset(st, 'cur', v[2])
            return c
        ex.fail(st, 'processor/names-advance-atomically', 'the shared counter is changed in another way')
        raise PathEnd()
    ex.atomic_hook = atom

    def post(s, r):
        g = get_str(ex, s, out)
        tk = gget(s, 'taken')
        ex.prove(s, 'processor/one-name-taken', len(tk) == 2, 'not exactly one number is taken for a name')
        # the same one of the two (before or after) on every call: the numbers of different calls differ
        pre = stl.str_id(ANON)
        ex.prove(s, 'processor/name-made-of-it', bor(*[eq(g, stl.concat(ex, s, pre, uf('to_string')(x))) for x in tk]) if tk else False, 'the name is not made of the number that was taken')
    t.run(t.fn(N + 'generateAnonymousID'), st, [out], post)


TASKS = [('executeAsync', t_submit('executeAsync', False)), ('execute', t_submit('execute', False)),
         ('this executeAsync', t_submit('executeAsync', True)), ('this execute', t_submit('execute', True)),
         ('run', t_run('run')), ('runUntil', t_run('runUntil')), ('runFor', t_run('runFor')), ('runOnceUntil', t_run('runOnceUntil')),
         ('runOnceFor', t_run('runOnceFor')), ('stop', t_stop(False)), ('this stop', t_stop(True)), ('rest', t_rest),
         ('waitableExecute', t_waitable(False)), ('this waitableExecute', t_waitable(True))]
TASKS += [('%s%s' % ('this ' if own else '', m), t_bound(m, h, own)) for own in (False, True)
          for m, h in (('willExecuteOnThis', 'execute'), ('willAsyncExecuteOnThis', 'executeAsync'), ('willBlockingExecuteOnThis', 'waitableExecute'))]

TASKS += [('%s%s' % ('this ' if own else '', m), t_executor(m, h, own)) for own, m, h in
          ((False, 'getExecutor', 'execute'), (False, 'getAsyncExecutor', 'executeAsync'), (False, 'getBlockingExecutor', 'waitableExecute'),
           (True, 'getExecutor', 'execute'), (True, 'getAsyncExecutor', 'executeAsync'), (True, 'getWaitableExecutor', 'waitableExecute'))]
TASKS += [('isAnonymous', t_anon), ('generateAnonymousID', t_generate)]
TASKS += [('launch', t_launch), ('stopAndWait', t_stopwait), ('async wait', t_asyncwait), ('value', t_value)]

TASKS_ALL = TASKS + MTASKS

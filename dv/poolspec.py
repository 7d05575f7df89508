"""Contracts of the thread pools: T02.

The real constructors run first, so that the functions a pool calls (run, stop, done) are the ones it was made with; then the
shared state is whatever other threads may have made of it, and one operation runs.  The queue obeys the contracts proved for
it in Q01 and Q02.  Runnables are stand-ins whose run, stop and destructor count the calls."""
from reqspec import *

TUS = ['@pool.cpp']
TH = 'maf::threading::'
NSQ = TH + 'ThreadSafeQueue::'
KINDS = {'stable': ('StableThreadPool', 'queue'), 'dynamic': ('VaryCountThreadPool', 'queue'), 'priority': ('PriorityThreadPool', 'priority')}


class Pool:
    def __init__(self, t, kind):
        self.t, self.ex, self.kind = t, t.ex, kind
        ex = self.ex
        ex.gfld['same_region'] = True
        self.cname, self.qk = KINDS[kind]
        self.cls = TH + self.cname
        rec = r'maf::threading::ThreadPoolImplBase<.*%s.*' % ('std::queue' if self.qk == 'queue' else 'PriorityQueue')
        self.rec = [k for k in t.lay.recs if re.fullmatch(rec, k)]
        self.rec = re.escape(sorted(self.rec, key=len)[0]) if self.rec else rec
        self.rx = r'std::queue<' if self.qk == 'queue' else r'PrioritizableRunner'
        self.vt = signalspec.vtable(t, r'vtable for RunMock$').at(16)
        self.kinds = set()
        self.impl = None
        self.launched = None
        self.st = st = t.state()
        self.this = t.obj(st, 'pool')
        ex.hooks['vptr'] = lambda ex, st, b: self.vt if b.get_id() in self.kinds else None
        ex.hooks['lock'], ex.hooks['unlock'] = self.lock, self.unlock
        ex.hooks['container_access'] = self.access
        ex.hooks['seq_node'] = self.seq_node
        ex.hooks['pushed'], ex.hooks['erased'] = self.pushed, self.erased
        ex.loop_hooks.append(self.inv)
        C = ex.contracts
        C['RunMock::run'] = lambda ex, st, c: self.event(st, 'run', as_ptr(c.args[0]))
        C['RunMock::stop'] = lambda ex, st, c: self.event(st, 'stop', as_ptr(c.args[0]))
        C['RunMock::~RunMock'] = lambda ex, st, c: self.event(st, 'delete', as_ptr(c.args[0]))
        C['std::thread::_M_start_thread'] = self.launch
        C['std::thread::join'] = self.join
        C['std::thread::hardware_concurrency'] = lambda ex, st, c: self.hw
        C['std::call_once'] = lambda ex, st, c: '$body'
        C['std::find'] = lambda ex, st, c: '$body'
        C['std::thread::_State::~_State'] = lambda ex, st, c: None
        C['pthread_once'] = self.once
        for m, h in dict(wait=self.q_wait, push=self.q_push, close=self.q_close, clear=self.q_clear, isClosed=self.q_closed).items():
            C[NSQ + m] = h
        C[NSQ + 'ThreadSafeQueue'] = self.q_made
        C[NSQ + '~ThreadSafeQueue'] = lambda ex, st, c: None
        for m in ('waitFor', 'waitUntil', 'tryPop', 'reOpen', 'size', 'empty'):
            C[NSQ + m] = lambda ex, st, c, m=m: self.q_other(m)
        self.hw = ex.fresh_int(st, 'processors', 0, 1 << 20)
        self.max = None
        for k in ('tried', 'kept', 'once', 'closed', 'cleared', 'running', 'pushes', 'launched', 'failed', 'pool taken', 'threads'):
            gset(st, k, 0)

    def q_made(self, ex, st, c):
        p = as_ptr(c.args[0])
        self.making = Ptr(p.base, sub(p.off, self.t.off(self.rec, '_taskQueue')))
        return None

    def q_other(self, m):
        raise Unsupported('queue operation %s in a pool' % m)

    # -- parts of a pool
    def find(self, s):
        ex, t = self.ex, self.t
        self.impl = self.making
        self.queue = self.at('_taskQueue')
        self.pool, self.list = self.at('_pool'), self.at('_runningTasks')
        self.rmtx = self.at('_runningTaskMutex')
        self.pmtx = self.at('_poolMutex')
        self.flag = self.at('_stopped')
        self.maxp = self.at('_maxThreadCount')

    def at(self, f):
        try:
            return self.impl.at(self.t.off(self.rec, f))
        except Unsupported:
            return None

    def same(self, p, m):
        return m is not None and eq(p.base, m.base) is True and eq(p.off, m.off) is True

    def kr(self, ex, st, p):
        """a task: the runnable (and its priority)"""
        b = rp(ex, st, p)
        return (b.base,)

    def flagv(self, st):
        if self.flag is None:
            return 0
        return ite(eq(rd(self.ex, st, self.flag, 1), 0), 0, 1)

    # -- runnables
    def runnable(self, st, name, null=True):
        ex = self.ex
        b = ex.fresh_int(st, name, 0 if null else 1, HEAP_LIMIT - 1)
        for o in [self.this] + ([self.impl] if self.impl else []):
            ex.assume(st, bnot(eq(b, o.base)))
        ex.assume(st, uf('RG')(b) == 0)
        self.kinds.add(b.get_id())
        KEEP.append(b)
        return Ptr(b, 0)

    def auto(self, st, p):
        return eq(rd(self.ex, st, p.at(8), 1), 1)

    def event(self, st, k, p):
        h = getattr(self, 'on_' + k, None)
        if h is None:
            self.ex.fail(st, 'runnable/' + k, 'a runnable: unexpected ' + k)
            return None
        return h(st, p)

    def seq_node(self, ex, st, S, i, nd):
        """an entry of the running tasks: some runnable, each there once"""
        if not gget(st, 'ready', 0) or S is not getattr(self, 'Rseq', None):
            return
        p = rp(ex, st, Ptr(nd, 0))
        if isc(p.base):
            return
        self.kinds.add(p.base.get_id())
        KEEP.append(p.base)
        ok = band(le(0, i), lt(i, S.n))
        ex.assume(st, implies(ok, band(eq(p.off, 0), eq(uf('RG')(p.base), 0), eq(uf('runpos')(p.base), i),
                                       bnot(eq(p.base, self.this.base)), bnot(eq(p.base, self.impl.base)))))

    # -- locks
    def lock(self, ex, st, p):
        if not gget(st, 'ready', 0):
            return
        if self.same(p, self.rmtx):
            S = stl.SeqInit(ex, st, None)
            self.Rseq = S
            stl.set_seq(ex, st, self.list, S)
            if self.flag is not None:
                v = ex.fresh_int(st, 'stopped', 0, 1)
                ex.assume(st, le(gget(st, 'stopped', 0), v))
                ex.write(st, self.flag, 'm', 1, v)
                gset(st, 'stopped', v)
            gset(st, 'R0', S)
            h = getattr(self, 'list_locked', None)
            if h:
                h(st, S)
        elif self.same(p, self.pmtx):
            old = gget(st, 'P1')
            S = stl.SeqInit(ex, st, None)
            if old is not None:
                ex.assume(st, le(old.n, S.n))       # other threads only add threads
            if gget(st, 'closed'):
                gset(st, 'pool final', 1)
            stl.set_seq(ex, st, self.pool, S)
            gset(st, 'P1', S)
            if gget(st, 'closed') and getattr(self, 'J', None) is not None:
                ex.assume(st, lt(self.J, S.n))
                gset(st, 'joinable', ite(eq(rd(ex, st, Ptr(S.node(ex, st, self.J), 0)), 0), 0, 1))
            gset(st, 'open', 0)
            gset(st, 'full', le(self.limit(st), S.n))

    def limit(self, st):
        return rd(self.ex, st, self.maxp, 4)

    def unlock(self, ex, st, p):
        if not gget(st, 'ready', 0):
            return
        if self.same(p, self.rmtx):
            h = getattr(self, 'list_unlocked', None)
            if h:
                h(st, stl.get_seq(ex, st, self.list, None))
        elif self.same(p, self.pmtx):
            ex.prove(st, 'threads/kept', eq(gget(st, 'launched'), gget(st, 'kept')), 'a thread is launched and not kept: nobody waits for it')
            gset(st, 'P1', stl.get_seq(ex, st, self.pool, None))

    def access(self, ex, st, p, *a):
        if not gget(st, 'ready', 0):
            return
        if self.same(p, self.list):
            ex.prove(st, 'running/locked', stl.held(ex, st, self.rmtx) is not None, 'the running tasks are used without their lock')
        elif self.same(p, self.pool):
            ok = stl.held(ex, st, self.pmtx) is not None if self.pmtx is not None else False
            ex.prove(st, 'threads/locked', ok or gget(st, 'pool final', 0), 'the threads are used without their lock')

    def pushed(self, ex, st, p, base):
        if not gget(st, 'ready', 0):
            gset(st, 'kept', add(gget(st, 'kept'), 1))
            return
        if self.same(p, self.pool):
            gset(st, 'kept', add(gget(st, 'kept'), 1))
            ex.prove(st, 'threads/kept-is-thread', bnot(eq(rd(ex, st, Ptr(base, 0)), 0)))
        elif self.same(p, self.list):
            h = getattr(self, 'list_pushed', None)
            if h:
                h(st, Ptr(base, 0))

    def erased(self, ex, st, p, nd):
        if gget(st, 'ready', 0) and self.same(p, self.list):
            h = getattr(self, 'list_erased', None)
            if h:
                h(st, Ptr(nd, 0))

    # -- threads
    def launch(self, ex, st, c):
        if gget(st, 'ready', 0):
            ok = self.pmtx is not None and stl.held(ex, st, self.pmtx) is not None
            ex.prove(st, 'threads/launched-locked', ok, 'a thread is launched without the lock of the threads')
            ex.prove(st, 'threads/launched-when-open', gget(st, 'open', 0), 'a thread may be launched after the shutdown: nobody waits for it')
            if ok:
                S = stl.get_seq(ex, st, self.pool, None)
                ex.prove(st, 'threads/limit', lt(S.n, self.limit(st)), 'more threads are launched than allowed')
        gset(st, 'tried', add(gget(st, 'tried'), 1))
        if ex.choose(st, 2):
            gset(st, 'failed', add(gget(st, 'failed'), 1))
            ex.throw_state(st, '_ZTISt12system_error')
            return '$throw'
        gset(st, 'launched', add(gget(st, 'launched'), 1))
        if self.launched is None:
            self.launched = (st.clone(), rp(ex, st, as_ptr(c.args[1])))
        ex.write(st, as_ptr(c.args[1]), 'm', 8, NULL)
        ex.write(st, as_ptr(c.args[0]), 'm', 8, ex.fresh_int(st, 'thread', 1, 1 << 40))
        return None

    def join(self, ex, st, c):
        p = as_ptr(c.args[0])
        ex.prove(st, 'shutdown/joinable', bnot(eq(rd(ex, st, p), 0)), 'waits for no thread: throws')
        ex.prove(st, 'shutdown/closed-before-waiting', eq(gget(st, 'closed'), 1), 'waits for threads that nothing tells to end')
        ex.prove(st, 'shutdown/stopped-before-waiting', eq(gget(st, 'stops done', 0), 1), 'waits for threads whose tasks are not stopped')
        ex.prove(st, 'shutdown/waits-without-locks', not st.locks, 'waits for threads with a lock held that they take')
        S = gget(st, 'P1')
        j = self.J
        ex.prove(st, 'shutdown/one-of-them', True)
        gset(st, 'joined', add(gget(st, 'joined', 0), ite(eq(p.base, S.node(ex, st, j)), 1, 0)))
        ex.write(st, p, 'm', 8, 0)
        return None

    def once(self, ex, st, c):
        """the first caller runs it, others wait until it is done"""
        if gget(st, 'once') or ex.choose(st, 2):
            if not gget(st, 'once'):
                gset(st, 'by another', 1)
            return 0
        gset(st, 'once', 1)
        m = ex.mods[0]
        f = rp(ex, st, ex.global_ptr('_ZSt11__once_call', m))
        kind, fn, _ = ex.lookup(ex.base_fn[f.base], m)
        ex.push_call(st, fn, [], on_ret=lambda ex, st, v: 0)
        return '$pushed'

    # -- the queue (Q01, Q02)
    def mine(self, st, p):
        self.ex.prove(st, 'queue/own', gget(st, 'ready', 0) and self.same(as_ptr(p), self.queue), 'another queue is used')

    def q_wait(self, ex, st, c):
        self.mine(st, c.args[0])
        return self.on_wait(st, as_ptr(c.args[1]))

    def q_push(self, ex, st, c):
        self.mine(st, c.args[0])
        return self.on_push(st, as_ptr(c.args[1]))

    def q_close(self, ex, st, c):
        self.mine(st, c.args[0])
        gset(st, 'closed', 1)
        return None

    def q_closed(self, ex, st, c):
        if not gget(st, 'ready', 0):
            return False
        self.mine(st, c.args[0])
        if gget(st, 'closed'):
            return True
        if ex.choose(st, 2):
            gset(st, 'closed seen', 1)
            return True
        gset(st, 'open', 1)
        return False

    def q_clear(self, ex, st, c):
        self.mine(st, c.args[0])
        return self.on_clear(st, as_ptr(c.args[1]))

    # -- loops
    def inv(self, ex, entry, head, rec, fi, norm):
        out = []
        t0, n0 = gget(entry, 'tried'), {}
        for sl in rec.slots:
            try:
                v0, v = sl.get(ex, entry, fi), sl.get(ex, head, fi)
            except (Fork, Unsupported, PathEnd):
                continue
            if isinstance(v, IterVal):
                def idx(st, sl=sl):
                    return stl.iter_idx(ex, st, sl.get(ex, st, fi))
                if getattr(self, 'K', None) is not None:
                    out.append(('stops:' + sl.name, lambda st, i=idx: eq(gget(st, 'stopx', 0), ite(lt(self.K, i(st)), 1, 0))))
                    out.append(('ahead:' + sl.name, lambda st, i=idx: le(i(st), self.K)))
                if getattr(self, 'J', None) is not None:
                    out.append(('joins:' + sl.name, lambda st, i=idx: eq(gget(st, 'joined', 0), ite(lt(self.J, i(st)), gget(st, 'joinable', 1), 0))))
            elif not isinstance(v, (Ptr, bool, tuple)) and v is not None:
                def count(st, sl=sl, v0=v0):
                    return sub(ex.as_int(sl.get(ex, st, fi)), ex.as_int(v0))
                out.append(('tried:' + sl.name, lambda st, n=count: eq(gget(st, 'tried'), add(t0, n(st)))))
                val = lambda st, sl=sl: ex.as_int(sl.get(ex, st, fi))
                if getattr(self, 'K', None) is not None:
                    out.append(('stops:' + sl.name, lambda st, i=val: eq(gget(st, 'stopx', 0), ite(lt(self.K, i(st)), 1, 0))))
                if getattr(self, 'J', None) is not None:
                    out.append(('joins:' + sl.name, lambda st, i=val: eq(gget(st, 'joined', 0), ite(lt(self.J, i(st)), gget(st, 'joinable', 1), 0))))
                if gget(entry, 'ready', 0) and getattr(self, 'J', None) is not None:
                    out.append(('within:' + sl.name, lambda st, i=val: band(le(0, i(st)), le(i(st), stl.get_seq(ex, st, self.pool, None).n))))
                out.append(('bound:' + sl.name, lambda st, sl=sl: band(le(0, ex.as_int(sl.get(ex, st, fi))), le(ex.as_int(sl.get(ex, st, fi)), self.N))))
        if hasattr(self, 'inv_extra') and gget(entry, 'ready', 0):
            out += self.inv_extra(entry, head, rec, fi)
        out.append(('split', lambda st: eq(gget(st, 'tried'), add(gget(st, 'launched'), gget(st, 'failed')))))
        out.append(('kept', lambda st: eq(gget(st, 'launched'), gget(st, 'kept'))))
        if not gget(entry, 'ready', 0):
            q = self.making.at(self.t.off(self.rec, '_pool'))
            out.append(('size', lambda st: eq(stl.get_seq(ex, st, q, None).n, gget(st, 'launched'))))
        return out

    # -- the constructor first
    def build(self, then, check=False):
        ex, st, t = self.ex, self.st, self.t
        n = ex.fresh_int(st, 'N', 0, 1 << 20)
        self.n = n
        self.N = ite(eq(n, 0), self.hw, n)
        f = t.fn(self.cls + '::' + self.cname)

        def made(s, r):
            self.find(s)
            fs = []
            for f in ('_fRun', '_fStop', '_fDone'):
                for o in (0, 16, 24):
                    p = rp(ex, s, self.at(f).at(o))
                    fs.append((p.base, p.off) if isc(p.base) else None)
            # whatever happens while the threads are launched, the pool calls the same functions
            first = not hasattr(self, 'calls')
            if first:
                self.calls = fs
            ex.prove(s, 'made/calls', fs == self.calls, 'what a pool calls depends on its threads')
            if check:
                then(s)
                return
            if not first:
                return
            self.others(s)
            then(s)
        t.run(f, st, [self.this, n], made, cover='made')


    def others(self, s):
        """what other threads made of it"""
        ex = self.ex
        for k in ('tried', 'kept', 'launched', 'failed', 'stopped'):
            gset(s, k, 0)
        gset(s, 'P1', None)
        stl.set_seq(ex, s, self.pool, stl.SeqInit(ex, s, None))
        ex.write(s, self.maxp, 'm', 4, ex.fresh_int(s, 'limit', 0, 1 << 20))
        gset(s, 'ready', 1)


def t_ctor(kind):
    def task(t):
        P = Pool(t, kind)
        ex = P.ex

        def then(s):
            ex.mark('made')
            ex.prove(s, 'made/limit', eq(P.limit(s), P.N), 'the limit is neither the number asked for nor the number of processors')
            want = 0 if kind == 'dynamic' else P.N
            ex.prove(s, 'made/threads', eq(gget(s, 'tried'), want), 'not all threads of the pool are launched')
            ex.prove(s, 'made/kept', eq(gget(s, 'launched'), gget(s, 'kept')), 'a thread is launched and not kept')
        P.build(then, check=True)
    return task


class Thread:
    """what a thread of the pool does with the tasks it takes"""

    def __init__(self, P):
        self.P, self.ex = P, P.ex
        P.on_wait, P.on_run, P.on_delete = self.wait, self.run, self.delete
        P.list_pushed, P.list_erased, P.list_locked = self.added, self.removed, self.list_locked
        P.inv_extra = self.inv

    def start(self, st):
        for k in ('busy', 'ended', 'ran', 'deleted', 'listed', 'stopped at', 'auto', 'mine', 'prio'):
            gset(st, k, 0)
        gset(st, 'cur', NULL)

    def is_cur(self, st, p):
        return self.ex.ptr_eq(p, gget(st, 'cur'))

    def ends(self, st):
        """what holds when a thread is through with a task"""
        null = eq(gget(st, 'cur').base, 0)
        return [('task/not-listed', eq(gget(st, 'listed'), 0), 'a task that ended is still among the running ones: it is stopped after its end'),
                ('task/runs', bor(null, eq(gget(st, 'ran'), 1), band(eq(gget(st, 'ran'), 0), eq(gget(st, 'stopped at'), 1))), 'a task that is taken does not run although the pool is not shut down'),
                ('task/disposed-once', bor(null, eq(gget(st, 'deleted'), gget(st, 'auto'))), 'a task is disposed of that somebody else owns, or not disposed of')]

    def finished(self, st):
        ex = self.ex
        for n, c, d in self.ends(st):
            ex.prove(st, n, implies(eq(gget(st, 'busy'), 1), c), d)

    def wait(self, st, out):
        ex, P = self.ex, self.P
        self.finished(st)
        ex.prove(st, 'thread/waits-without-locks', not st.locks, 'a thread waits for work with a lock held')
        ex.prove(st, 'thread/ends', eq(gget(st, 'ended'), 0), 'a thread goes on after the pool was closed')
        if ex.choose(st, 2):
            ex.mark('closed')
            gset(st, 'ended', 1)
            gset(st, 'busy', 0)
            return False
        p = P.runnable(st, 'task')
        ex.write(st, out, 'm', 8, p)
        if P.kind == 'priority':
            pr = ex.fresh_int(st, 'priority', 0, (1 << 32) - 1)
            ex.write(st, out.at(8), 'm', 4, pr)
            gset(st, 'prio', pr)
        gset(st, 'busy', 1)
        gset(st, 'cur', p)
        a = ex.fresh_int(st, 'auto', 0, 1)
        ex.write(st, p.at(8), 'm', 1, a)
        gset(st, 'auto', a)
        for k in ('ran', 'deleted', 'listed', 'stopped at'):
            gset(st, k, 0)
        return True

    def list_locked(self, st, S):
        ex = self.ex
        # the entry of this thread is still there
        k = ex.fresh_int(st, 'mine', 0, 1 << 47)
        gset(st, 'mine', k)
        if gget(st, 'busy') == 1 and ex.decide(st, eq(gget(st, 'listed'), 1)):
            ex.assume(st, lt(k, S.n))
            ex.assume(st, eq(rp(ex, st, Ptr(S.node(ex, st, k), 0)).base, gget(st, 'cur').base))
            if self.P.kind == 'priority':
                ex.assume(st, eq(rd(ex, st, Ptr(S.node(ex, st, k), 8), 4), gget(st, 'prio')))
        gset(st, 'stopped at', gget(st, 'stopped'))

    def added(self, st, p):
        ex = self.ex
        ex.prove(st, 'running/own', band(eq(gget(st, 'busy'), 1), self.is_cur(st, rp(ex, st, p))), 'a task is listed that this thread does not run')
        ex.prove(st, 'running/not-after-stop', eq(gget(st, 'stopped', 0), 0), 'a task starts after the running ones were stopped: nobody stops it')
        if self.P.kind == 'priority':
            ex.prove(st, 'running/own-priority', eq(rd(ex, st, p.at(8), 4), gget(st, 'prio')))
        gset(st, 'listed', add(gget(st, 'listed'), 1))

    def removed(self, st, p):
        ex = self.ex
        ex.prove(st, 'running/removes-own', band(eq(gget(st, 'busy'), 1), self.is_cur(st, rp(ex, st, p))), 'the entry of another task is removed')
        ex.prove(st, 'running/removed-after-run', bor(eq(gget(st, 'cur').base, 0), eq(gget(st, 'ran'), 1)), 'a task is no longer listed when it runs')
        gset(st, 'listed', sub(gget(st, 'listed'), 1))

    def run(self, st, p):
        ex = self.ex
        ex.prove(st, 'task/own', band(eq(gget(st, 'busy'), 1), self.is_cur(st, p)), 'something runs that was not taken')
        ex.prove(st, 'task/once', eq(gget(st, 'ran'), 0), 'a task runs twice')
        ex.prove(st, 'task/listed', eq(gget(st, 'listed'), 1), 'a task runs that is not among the running ones: a shutdown does not stop it')
        ex.prove(st, 'task/not-disposed', eq(gget(st, 'deleted'), 0), 'a task runs after it was disposed of')
        ex.prove(st, 'task/without-locks', not st.locks, 'a task runs with a lock of the pool held')
        ex.mark('ran')
        gset(st, 'ran', add(gget(st, 'ran'), 1))
        return None

    def delete(self, st, p):
        ex = self.ex
        ex.prove(st, 'task/disposes-own', band(eq(gget(st, 'busy'), 1), self.is_cur(st, p)), 'something is disposed of that this thread did not take')
        ex.prove(st, 'task/disposed-unlisted', eq(gget(st, 'listed'), 0), 'a task is disposed of that a shutdown may still stop')
        if ex.decide(st, eq(gget(st, 'ran'), 0)):
            ex.mark('dropped')
        gset(st, 'deleted', add(gget(st, 'deleted'), 1))
        return None

    def inv(self, entry, head, rec, fi):
        ex = self.ex
        out = []
        if gget(entry, 'busy') is not None and stl.held(ex, entry, self.P.rmtx) is not None:
            for sl in signalspec.iters(ex, head, rec, fi, None):
                def ahead(st, sl=sl):
                    return implies(eq(gget(st, 'listed'), 1), le(stl.iter_idx(ex, st, sl.get(ex, st, fi)), gget(st, 'mine')))
                out.append(('own ahead:' + sl.name, ahead))
        else:
            out.append(('through', lambda st: implies(eq(gget(st, 'busy'), 1), band(*[c for n, c, d in self.ends(st)]))))
            out.append(('goes on', lambda st: eq(gget(st, 'ended'), 0)))
        return out


def t_thread(kind):
    """a thread of the pool: takes tasks, runs each once where a shutdown finds it, disposes of it"""
    def task(t):
        P = Pool(t, kind)
        ex = P.ex
        W = Thread(P)
        t.need('ran', 'dropped', 'closed')

        def then(s, state):
            f = t.fn('std::thread::_State_impl::_M_run', P.rx)
            W.start(s)

            def done(s2, r):
                ex.prove(s2, 'thread/ends-when-closed', eq(gget(s2, 'ended'), 1), 'a thread ends although the pool is not closed')
                ex.prove(s2, 'table/locks-released', not s2.locks)
            t.run(f, s, [state], done, cover='thread ends')
        launched_by(P, then)
    return task


def launched_by(P, then):
    """a pool and the start of one of its threads"""
    ex, t = P.ex, P.t

    def go():
        s, state = P.launched
        s.frames, s.locks = [], ()
        P.find(s)
        P.others(s)
        then(s, state)
    if P.kind != 'dynamic':
        P.build(lambda s: None)
        if P.launched is not None:
            go()
        return

    def made(s):
        # no thread yet: it starts with the first task
        X = P.runnable(s, 'X', null=False)
        P.on_push = lambda st, p: True
        t.run(t.fn(P.cls + '::run'), s, [P.this, X, 0], lambda s2, r: None)
        if P.launched is not None:
            go()
    P.build(made)


def t_run(kind):
    """a runnable is handed to the pool"""
    def task(t):
        P = Pool(t, kind)
        ex = P.ex
        t.need('accepted', 'refused')

        def then(s):
            for null in (False, True):
                one(s.clone(), null)

        def one(s, null):
            X = NULL if null else P.runnable(s, 'X', null=False)
            pr = ex.fresh_int(s, 'priority', 0, (1 << 32) - 1)
            a = ex.fresh_int(s, 'auto', 0, 1)
            if not null:
                ex.write(s, X.at(8), 'm', 1, a)
            for k in ('deleted', 'refused', 'pushes'):
                gset(s, k, 0)

            def push(st, p):
                ex.prove(st, 'run/queued', ex.ptr_eq(rp(ex, st, p), X), 'something else is queued')
                if kind == 'priority':
                    ex.prove(st, 'run/priority', eq(rd(ex, st, p.at(8), 4), pr), 'it is queued with another priority')
                gset(st, 'pushes', gget(st, 'pushes') + 1)
                r = ex.choose(st, 2)
                ex.mark('refused' if r else 'accepted')
                gset(st, 'refused', r)
                return r == 0
            P.on_push = push

            def delete(st, p):
                ex.prove(st, 'run/disposes-own', band(ex.ptr_eq(p, X), eq(gget(st, 'refused'), 1)), 'a runnable is disposed of that was accepted or belongs to somebody else')
                gset(st, 'deleted', gget(st, 'deleted') + 1)
                return None
            P.on_delete = delete

            def done(s2, r):
                ex.prove(s2, 'table/locks-released', not s2.locks)
                if not null:
                    ex.prove(s2, 'run/once', gget(s2, 'pushes') == 1, 'a runnable is not queued exactly once')
                    ex.prove(s2, 'run/refused-disposed', eq(gget(s2, 'deleted'), a if gget(s2, 'refused') else 0), 'a runnable that is refused is not disposed of (or one that somebody owns is)')
                    if kind == 'dynamic':
                        ex.prove(s2, 'run/has-thread', bor(gget(s2, 'tried') == 1, gget(s2, 'full', False), gget(s2, 'closed seen', 0) == 1), 'no thread is launched although more are allowed')
                else:
                    ex.mark('nothing')
                ex.prove(s2, 'run/threads', gget(s2, 'tried') <= (1 if kind == 'dynamic' else 0), 'more threads are launched')
            t.run(t.fn(P.cls + '::run'), s, [P.this, X, pr], done, cover='run')
        P.build(then)
    return task


def t_shutdown(kind, end=False):
    """the end of a pool"""
    def task(t):
        P = Pool(t, kind)
        ex = P.ex
        t.need('first', 'not first')
        fcall = t.fn('std::function::operator()', r'\(Runnable\*&\)|Runnable\*&\)>' if P.qk == 'queue' else r'PrioritizableRunner&')

        def then(s):
            P.K = ex.fresh_int(s, 'K', 0, 1 << 47)
            P.J = ex.fresh_int(s, 'J', 0, 1 << 47)
            for k in ('stopx', 'joined', 'joinable', 'deleted', 'stops done', 'auto'):
                gset(s, k, 0)

            def list_locked(st, S):
                gset(st, 'stopx', 0)
                ex.assume(st, lt(P.K, S.n))
                ex.assume(st, bnot(eq(rp(ex, st, Ptr(S.node(ex, st, P.K), 0)).base, 0)))
            P.list_locked = list_locked

            def list_unlocked(st, S):
                gset(st, 'stops done', ite(band(eq(P.flagv(st), 1), eq(gget(st, 'stopx'), 1), P.flag is not None), 1, gget(st, 'stops done')))
            P.list_unlocked = list_unlocked

            def stop(st, p):
                ex.mark('stops')
                ex.prove(st, 'shutdown/stop-locked', stl.held(ex, st, P.rmtx) is not None, 'a task is stopped that may have ended: without the lock of the running tasks')
                S = stl.get_seq(ex, st, P.list, None)
                i = uf('runpos')(p.base if not isc(p.base) else z3.IntVal(p.base))
                ex.prove(st, 'shutdown/stops-running', band(le(0, i), lt(i, S.n), ex.ptr_eq(rp(ex, st, Ptr(S.node(ex, st, i), 0)), p)), 'something is stopped that does not run')
                gset(st, 'stopx', add(gget(st, 'stopx'), ite(eq(i, P.K), 1, 0)))
                return None
            P.on_stop = stop

            def clear(st, f):
                ex.prove(st, 'shutdown/cleared-after-close', eq(gget(st, 'closed'), 1), 'what is queued after the queue is cleared is never disposed of')
                if gget(st, 'cleared'):
                    return None
                gset(st, 'cleared', 1)
                if ex.decide(st, eq(rp(ex, st, f.at(16)).base, 0)):
                    return None
                Y = P.runnable(st, 'pending', null=False)
                a = ex.fresh_int(st, 'auto', 0, 1)
                ex.write(st, Y.at(8), 'm', 1, a)
                gset(st, 'auto', a)
                gset(st, 'pending', Y)
                p = Ptr(ex.fresh_base(st), 0)
                ex.write(st, p, 'm', 8, Y)
                if kind == 'priority':
                    ex.write(st, p.at(8), 'm', 4, ex.fresh_int(st, 'priority', 0, (1 << 32) - 1))
                gset(st, 'called', 1)
                ex.push_call(st, fcall, [f, p])
                return '$pushed'
            P.on_clear = clear

            def delete(st, p):
                ex.mark('disposes')
                ex.prove(st, 'shutdown/disposes-pending', ex.ptr_eq(p, gget(st, 'pending', NULL)), 'something else is disposed of')
                gset(st, 'deleted', gget(st, 'deleted') + 1)
                return None
            P.on_delete = delete

            def done(s2, r):
                ex.prove(s2, 'table/locks-released', not s2.locks)
                if not gget(s2, 'once'):
                    ex.mark('not first')
                    ex.prove(s2, 'shutdown/waits-for-first', gget(s2, 'by another', 0) == 1, 'nothing shuts the pool down, and nobody waits until it is')
                    return
                ex.mark('first')
                ex.prove(s2, 'shutdown/closes', eq(gget(s2, 'closed'), 1), 'tasks are still accepted after the end')
                ex.prove(s2, 'shutdown/stops-all', eq(gget(s2, 'stops done'), 1), 'a running task is not stopped, or one may start after that')
                ex.prove(s2, 'shutdown/disposes', band(eq(gget(s2, 'cleared'), 1), gget(s2, 'called', 0) == 1, eq(gget(s2, 'deleted'), gget(s2, 'auto'))), 'a pending task is not disposed of')
                ex.prove(s2, 'shutdown/waits', band(gget(s2, 'pool final', 0) == 1, eq(gget(s2, 'joined'), gget(s2, 'joinable'))), 'a thread may go on after the end')
            f = t.fn(P.cls + ('::~' + P.cname if end else '::shutdown'), None)
            t.run(f, s, [P.this], done, cover='end')
        P.build(then)
    return task


def t_counts(kind):
    def task(t):
        P = Pool(t, kind)
        ex = P.ex

        def then(s):
            def counted(s2, r):
                ex.prove(s2, 'count/threads', implies(lt(gget(s2, 'P1').n, 1 << 32), eq(ex.as_int(r), gget(s2, 'P1').n)) if gget(s2, 'P1') is not None else False, 'the number of threads is another one')
                ex.prove(s2, 'table/locks-released', not s2.locks)
            s1 = s.clone()
            S = stl.get_seq(ex, s1, P.pool, None)
            t.run(t.fn(P.cls + '::activeThreadCount'), s1, [P.this], counted, cover='count')
            n = ex.fresh_int(s, 'n', 0, (1 << 32) - 1)
            l0 = P.limit(s)

            def limited(s2, r):
                ex.prove(s2, 'count/limit', eq(P.limit(s2), ite(eq(n, 0), P.hw, n) if kind == 'dynamic' else l0), 'the limit is neither the number asked for nor the number of processors')
                ex.prove(s2, 'count/no-thread', gget(s2, 'tried') == 0)
            t.run(t.fn(P.cls + '::setMaxThreadCount'), s, [P.this, n], limited, cover='limit')
        P.build(then)
    return task


def t_order(t):
    """which of two waiting runnables is taken first: the comparison the queue of the priority pool is made with"""
    ex = t.ex
    recs = [k for k in t.lay.recs if k.startswith('maf::threading::ThreadPoolImplBase<') and 'PrioritizableRunner' in k]
    m = re.search(r'PriorityQueue<(?:struct |class )?([\w:]+), (?:struct |class )?([\w:]+)<', recs[0]) if recs else None
    if not m:
        raise Unsupported('queue of the priority pool')
    f = t.fn(m.group(2) + '::operator()', 'PrioritizableRunner')
    st = t.state()
    a, b, c = t.obj(st, 'a'), t.obj(st, 'b'), t.obj(st, 'compare')
    pa, pb = [ex.fresh_int(st, 'priority', 0, (1 << 32) - 1) for x in 'ab']
    po = t.off(re.escape(m.group(1)), '_priority')
    ex.write(st, a.at(po), 'm', 4, pa)
    ex.write(st, b.at(po), 'm', 4, pb)

    def done(s, r):
        ex.prove(s, 'priority/order', eq(ite(ex.to_bool(r), 1, 0), ite(lt(pa, pb), 1, 0)), 'a runnable of lower priority is taken first')
    t.run(f, st, [c, a, b], done, cover='compared')


def t_factory(t):
    """the kinds of pools"""
    ex = t.ex
    ex.gfld['same_region'] = True
    f = t.fn(TH + 'ThreadPoolFactory::createPool')
    want = {0: 'PriorityThreadPool', 1: 'StableThreadPool', 2: 'VaryCountThreadPool'}
    names = re.findall(r'(\w+)', re.search(r'enum\s+(?:class\s+)?PoolType[^{]*\{([^}]*)\}', open(os.path.join(REPO, 'include/maf/threading/ThreadPoolFactory.h')).read()).group(1))
    cls = {'Priority': 'PriorityThreadPool', 'StableCount': 'StableThreadPool', 'DynamicCount': 'VaryCountThreadPool'}
    for k, nm in enumerate(n for n in names if not n.isdigit()):
        st = t.state()
        n = ex.fresh_int(st, 'n', 0, (1 << 32) - 1)
        gset(st, 'made', 0)
        for c in cls.values():
            def made(ex, st, call, c=c):
                gset(st, 'made', gget(st, 'made') + 1)
                gset(st, 'kind', c)
                gset(st, 'at', as_ptr(call.args[0]))
                ex.prove(st, 'factory/size', eq(ex.as_int(call.args[1]), n), 'a pool of another size')
                return None
            ex.contracts['%s%s::%s' % (TH, c, c)] = made
        out = Ptr(ex.fresh_base(st), 0)

        def done(s, r, nm=nm):
            ex.prove(s, 'factory/kind', gget(s, 'made') == 1 and gget(s, 'kind') == cls.get(nm), 'a pool of another kind')
            if gget(s, 'made'):
                ex.prove(s, 'factory/hands-out', ex.ptr_eq(rp(ex, s, out), gget(s, 'at')), 'the pool is not handed out')
        t.run(f, st, [out, k, n], done, cover=nm)


TASKS = [('%s: made' % k, t_ctor(k)) for k in KINDS]
TASKS += [('%s: threads' % k, t_thread(k)) for k in KINDS]
TASKS += [('%s: run' % k, t_run(k)) for k in KINDS]
TASKS += [('%s: shutdown' % k, t_shutdown(k)) for k in KINDS]
TASKS += [('%s: destroyed' % k, t_shutdown(k, True)) for k in KINDS]
TASKS += [('%s: numbers' % k, t_counts(k)) for k in KINDS]
TASKS += [('priority: order', t_order), ('factory', t_factory)]

"""Contract of ThreadSafeQueue, shared by Q01 (exactly-once, order) and Q02 (wake-up, close)"""
from spec import *

NS = 'maf::threading::ThreadSafeQueue::'
REC = r'maf::threading::ThreadSafeQueue<maf::stdwrap::Queue<Opaque> ?>'
RECP = r'maf::threading::ThreadSafeQueue<maf::stdwrap::PriorityQueue<Opaque, .*> ?>'
Q = r'ThreadSafeQueue<std::queue<Opaque'
PQ = r'ThreadSafeQueue<maf::stdwrap::PriorityQueue<Opaque'


class QT:
    """one verification task on a queue method"""

    def __init__(self, t, meth, prio=False, pred=None):
        self.t, self.ex, self.prio = t, t.ex, prio
        ex = t.ex
        install_opaque(ex)
        ex.contracts['operator<'] = lambda ex, st, c: lt(val(ex, st, c.args[0]), val(ex, st, c.args[1]))
        rec = RECP if prio else REC
        self.mut_off = t.off(rec, '~std::(recursive_|shared_)?mutex')
        self.prot_off = t.off(rec, r'~^(class|struct) (maf::stdwrap::PriorityQueue|std::priority_queue)<' if prio else r'~^(class|struct) std::queue<')
        self.cv_off = t.off(rec, '~std::condition_variable')
        self.closed_off = t.off(rec, '~(atomic_bool|std::atomic<)')
        pr = PQ if prio else Q
        self.f = t.fn(NS + meth, lambda d: re.search(pr, d) and (pred is None or re.search(pred, d)))
        self.st = t.state()
        self.this = t.obj(self.st, 'queue')
        self.mutex = self.this.at(self.mut_off)
        self.cont = self.this.at(self.prot_off)
        for k, v in dict(saw_closed=False, last_closed=True, closed_cs=0, owe=0, owe_close=0, waiting=0, changes=0,
                         nread=0, ncb=0, cs_at_push=2).items():
            self.st.ghost[k] = v
        self.install()

    def install(self):
        ex = self.ex
        Qs = self
        ex.gfld['mon_conts'] = [self.cont]

        def is_mutex(ex, st, p):
            return ex.entails(st, ex.ptr_eq(p, Qs.mutex))

        def on_lock(ex, st, p):
            s = stl.get_seq(ex, st, Qs.cont)
            gset(st, 'G0', s)
            gset(st, 'closed_cs', 0)

        def on_unlock(ex, st, p):
            old, new = gget(st, 'G0'), stl.get_seq(ex, st, Qs.cont)
            if gget(st, 'waiting'):
                gset(st, 'waiting', 0)
                return
            if old is not new:
                # a critical section that changed the container: at most one per call
                ex.prove(st, 'one-atomic-change', eq(gget(st, 'changes', 0), 0),
                         'the container is changed in two separate critical sections')
                gset(st, 'changes', 1)
                gset(st, 'old', old)
                gset(st, 'new', new)
            gset(st, 'old_any', old)
        install_monitors(ex, [Monitor(self.t, is_mutex, lambda ex, st, p: [(Qs.cont, 8)], on_lock, on_unlock)])

        def access(ex, st, p, c):
            if ex.entails(st, eq(p.base, Qs.this.base)):
                if stl.held(ex, st, Qs.mutex) is None:
                    ex.fail(st, 'lock-discipline/container-guarded', 'container accessed without its mutex: ' + c.norm)
        ex.hooks['container_access'] = access

        def cv(ex, st, kind, cv):
            if not ex.entails(st, ex.ptr_eq(cv, Qs.this.at(Qs.cv_off))):
                ex.fail(st, 'wakeup/condition-variable', 'unexpected condition variable')
            if kind == 'wait':
                n = stl.get_seq(ex, st, Qs.cont).n
                ex.prove(st, 'wakeup/blocks-only-when-empty', eq(n, 0),
                         'blocks although an element is available')
                c = gget(st, 'closed_cs')
                ex.prove(st, 'wakeup/blocks-only-when-open', eq(c, 2),
                         'blocks without having seen, under the lock, that the queue is open')
                ex.prove(st, 'wakeup/pending-notify-before-block', eq(gget(st, 'owe', 0), 0))
                gset(st, 'waiting', 1)
            else:
                if kind == 'notify_all':
                    gset(st, 'notified_all', 1)
                    gset(st, 'owe', 0)
                    c = gget(st, 'owe_close', 0)
                    # waiters evaluate `closed` and block atomically w.r.t. the mutex only
                    ex.prove(st, 'wakeup/close-synchronises-with-waiters',
                             bor(eq(c, 0), eq(c, 2)) if not isc(c) else c in (0, 2),
                             'close flag set and waiters notified without synchronising on the queue mutex: a waiter that has '
                             'tested the flag but not yet blocked misses the notification')
                    gset(st, 'owe_close', 0)
                    gset(st, 'cleared_wake', 1)
                else:
                    o = gget(st, 'owe', 0)
                    gset(st, 'owe', ite(lt(0, o), sub(o, 1), 0))
        ex.hooks['cv'] = cv

        def pushed(ex, st, p, base):
            gset(st, 'owe', add(gget(st, 'owe', 0), 1))
            gset(st, 'cs_at_push', gget(st, 'closed_cs', 0))
        ex.hooks['pushed'] = pushed

        def popped(ex, st, p, base):
            gset(st, 'cs_at_pop', gget(st, 'closed_cs', 0))
        ex.hooks['popped'] = popped

        def atomic(ex, st, kind, p, ty, v, mod):
            if not ex.entails(st, ex.ptr_eq(p, Qs.this.at(Qs.closed_off))):
                return None
            held = stl.held(ex, st, Qs.mutex) is not None
            cs = gget(st, 'closed_cs')
            # rely: the flag changes only while the mutex is held (guarantee proved for every writer below)
            old = ex.fresh_int(st, 'closed', 0, 1)
            if held:
                ex.assume(st, bor(eq(cs, 0), eq(cs, add(2, sub(0, old)))))
            if kind == 'load':
                gset(st, 'saw_closed', bor(gget(st, 'saw_closed', False), eq(old, 1)))
                gset(st, 'last_closed', eq(old, 1))
                gset(st, 'nread', 1)
                gset(st, 'closed_cs', ite(eq(old, 1), 1, 2) if held else 0)
                return old
            if kind == 'store':
                nv = ex.as_int(v)
            else:
                op = v[0]
                if op == 'cmpxchg':
                    exp, new = ex.as_int(v[1]), ex.as_int(v[2])
                    ok = eq(old, exp)
                    nv = ite(ok, new, old)
                elif op == 'xchg':
                    nv = ex.as_int(v[1])
                else:
                    raise Unsupported('atomic ' + op)
            ex.prove(st, 'wakeup/close-flag-written-under-lock', held,
                     'the closed flag is written without holding the queue mutex: a waiter between its test and its block (or '
                     'between its test and taking an element) is overtaken')
            gset(st, 'closed_cs', add(2, sub(0, nv)) if held else 0)
            gset(st, 'closed_old', old)
            gset(st, 'closed_new', nv)
            gset(st, 'closed_written', 1)
            trans = band(eq(old, 0) if kind != 'store' else True, eq(nv, 1))
            gset(st, 'owe_close', ite(trans, 2 if held else 1, gget(st, 'owe_close', 0)))
            if kind == 'rmw':
                return [old, ok] if v[0] == 'cmpxchg' else old
            return True
        ex.atomic_hook = atomic
        # acquiring the mutex after setting the flag orders the flag before every later test by a waiter
        lk = ex.hooks['lock']

        def lock2(ex, st, p):
            lk(ex, st, p)
            if is_mutex(ex, st, p):
                c = gget(st, 'owe_close', 0)
                gset(st, 'owe_close', ite(eq(c, 1), 2, c))
        ex.hooks['lock'] = lock2

    def final(self, ex, st, grow=False):
        """facts common to every method: locks released, waiters notified"""
        ex.prove(st, 'lock-discipline/released-on-return', not st.locks)
        o = gget(st, 'owe', 0)
        ex.prove(st, 'wakeup/growth-notified', eq(o, 0), 'returns after inserting elements without waking a waiter')
        c = gget(st, 'owe_close', 0)
        ex.prove(st, 'wakeup/close-notified', eq(c, 0), 'returns after closing without waking the waiters')

    def run(self, over, post):
        st = self.st
        over = dict(over or {})
        over['this'] = self.this

        def p(s, v):
            self.final(self.ex, s)
            post(self.ex, s, v)
        args = self.t.args(st, self.f, over)
        self.argv = args
        self.t.run(self.f, st, args, p)
        return args


def unchanged(ex, st):
    ex.prove(st, 'frame/no-element-lost-or-added', gget(st, 'changes', 0) == 0 if isc(gget(st, 'changes', 0)) else eq(gget(st, 'changes', 0), 0))


def took_first(q, ex, st, out, prio):
    """exactly one element removed: the first (a maximal one for priority queues); out holds its value"""
    if isc(gget(st, 'changes', 0)) and gget(st, 'changes', 0) == 0:
        ex.fail(st, 'delivery/removes-delivered-element', 'reports success without removing an element')
        return
    old, new = gget(st, 'old'), gget(st, 'new')
    ok = isinstance(new, stl.SeqDel) and new.par is old
    if not ok:
        ex.fail(st, 'delivery/removes-exactly-one', 'the container is not the old one without one element')
        return
    p = new.p
    if not prio:
        ex.prove(st, 'delivery/oldest-first', eq(p, 0), 'element removed is not the oldest')
    else:
        k = ex.fresh_int(st, 'k', 0, 1 << 47)
        ex.assume(st, lt(k, old.n))
        a = val_old(ex, st, old.node(ex, st, k))
        b = val_old(ex, st, old.node(ex, st, p))
        ex.prove(st, 'delivery/greatest-first', le(a, b), 'element removed is not a greatest one')
    ex.prove(st, 'delivery/value-delivered', eq(val(ex, st, out), val_old(ex, st, old.node(ex, st, p))),
             'the value handed to the consumer is not the removed element')
    ex.prove(st, 'delivery/not-after-close', eq(gget(st, 'cs_at_pop', 0), 2),
             'element delivered without having seen, under the lock, that the queue is open')


def val_old(ex, st, b):
    """value of an element when it was put into the container (initial content)"""
    h = st.heap
    q = h
    # contents right after acquisition: read below every write made by this call
    sv = st.heap
    last = None
    while q is not None:
        if isinstance(q, HH):
            last = q
            break
        q = q.parent
    st.heap = last
    try:
        return val(ex, st, Ptr(b, 0))
    finally:
        st.heap = sv


def t_pop(meth, prio, pred=None, may_timeout=False, empty_ok=False):
    def task(t):
        q = QT(t, meth, prio, pred)
        if prio:
            def pqtop(ex, st, cont, s, v):
                def fact(i):
                    return implies(band(le(0, i), lt(i, s.n)), le(val_old(ex, st, s.node(ex, st, i)), val_old(ex, st, s.node(ex, st, v))))
                lst = list(gget(st, 'pqfacts', ()))
                gset(st, 'pqfacts', tuple(lst + [(s, v)]))
            t.ex.hooks['pqtop'] = pqtop

        def post(ex, s, v):
            out = q.argv[1]
            if ex.decide(s, v):
                ex.mark('delivers')
                if prio:
                    old, new = gget(s, 'old'), gget(s, 'new')
                    took_max(q, ex, s, out)
                else:
                    took_first(q, ex, s, out, prio)
            else:
                ex.mark('declines')
                unchanged(ex, s)
                n = gget(s, 'old_any').n
                if may_timeout or empty_ok:
                    ex.prove(s, 'delivery/declines-only-when-empty-or-closed', bor(eq(n, 0), gget(s, 'saw_closed', False)),
                             'declines although an element is available and the queue is open')
                else:
                    ex.prove(s, 'delivery/blocks-until-element-or-close', gget(s, 'saw_closed', False),
                             'wait returns empty-handed although the queue is open')
        q.run({}, post)
        t.need('delivers', 'declines')
    return task


def took_max(q, ex, st, out):
    if isc(gget(st, 'changes', 0)) and gget(st, 'changes', 0) == 0:
        ex.fail(st, 'delivery/removes-delivered-element', 'reports success without removing an element')
        return
    old, new = gget(st, 'old'), gget(st, 'new')
    if not (isinstance(new, stl.SeqDel) and new.par is old):
        ex.fail(st, 'delivery/removes-exactly-one', 'the container is not the old one without one element')
        return
    # the priority_queue contract: top() is a maximal element
    tops = [v for s, v in gget(st, 'pqfacts', ()) if s is old]
    ex.prove(st, 'delivery/greatest-first', bor(*[eq(new.p, v) for v in tops]) if tops else False)
    ex.prove(st, 'delivery/value-delivered', eq(val(ex, st, out), val_old(ex, st, old.node(ex, st, new.p))))
    ex.prove(st, 'delivery/not-after-close', eq(gget(st, 'cs_at_pop', 0), 2))


def told(ex, s, v, accepted):
    if v is None:
        return
    if accepted is True or accepted is False:
        ex.prove(s, 'delivery/result', ex.to_bool(v) if accepted else bnot(ex.to_bool(v)), 'the caller is told that the element is accepted when it is refused, or the reverse')


def t_push(pred, prio=False):
    def task(t):
        q = QT(t, 'push', prio, pred)
        ref = {}

        def post(ex, s, v):
            x = s.ghost['x0']
            if isc(gget(s, 'changes', 0)) and gget(s, 'changes', 0) == 0:
                ex.mark('refused')
                ex.prove(s, 'delivery/accepts-when-open', gget(s, 'saw_closed', False),
                         'push drops the element although the queue was never seen closed')
                told(ex, s, v, False)
                return
            ex.mark('accepted')
            told(ex, s, v, True)
            ex.prove(s, 'delivery/refuses-when-closed', eq(gget(s, 'cs_at_push', 0), 2), 'the element enters a queue that may be closed: whoever closed and cleared it is not aware of it')
            old, new = gget(s, 'old'), gget(s, 'new')
            if not (isinstance(new, stl.SeqIns) and new.par is old):
                ex.fail(s, 'delivery/appends-exactly-one')
                return
            if not prio:
                ex.prove(s, 'delivery/appends-at-end', eq(new.p, old.n))
            ex.prove(s, 'delivery/element-preserved', eq(val(ex, s, Ptr(new.base, 0)), x))
        st = q.st
        q.t.ex
        q.argv = None
        over = {}
        f = q.f
        f.parse()
        arg = t.obj(st, 'data')
        st.ghost['x0'] = val(t.ex, st, arg)
        q.run({1: arg}, post)
        t.need('accepted', 'refused')
    return task


def t_push_seq(prio=False):
    """every element of the pushed sequence, in order, in one critical section; enough waiters woken"""
    def task(t):
        q = QT(t, 'push', prio, r'push<std::(__debug::)?vector')
        ex, st = t.ex, q.st
        src = t.obj(st, 'sequence')
        S0 = stl.get_seq(ex, st, src)
        st.ghost['npush'] = 0
        base_pushed = ex.hooks['pushed']

        def pushed(ex, st, p, base):
            base_pushed(ex, st, p, base)
            k = gget(st, 'npush')
            S = stl.get_seq(ex, st, src)
            ex.prove(st, 'delivery/sequence-in-order', band(lt(k, S.n), eq(val(ex, st, Ptr(base, 0)), val(ex, st, Ptr(S.node(ex, st, k), 0)))),
                     'an element pushed is not the next one of the sequence')
            if not prio:
                c = stl.get_seq(ex, st, q.cont)
                ex.prove(st, 'delivery/appends-at-end', eq(c.p, c.par.n) if isinstance(c, stl.SeqIns) else False)
            gset(st, 'npush', add(k, 1))
        ex.hooks['pushed'] = pushed

        def inv(ex, entry, head, rec, fi, norm):
            n0 = gget(entry, 'G0').n
            return [('all-notified', lambda st: eq(gget(st, 'owe', 0), gget(st, 'npush'))),
                    ('length', lambda st: eq(stl.get_seq(ex, st, q.cont).n, add(n0, gget(st, 'npush')))),
                    ('owes-one', lambda st: eq(gget(st, 'owe', 0), 0))]
        ex.loop_hooks.append(inv)

        def post(ex, s, v):
            if isc(gget(s, 'changes', 0)) and gget(s, 'changes', 0) == 0:
                ex.mark('refused')
                ex.prove(s, 'delivery/accepts-when-open', bor(gget(s, 'saw_closed', False), eq(S0.n, 0)),
                         'push drops the elements although the queue was never seen closed')
                told(ex, s, v, eq(S0.n, 0))
                return
            ex.mark('accepted')
            told(ex, s, v, True)
            ex.prove(s, 'delivery/refuses-when-closed', eq(gget(s, 'cs_at_push', 0), 2), 'the elements enter a queue that may be closed')
            ex.prove(s, 'delivery/every-element', eq(gget(s, 'npush'), S0.n), 'not every element of the sequence is pushed')
            old, new = gget(s, 'old'), gget(s, 'new')
            ex.prove(s, 'frame/nothing-else-changed', eq(new.n, add(old.n, S0.n)))
        q.run({1: src}, post)
        t.need('accepted', 'refused')
    return task


def t_read(meth, prio=False):
    def task(t):
        q = QT(t, meth, prio)

        def post(ex, s, v):
            unchanged(ex, s)
            n = gget(s, 'old_any')
            if n is None:
                ex.fail(s, 'observes-container', '%s does not look at the container' % meth)
                return
            ex.prove(s, 'result', eq(v, n.n) if meth == 'size' else eq(ex.to_bool(v), eq(n.n, 0)))
        q.run({}, post)
    return task


def t_close(meth='close', prio=False):
    def task(t):
        q = QT(t, meth, prio)

        def post(ex, s, v):
            unchanged(ex, s)
            w = gget(s, 'closed_written', 0)
            ex.prove(s, 'closes', band(eq(gget(s, 'closed_new', 0), 1)) if w else gget(s, 'saw_closed', False),
                     'the queue is not closed on return')
        q.run({}, post)
    return task


def t_reopen(prio=False):
    def task(t):
        q = QT(t, 'reOpen', prio)

        def post(ex, s, v):
            unchanged(ex, s)
            ex.prove(s, 'reopens', eq(gget(s, 'closed_new', 1), 0) if gget(s, 'closed_written', 0) else False)
        q.run({}, post)
    return task


def t_isclosed(prio=False):
    def task(t):
        q = QT(t, 'isClosed', prio)

        def post(ex, s, v):
            unchanged(ex, s)
            ex.prove(s, 'result', eq(ex.to_bool(v), gget(s, 'last_closed', None)) if gget(s, 'nread') else False)
        q.run({}, post)
    return task


def t_ctor(prio=False):
    def task(t):
        q = QT(t, 'ThreadSafeQueue', prio, r'::ThreadSafeQueue\(\)')

        def post(ex, s, v):
            ex.prove(s, 'starts-empty', eq(stl.get_seq(ex, s, q.cont).n, 0))
            if gget(s, 'closed_written', 0):
                ex.prove(s, 'starts-open', eq(gget(s, 'closed_new'), 0))
            else:
                c = ex.read(s, q.this.at(q.closed_off), 'm', 1, lambda a, b, o, e: ex.init_int(a, b, o, e, 1))
                ex.prove(s, 'starts-open', eq(c, 0))
        t.ex.hooks.pop('container_access', None)
        q.run({}, post)
    return task


def t_clear(with_cb):
    def task(t):
        q = QT(t, 'clear')
        ex = t.ex
        st = q.st
        fnp = t.obj(st, 'callback')
        mgr = ex.fresh_int(st, 'manager', 0, HEAP_LIMIT - 1)
        ex.assume(st, mgr > 0 if with_cb else mgr == 0)
        ex.write(st, fnp.at(16), 'm', 8, Ptr(mgr, 0))
        inv = ex.fresh_int(st, 'invoker', 1, HEAP_LIMIT - 1)
        ex.write(st, fnp.at(24), 'm', 8, Ptr(inv, 0))
        K = ex.fresh_int(st, 'K', 0, 1 << 47)          # arbitrary position: exactly-once per element

        def icall(ex, st, p, args, ins):
            ex.prove(st, 'clear/callback-target', ex.ptr_eq(p, Ptr(inv, 0)))
            g0 = gget(st, 'G0')
            k = gget(st, 'ncb', 0)
            ex.prove(st, 'clear/callback-argument', eq(val(ex, st, args[1]), val_first(ex, st, g0.node(ex, st, k))),
                     'callback does not receive the elements in queue order')
            gset(st, 'ncb', add(k, 1))
            # the callback may modify the element it is given
            set_val(ex, st, args[1], ex.fresh_int(st, 'cbmod', 0, (1 << 48) - 1))
            return None
        ex.icall_hook = icall

        def val_first(ex, st, b):
            h = gget(st, 'H0')
            sv = st.heap
            st.heap = h
            try:
                return val(ex, st, Ptr(b, 0))
            finally:
                st.heap = sv
        lk = ex.hooks['lock']

        def lock3(ex, st, p):
            lk(ex, st, p)
            gset(st, 'H0', st.heap)
        ex.hooks['lock'] = lock3

        def post(ex, s, v):
            old = gget(s, 'old') or gget(s, 'old_any')
            new = gget(s, 'new') if gget(s, 'changes', 0) else old
            ex.prove(s, 'clear/empties', eq(new.n, 0), 'queue not empty after clear')
            if with_cb:
                ex.prove(s, 'clear/callback-once-per-element', eq(gget(s, 'ncb', 0), old.n))
        q.run({1: fnp}, post)
    return task


COMMON = []
for prio in (False, True):
    P = 'PriorityQueue.' if prio else 'Queue.'
    COMMON += [(P + 'construct', t_ctor(prio)),
               (P + 'push(const&)', t_push(r'push\(Opaque const&\)', prio)),
               (P + 'push(&&)', t_push(r'push\(Opaque&&\)', prio)),
               (P + 'push(sequence)', t_push_seq(prio)),
               (P + 'wait', t_pop('wait', prio)),
               (P + 'waitFor', t_pop('waitFor', prio, r'waitFor<|waitFor\(Opaque&, std::chrono', may_timeout=True)),
               (P + 'waitUntil', t_pop('waitUntil', prio, may_timeout=True)),
               (P + 'waitFor(ms)', t_pop('waitFor', prio, r'waitFor\(Opaque&, long', may_timeout=True)),
               (P + 'tryPop', t_pop('tryPop', prio, empty_ok=True)),
               (P + 'size', t_read('size', prio)),
               (P + 'empty', t_read('empty', prio)),
               (P + 'close', t_close('close', prio)),
               (P + 'destroy', t_close('~ThreadSafeQueue', prio)),
               (P + 'reOpen', t_reopen(prio)),
               (P + 'isClosed', t_isclosed(prio))]
COMMON += [('Queue.clear(callback)', t_clear(True)), ('Queue.clear()', t_clear(False))]
TUS = ['@queue.cpp']

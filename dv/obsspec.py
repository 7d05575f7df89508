"""Contracts of observables (O01) and of the lock-holding wrappers (L01)."""
from spec import *
from stl import as_ptr

D = 'maf::signal_slots::details::'
TUS = ['@observable.cpp']
I32 = 1 << 31


def sgn(x):
    """value of a stored 32-bit integer, whichever representative of it the engine holds"""
    return signed(x, 32)


class Obs:
    """an observable of one int, or of an arbitrary value and an int, in an arbitrary state; other threads may change
    the stored values whenever the lock is not held"""

    def __init__(self, t, n=1):
        self.t, self.ex, self.n = t, t.ex, n
        ex = self.ex
        install_opaque(ex)
        self.st = st = t.state()
        args = 'int' if n == 1 else 'Opaque, int'
        keeper = r'maf::signal_slots::details::StateBasedSlotKeeper<maf::signal_slots::details::MultiSlotKeeper, %s>' % args
        obs = r'maf::signal_slots::details::BasicObservableThreadSafe<std::recursive_mutex, maf::signal_slots::details::M_StateBasedKeeper_, %s>' % args
        mk = r'maf::signal_slots::details::BasicSignal_<maf::threading::AtomicObject<%s, std::recursive_mutex>, %s>::MyKeeper_' % (keeper, args)
        self.this = t.obj(st, 'observable')
        self.keeper = t.obj(st, 'keeper')
        self.ctl = t.obj(st, 'kctl')
        sk = self.this.at(t.off(obs, 'slotKeeper_'))
        ex.write(st, sk, 'm', 8, self.keeper)
        ex.write(st, sk.at(8), 'm', 8, self.ctl)
        stl.mark_alive(ex, st, self.ctl)
        data = t.off(mk, 'data_')
        self.data = self.keeper.at(data)
        self.mutex = self.keeper.at(t.off(mk, 'mutex_'))
        self.state = self.keeper.at(data + t.off(keeper, 'state_'))
        self.size = t.lay.sizeof(keeper) - t.off(keeper, 'state_')
        # components in declaration order: (kind, place)
        self.c = [('i', self.state)] if n == 1 else [('o', self.state.at(8)), ('i', self.state)]
        ex.hooks['lock'] = self.lock
        ex.hooks['unlock'] = self.unlock
        ex.hooks['prestore'] = self.store
        ex.contracts[D + 'MultiSlotKeeper::notify'] = self.notify
        ex.contracts[D + 'BasicSignal_::connect'] = self.connect
        ex.icall_hook = self.icall
        st.ghost.update(notes=(), sections=0, direct=0, first=None)

    def val(self, st, k, p):
        return sgn(self.ex.read_int(st, p, 4)) if k == 'i' else val(self.ex, st, p)

    def values(self, st):
        return tuple(self.val(st, k, p) for k, p in self.c)

    def is_mine(self, st, p):
        return self.ex.entails(st, self.ex.ptr_eq(p, self.mutex)) is True

    def lock(self, ex, st, p):
        if not self.is_mine(st, p):
            return
        havoc_monitor(ex, st, self.state, self.size)
        for k, q in self.c:          # values of the components, chosen by the other threads
            if k == 'i':
                ex.write(st, q, 'm', 4, ex.fresh_int(st, 'state', 0, 2 * I32 - 1))
            else:
                set_val(ex, st, q, ex.fresh_int(st, 'stateO', 0, (1 << 48) - 1))
        gadd(st, 'sections')
        gset(st, 'at_lock', self.values(st))
        if gget(st, 'first') is None:
            gset(st, 'first', self.values(st))

    def unlock(self, ex, st, p):
        if self.is_mine(st, p):
            gset(st, 'final', self.values(st))
            # a change that is not announced in the critical section that makes it is never announced
            if not gget(st, 'silent'):
                ch = bor(*[bnot(eq(a, b)) for a, b in zip(gget(st, 'at_lock'), gget(st, 'final'))])
                notes = gget(st, 'notes')
                ex.prove(st, 'observable/change-notified', implies(ch, len(notes) >= 1), 'the state changed and nobody is told')
                ex.prove(st, 'observable/no-notification-without-change', implies(bnot(ch), len(notes) == 0), 'a notification although the state did not change')
                ex.prove(st, 'observable/notified-once', len(notes) <= 1, 'one change is notified several times')
            else:
                ex.prove(st, 'observable/silent', len(gget(st, 'notes')) == 0, 'a silent change is announced')

    def store(self, ex, st, p, *a):
        e = ex.ptr_eq(Ptr(p.base, 0), Ptr(self.state.base, 0))
        if e is False or ex.entails(st, e) is not True:
            return
        if isc(p.off) and self.state.off <= p.off < self.state.off + self.size:
            ex.prove(st, 'locking/state-written-under-lock', stl.held(ex, st, self.mutex) is not None, 'the state is changed without the lock')

    def notify(self, ex, st, c):
        ex.prove(st, 'locking/notified-under-lock', stl.held(ex, st, self.mutex) is not None, 'the slots are notified without the lock')
        ex.prove(st, 'observable/own-slots', ex.ptr_eq(c.args[0], self.data))
        cur = self.values(st)
        got = tuple(self.val(st, k, a) for (k, _), a in zip(self.c, c.args[1:]))
        ex.prove(st, 'observable/state-new-before-notification', band(*[eq(a, b) for a, b in zip(cur, got)]), 'the notified values are not the stored ones')
        gset(st, 'notes', gget(st, 'notes') + (got,))
        return None

    # connecting: the signal part is under contract S02
    def connect(self, ex, st, c):
        gset(st, 'connects', gget(st, 'connects', 0) + 1)
        ret = c.args[0]
        t = self.t
        slot = t.obj(st, 'slot')
        sctl = t.obj(st, 'slotctl')
        if ex.choose(st, 2) == 0:
            gset(st, 'slot', slot)
            stl.mark_alive(ex, st, sctl)
        else:
            gset(st, 'slot', None)
            slot = sctl = NULL
        o = lambda f: t.off('maf::signal_slots::details::Connection', f)
        ex.write(st, ret.at(o('ctor_')), 'm', 8, slot)
        ex.write(st, ret.at(o('ctor_') + 8), 'm', 8, sctl)
        ex.write(st, ret.at(o('ctor_._M_index')), 'm', 1, 0)
        ex.write(st, ret.at(o('hubref_')), 'm', 8, self.keeper if gget(st, 'slot') else NULL)
        ex.write(st, ret.at(o('hubref_') + 8), 'm', 8, self.ctl if gget(st, 'slot') else NULL)
        return None

    def icall(self, ex, st, p, args, ins):
        raise Unsupported('call of an unknown function')

    def fn(self, name):
        return self.t.fn(name)

    def arg(self, k, name='arg'):
        p = self.t.obj(self.st, name)
        if k == 'i':
            return p, sgn(self.ex.read_int(self.st, p, 4))
        return p, val(self.ex, self.st, p)

    def end(self, s):
        self.ex.prove(s, 'locking/released', len(s.locks) == 0, 'the lock stays held')

    def final(self, s, want, name='observable/stored'):
        """the state the operation leaves behind"""
        self.end(s)
        f = gget(s, 'final')
        if f is None:
            self.ex.fail(s, 'locking/state-accessed-under-lock', 'the lock is never taken')
            return
        self.ex.prove(s, name, band(*[eq(a, b) for a, b in zip(f, want)]), 'the stored state is not the one that was set')

    def atomic(self, s):
        self.ex.prove(s, 'locking/one-critical-section', gget(s, 'sections') == 1, 'the operation is not atomic: the lock is released in between')


def t1_set(name):
    def run(t):
        O = Obs(t)
        p, v = O.arg('i')
        t.run(O.fn(name), O.st, [O.this, p], lambda s, r: (O.final(s, [sgn(v)]), O.atomic(s)))
    return run


def t1_get(name):
    def run(t):
        O = Obs(t)

        def post(s, r):
            O.end(s)
            O.ex.prove(s, 'observable/get-current', gget(s, 'final') is not None and eq(sgn(O.ex.as_int(r)), gget(s, 'final')[0]), 'the value returned is not the stored one')
            O.ex.prove(s, 'observable/get-keeps', gget(s, 'final') is not None and eq(gget(s, 'first')[0], gget(s, 'final')[0]))
        t.run(O.fn(name), O.st, [O.this], post)
    return run


def t1_arith(name, f, post_old=False):
    """read-modify-write: atomic, result is the new value (the old one for postfix)"""
    def run(t):
        O = Obs(t)
        ex, st = O.ex, O.st
        v = ex.fresh_int(st, 'v', 0, 2 * I32 - 1)
        fn = O.fn(name)
        fn.parse()
        args = [O.this, v][:len(fn.params)]
        # no overflow (undefined for the user's operands)
        done = {}

        def post(s, r):
            O.atomic(s)
            old = gget(s, 'first')[0]
            new = f(old, sgn(v))
            if new is None:
                new = gget(s, 'final')[0]
            O.final(s, [new], 'observable/updated')
            ex.prove(s, 'observable/result', eq(sgn(ex.as_int(r)), old if post_old else new), 'the result is not the %s value' % ('old' if post_old else 'new'))
        l0 = O.lock

        def lock(ex2, s, p):
            l0(ex2, s, p)
            if gget(s, 'sections') == 1:
                new = f(gget(s, 'first')[0], sgn(v))
                if new is not None:
                    ex.assume(s, band(le(-I32, new), lt(new, I32)))
        ex.hooks['lock'] = lock
        t.run(fn, st, args, post)
    return run


def t1_op(name, op):
    """the remaining compound assignments: stored and returned value are the operation's result on the stored operand"""
    def run(t):
        O = Obs(t)
        ex, st = O.ex, O.st
        v = ex.fresh_int(st, 'v', 0, 31) if 'sh' in op else ex.fresh_int(st, 'v', 1 if op in ('sdiv', 'srem') else 0, 2 * I32 - 1)

        def post(s, r):
            O.atomic(s)
            new = sgn(ex.binop(s, op, ('i', 32), gget(s, 'raw'), v, ()))
            O.final(s, [new], 'observable/updated')
            ex.prove(s, 'observable/result', eq(sgn(ex.as_int(r)), new), 'the result is not the new value')
        l0 = O.lock

        def lock(ex2, s, p):
            l0(ex2, s, p)
            if O.is_mine(s, p):
                gset(s, 'raw', ex.read_int(s, O.state, 4))
        ex.hooks['lock'] = lock
        a = t.obj(st, 'operand')
        ex.write(st, a, 'm', 4, v)
        t.run(O.fn(name), st, [O.this, a], post)
    return run


def t1_mut(name, silent=False):
    def run(t):
        O = Obs(t)
        O.st.ghost['silent'] = silent
        v = O.ex.fresh_int(O.st, 'v', 0, 2 * I32 - 1)
        t.run(O.fn(name), O.st, [O.this, v], lambda s, r: (O.final(s, [sgn(v)]), O.atomic(s)))
    return run


def t1_mut_keep(t):
    O = Obs(t)
    t.run(O.fn('o1_mut_keep'), O.st, [O.this], lambda s, r: (O.final(s, gget(s, 'first')), O.atomic(s)))


def t_connect(name, n=1, silent=False):
    def run(t):
        O = Obs(t, n)
        ex, st = O.ex, O.st
        ret = Ptr(ex.fresh_base(st), 0)
        f = t.obj(st, 'function')

        def call(ex, st, c):
            gadd(st, 'direct')
            ex.prove(st, 'observable/initial-call-to-the-new-slot', gget(st, 'slot') is not None and ex.ptr_eq(c.args[0], gget(st, 'slot')), 'another slot is called')
            ex.prove(st, 'observable/initial-call-under-lock', stl.held(ex, st, O.mutex) is not None, 'a concurrent change may overtake the initial call')
            cur = O.values(st)
            got = tuple(O.val(st, k, a) for (k, _), a in zip(O.c, c.args[1:]))
            ex.prove(st, 'observable/initial-call-current-value', band(*[eq(a, b) for a, b in zip(cur, got)]), 'the new slot is called with another value than the current one')
            return None
        ex.contracts['std::function::operator()'] = call

        def post(s, r):
            O.end(s)
            ok = gget(s, 'slot') is not None
            ex.mark('connected' if ok else 'refused')
            ex.prove(s, 'observable/connects', eq(gget(s, 'connects', 0), 1))
            ex.prove(s, 'observable/initial-call', eq(gget(s, 'direct'), 1 if ok and not silent else 0), 'connecting does not call the new slot once with the current value' if not silent else 'a silent connection calls the slot')
            o = t.off('maf::signal_slots::details::Connection', 'ctor_')
            ex.prove(s, 'observable/connection-returned', ex.ptr_eq(as_ptr(ex.read(s, ret.at(o), 'm', 8, ex.init_ptr)), gget(s, 'slot') or NULL), 'the connection returned is not the one made')
        t.need('connected', 'refused')
        t.run(O.fn(name), st, [ret, O.this, f], post)
    return run


def t2(name, kinds, want, silent=False, one=True):
    """kinds: kinds of the arguments; want(first, args) -> final state"""
    def run(t):
        O = Obs(t, 2)
        O.st.ghost['silent'] = silent
        a = [O.arg(k, 'arg%d' % i) for i, k in enumerate(kinds)]
        vs = [v for p, v in a]

        def post(s, r):
            O.final(s, want(gget(s, 'first') or (0, 0), vs))
            if one:
                O.atomic(s)
        t.run(O.fn(name), O.st, [O.this] + [p for p, v in a], post)
    return run


def t2_get(t):
    for name in ('o2_get', 'o2_get0'):
        O = Obs(t, 2)
        out = t.obj(O.st, 'out')

        def post(s, r, O=O, out=out, name=name):
            O.end(s)
            f = gget(s, 'final')
            O.ex.prove(s, 'observable/get-consistent', f is not None and gget(s, 'sections') == 1, 'the parts are not read in one critical section')
            if f is not None:
                w = eq(O.val(s, 'o', out.at(8) if name == 'o2_get' else out), f[0])
                if name == 'o2_get':
                    w = band(w, eq(O.val(s, 'i', out), f[1]))
                O.ex.prove(s, 'observable/get-current', w)
        t.run(O.fn(name), O.st, [O.this, out], post, cover=name)
    O = Obs(t, 2)
    t.run(O.fn('o2_get1'), O.st, [O.this], lambda s, r: (O.end(s), O.ex.prove(s, 'observable/get-current', gget(s, 'final') is not None and eq(sgn(O.ex.as_int(r)), gget(s, 'final')[1]))), cover='get<1>')


def t2_assign(t):
    O = Obs(t, 2)
    p = t.obj(O.st, 'state')
    a, b = O.val(O.st, 'o', p.at(8)), O.val(O.st, 'i', p)
    t.run(O.fn('o2_assign'), O.st, [O.this, p], lambda s, r: (O.final(s, [a, b]), O.atomic(s)))


O01 = [('Observable<int>::set', t1_set('o1_set')), ('Observable<int>::operator=', t1_set('o1_assign')),
       ('Observable<int>::get', t1_get('o1_get')), ('Observable<int>::operator int', t1_get('o1_conv')), ('Observable<int>::immutable', t1_get('o1_imm')),
       ('Observable<int>::operator+=', t1_arith('o1_add', lambda o, v: add(o, v))), ('Observable<int>::operator-=', t1_arith('o1_sub', lambda o, v: sub(o, v))),
       ('Observable<int>::operator++()', t1_arith('o1_pre', lambda o, v: add(o, 1))), ('Observable<int>::operator++(int)', t1_arith('o1_post', lambda o, v: add(o, 1), True)),
       ] + [('Observable<int>::operator%s=' % o, t1_op('o1_op_' + n, n)) for o, n in (('*', 'mul'), ('/', 'sdiv'), ('%', 'srem'), ('|', 'or'), ('&', 'and'), ('^', 'xor'), ('<<', 'shl'), ('>>', 'ashr'))] + [
       ('Observable<int>::mutable_', t1_mut('o1_mut')), ('Observable<int>::mutable_ unchanged', t1_mut_keep), ('Observable<int>::silentMutable', t1_mut('o1_silent', True)),
       ('Observable<int>::connect', t_connect('o1_connect')), ('Observable<int>::connect const', t_connect('o1_const_connect')), ('Observable<int>::silentlyConnect', t_connect('o1_silent_connect', silent=True)),
       ('Observable<T,int>::set', t2('o2_set', 'oi', lambda f, v: v)), ('Observable<T,int>::set<0>', t2('o2_set0', 'o', lambda f, v: [v[0], f[1]])),
       ('Observable<T,int>::set<1>', t2('o2_set1', 'i', lambda f, v: [f[0], v[0]])), ('Observable<T,int>::set<1,0>', t2('o2_set10', 'io', lambda f, v: [v[1], v[0]])),
       ('Observable<T,int>::silentSet', t2('o2_silent', 'oi', lambda f, v: v, True)), ('Observable<T,int>::silentSet<1>', t2('o2_silent1', 'i', lambda f, v: [f[0], v[0]], True)),
       ('Observable<T,int>::get', t2_get), ('Observable<T,int>::operator=', t2_assign),
       ('Observable<T,int>::mutable_<0>', t2('o2_mut0', 'o', lambda f, v: [v[0], f[1]])), ('Observable<T,int>::mutable_', t2('o2_mut', 'oi', lambda f, v: v)),
       ('Observable<T,int>::connect', t_connect('o2_connect', 2))]



class Compound:
    """making an observable of two others; sources in an arbitrary state, connecting is under contract S02"""

    def __init__(self, t, executor):
        self.t, self.ex = t, t.ex
        ex = self.ex
        install_opaque(ex)
        self.st = st = t.state()
        self.src = [self.source(t, 'Opaque', 'o', 'a'), self.source(t, 'int', 'i', 'b')]
        args = 'Opaque, int'
        keeper = r'maf::signal_slots::details::StateBasedSlotKeeper<maf::signal_slots::details::MultiSlotKeeper, %s>' % args
        self.mk = r'maf::signal_slots::details::BasicSignal_<maf::threading::AtomicObject<%s, std::recursive_mutex>, %s>::MyKeeper_' % (keeper, args)
        self.off_state = t.off(self.mk, 'data_') + t.off(keeper, 'state_')
        self.off_mutex = t.off(self.mk, 'mutex_')
        self.this = Ptr(ex.fresh_base(st), 0)
        self.c = [('o', 8), ('i', 0)]
        st.ghost.update(conns=(), notes=0, unlocked=0)
        ex.hooks['lock'] = self.lock
        ex.hooks['unlock'] = self.unlock
        ex.contracts[D + 'BasicSignal_::connect'] = self.connect
        ex.contracts[D + 'MultiSlotKeeper::notify'] = self.notify
        self.executor = executor

    def source(self, t, arg, kind, name):
        ex, st = self.ex, self.st
        keeper = r'maf::signal_slots::details::StateBasedSlotKeeper<maf::signal_slots::details::MultiSlotKeeper, %s>' % arg
        obs = r'maf::signal_slots::details::BasicObservableThreadSafe<std::recursive_mutex, maf::signal_slots::details::M_StateBasedKeeper_, %s>' % arg
        mk = r'maf::signal_slots::details::BasicSignal_<maf::threading::AtomicObject<%s, std::recursive_mutex>, %s>::MyKeeper_' % (keeper, arg)
        o, k, ctl = t.obj(st, name), t.obj(st, name + 'keeper'), t.obj(st, name + 'kctl')
        sk = o.at(t.off(obs, 'slotKeeper_'))
        ex.write(st, sk, 'm', 8, k)
        ex.write(st, sk.at(8), 'm', 8, ctl)
        stl.mark_alive(ex, st, ctl)
        return dict(o=o, k=k, ctl=ctl, kind=kind, mutex=k.at(t.off(mk, 'mutex_')), state=k.at(t.off(mk, 'data_') + t.off(keeper, 'state_')))

    def val(self, st, k, p):
        return sgn(self.ex.read_int(st, p, 4)) if k == 'i' else val(self.ex, st, p)

    def keeper(self, st):
        return as_ptr(self.ex.read(st, self.this.at(self.t.off(self.mk_owner(), 'slotKeeper_')), 'm', 8, self.ex.init_ptr))

    def mk_owner(self):
        return r'maf::signal_slots::details::BasicCompoundObservable_<maf::threading::AtomicObject<maf::signal_slots::details::StateBasedSlotKeeper<maf::signal_slots::details::MultiSlotKeeper, Opaque, int>, std::recursive_mutex>, Opaque, int>'

    def own(self, st, p):
        k = self.keeper(st)
        return self.ex.ptr_eq(p, k.at(self.off_mutex)) is True

    def values(self, st):
        k = self.keeper(st)
        return tuple(self.val(st, kind, k.at(self.off_state + o)) for kind, o in self.c)

    def lock(self, ex, st, p):
        for i, s in enumerate(self.src):
            if ex.entails(st, ex.ptr_eq(p, s['mutex'])) is True:
                if s['kind'] == 'i':
                    ex.write(st, s['state'], 'm', 4, ex.fresh_int(st, 'source', 0, 2 * I32 - 1))
                else:
                    set_val(ex, st, s['state'], ex.fresh_int(st, 'sourceO', 0, (1 << 48) - 1))
                gset(st, 'cur%d' % i, gget(st, 'cur%d' % i, ()) + (self.val(st, s['kind'], s['state']),))
                return
        gset(st, 'before', self.values(st))

    def unlock(self, ex, st, p):
        for s in self.src:
            if ex.entails(st, ex.ptr_eq(p, s['mutex'])) is True:
                return
        ex.prove(st, 'compound/own-lock', self.own(st, p), 'the state of another object is touched')
        gadd(st, 'unlocked')

    def notify(self, ex, st, c):
        gadd(st, 'notes')
        cur = self.values(st)
        got = tuple(self.val(st, k, a) for (k, o), a in zip(self.c, c.args[1:]))
        ex.prove(st, 'compound/notified-values', band(*[eq(a, b) for a, b in zip(cur, got)]), 'the notified values are not the stored ones')
        ex.prove(st, 'compound/notified-on-change', bor(*[bnot(eq(a, b)) for a, b in zip(gget(st, 'before'), cur)]), 'notified without a change')
        return None

    def connect(self, ex, st, c):
        ret, src, f = c.args[:3]
        idx = [i for i, s in enumerate(self.src) if ex.ptr_eq(src, s['o']) is True]
        ex.prove(st, 'compound/connects-to-its-sources', len(idx) == 1, 'connected to something else')
        i = idx[0]
        ex.prove(st, 'compound/connects-each-source-once', i not in [x[0] for x in gget(st, 'conns')], 'a source is connected twice')
        if self.executor:
            ex.prove(st, 'compound/executor-used', len(c.args) == 4 and ex.ptr_eq(as_ptr(ex.read(st, c.args[3], 'm', 8, ex.init_ptr)), self.execo), 'the update is not run by the executor')
        else:
            ex.prove(st, 'compound/no-executor', len(c.args) == 3)
        slot, sctl = self.t.obj(st, 'slot%d' % i), self.t.obj(st, 'slotctl%d' % i)
        stl.mark_alive(ex, st, sctl)
        for o in (0, 8, 16, 24):
            ex.write(st, slot.at(o), 'm', 8, ex.read(st, f.at(o), 'm', 8, ex.init_ptr))
        ex.write(st, f.at(16), 'm', 8, NULL)
        gset(st, 'conns', gget(st, 'conns') + ((i, slot),))
        o = lambda x: self.t.off('maf::signal_slots::details::Connection', x)
        ex.write(st, ret.at(o('ctor_')), 'm', 8, slot)
        ex.write(st, ret.at(o('ctor_') + 8), 'm', 8, sctl)
        ex.write(st, ret.at(o('ctor_._M_index')), 'm', 1, 0)
        ex.write(st, ret.at(o('hubref_')), 'm', 8, self.src[i]['k'])
        ex.write(st, ret.at(o('hubref_') + 8), 'm', 8, self.src[i]['ctl'])
        return None


def t_compound(executor):
    def run(t):
        C = Compound(t, executor)
        ex, st = C.ex, C.st
        args = [C.this] + ([] if not executor else [None]) + [s['o'] for s in C.src]
        if executor:
            C.execo = t.obj(st, 'executor')
            e, ec = t.obj(st, 'execptr'), t.obj(st, 'execctl')
            ex.write(st, e, 'm', 8, C.execo)
            ex.write(st, e.at(8), 'm', 8, ec)
            stl.mark_alive(ex, st, ec)
            args[1] = e
            # the initial call goes through the executor: contract of the slot it was given (S02)
            ex.contracts['std::function::operator()'] = lambda ex, st, c: None if any(ex.ptr_eq(c.args[0], s) is True for i, s in gget(st, 'conns')) and not gget(st, 'made') else '$body'

        def made(s, r):
            s.ghost['made'] = True
            ex.prove(s, 'compound/all-sources-connected', len(gget(s, 'conns')) == 2, 'a source is not connected')
            v = C.values(s)
            ex.prove(s, 'compound/starts-with-the-sources-values', band(*[bor(*[eq(v[i], x) for x in gget(s, 'cur%d' % i, ())]) for i in (0, 1)]), 'the new observable does not hold the current values of its sources')
            ex.prove(s, 'locking/released', len(s.locks) == 0)
            conns = dict(gget(s, 'conns'))
            for i, name in ((0, 'co_slot0'), (1, 'co_slot1')):
                s1 = s.clone()
                p = t.obj(s1, 'new%d' % i)
                x = C.val(s1, C.c[i][0], p)
                s1.ghost['notes'] = 0
                old = C.values(s1)

                def updated(s2, r2, i=i, x=x, old=old):
                    v2 = C.values(s2)
                    ex.prove(s2, 'compound/follows-its-source', eq(v2[i], x), 'a change of a source does not reach the observable')
                    ex.prove(s2, 'compound/keeps-the-others', eq(v2[1 - i], old[1 - i]), 'a change of one source changes another part')
                    ex.prove(s2, 'compound/change-notified', implies(bnot(eq(old[i], x)), eq(gget(s2, 'notes'), 1)), 'the change is not notified once')
                    ex.prove(s2, 'locking/released', len(s2.locks) == 0)
                t.run(t.fn(name), s1, [conns[i], p], updated, cover='slot %d' % i)

            # destruction disconnects from the sources
            # (a scoped connection disconnects when it is destroyed: S02; a temporary, moved-from one has nothing to disconnect)
            def gone(ex, st, cx):
                if cx.cls != 'vector':
                    return
                q = cx.seq()
                for j in range(q.n if isc(q.n) else 0):
                    p = as_ptr(ex.read(st, Ptr(q.node(ex, st, j), t.off('maf::signal_slots::details::Connection', 'ctor_')), 'm', 8, ex.init_ptr))
                    gset(st, 'disc', gget(st, 'disc', ()) + tuple(i for i, x in gget(st, 'conns') if ex.ptr_eq(p, x) is True))
            ex.hooks['container_dtor'] = gone
            t.run(t.fn('co_destroy'), s, [C.this], lambda s2, r2: ex.prove(s2, 'compound/destruction-disconnects', sorted(gget(s2, 'disc', ())) == [0, 1], 'a destroyed observable stays connected to a source'), cover='destroy')
        t.run(t.fn('co_make_ex' if executor else 'co_make'), st, args, made)
    return run


O01 += [('CompoundObservable', t_compound(False)), ('CompoundObservable with executor', t_compound(True))]


# ---------------------------------------------------------------- L01: objects accessible only under their lock
T = r'maf::threading::'
REC = {'ao': (T + 'AtomicObject<Opaque>', 'data_', 'mutex_'), 'lo': (T + 'Lockable<Opaque>', '_protected', '_mutex'),
       'ap': (T + 'AtomicObject<Ptr3>', 'data_', 'mutex_'), 'am': (T + r'AtomicObject<Opaque, maf::threading::MutexReference<std::mutex> >', 'data_', 'mutex_')}


class Lk:
    """objects in an arbitrary state, sessions on them made by their own constructors"""

    def __init__(self, t, kind):
        self.t, self.ex, self.kind = t, t.ex, kind
        install_opaque(self.ex)
        self.st = t.state()
        self.rec, self.d, self.m = REC[kind]
        self.ex.hooks['prestore'] = self.store
        self.ex.hooks['unlock'] = self.unlock
        self.st.ghost.update(wrote=0)
        self.objs = []

    def obj(self, name):
        p = self.t.obj(self.st, name)
        data, mut = p.at(self.t.off(self.rec, self.d)), p.at(self.t.off(self.rec, self.m))
        if self.kind == 'am':          # the object refers to a mutex living elsewhere
            m = self.t.obj(self.st, name + '_mutex')
            self.ex.write(self.st, mut, 'm', 8, m)
            mut = m
        self.objs.append((p, data, mut))
        return p, data, mut

    def mem(self, name, n=16):
        return self.t.obj(self.st, name)

    def store(self, ex, st, p, *a):
        for o, data, mut in self.objs:
            if ex.ptr_eq(Ptr(p.base, 0), Ptr(data.base, 0)) is True and isc(p.off) and data.off <= p.off < data.off + 8:
                ex.prove(st, 'locking/written-under-lock', stl.held(ex, st, mut) is not None, 'the protected object is changed without its lock')
                gadd(st, 'wrote')

    def unlock(self, ex, st, p):
        for i, (o, data, mut) in enumerate(self.objs):
            if ex.ptr_eq(p, mut) is True:
                gset(st, 'left%d' % i, val(ex, st, data))

    def locked(self, s, want, what):
        """exactly these mutexes are held, each once"""
        ok = len(s.locks) == len(want) and all((lambda i: i is not None and s.locks[i][1] == 1)(stl.held(self.ex, s, w)) for w in want)
        self.ex.prove(s, 'session/' + what, ok, 'the wrong mutexes are held afterwards')

    def chain(self, steps, st=None):
        """run functions one after the other; each step (function, arguments, post)"""
        st = st or self.st
        if not steps:
            return
        f, args, post = steps[0]

        def done(s, r):
            post(s, r)
            if len(steps) > 1:
                self.chain(steps[1:], s)
        self.t.run(self.t.fn(f), st, args, done, cover=f)


def l_session(kind, ctor, dtor, derefs, lock_arg=True):
    def run(t):
        L = Lk(t, kind)
        o, data, mut = L.obj('o')
        r = L.mem('session')
        ex = L.ex

        def same(s, x):
            L.locked(s, [mut], 'held-while-alive')
            ex.prove(s, 'session/gives-the-object-itself', ex.ptr_eq(as_ptr(x), data), 'the session gives access to something else than the protected object')
        steps = [(ctor, [r, o], lambda s, x: L.locked(s, [mut], 'locks-on-construction'))]
        steps += [(d, [r], same) for d in derefs]
        steps += [(dtor, [r], lambda s, x: L.locked(s, [], 'released-on-destruction'))]
        L.chain(steps)
    return run


def l_move_ctor(t):
    for order in ('new', 'old'):
        L = Lk(t, 'ao')
        o, data, mut = L.obj('o')
        a, b = L.mem('a'), L.mem('b')
        steps = [('ao_ctor', [a, o], lambda s, x, L=L, mut=mut: L.locked(s, [mut], 'locks-on-construction')),
                 ('ao_move_ctor', [b, a], lambda s, x, L=L, mut=mut: L.locked(s, [mut], 'moving-keeps-the-lock')),
                 ('ao_deref', [b], lambda s, x, L=L, data=data: L.ex.prove(s, 'session/moved-to-owns', L.ex.ptr_eq(as_ptr(x), data)))]
        first, second = (b, a) if order == 'new' else (a, b)
        steps.append(('ao_dtor', [first], lambda s, x, L=L, mut=mut: L.locked(s, [] if order == 'new' else [mut], 'moved-from-does-not-unlock')))
        steps.append(('ao_dtor', [second], lambda s, x, L=L: L.locked(s, [], 'released-once')))
        L.chain(steps)


def l_move_assign(t):
    # r holds object 1, s holds object 2
    L = Lk(t, 'ao')
    o1, d1, m1 = L.obj('o1')
    o2, d2, m2 = L.obj('o2')
    L.ex.assume(L.st, bnot(eq(o1.base, o2.base)))
    a, b = L.mem('a'), L.mem('b')
    A, B = ('ao_ctor', [a, o1], lambda s, x: None), ('ao_ctor', [b, o2], lambda s, x: L.locked(s, [m1, m2], 'sessions-are-independent'))
    mv = ('ao_move_assign', [a, b], lambda s, x: L.locked(s, [m2], 'assignment-releases-own-takes-other'))
    dr = ('ao_deref', [a], lambda s, x: L.ex.prove(s, 'session/assigned-to-owns', L.ex.ptr_eq(as_ptr(x), d2)))
    L.chain([A, B, mv, dr, ('ao_dtor', [b], lambda s, x: L.locked(s, [m2], 'moved-from-does-not-unlock')),
             ('ao_dtor', [a], lambda s, x: L.locked(s, [], 'released-once'))])
    # onto itself
    L2 = Lk(t, 'ao')
    p, d, m = L2.obj('o')
    c = L2.mem('c')
    L2.chain([('ao_ctor', [c, p], lambda s, x: None), ('ao_move_assign', [c, c], lambda s, x: L2.locked(s, [m], 'self-assignment-keeps-the-lock')),
              ('ao_deref', [c], lambda s, x: L2.ex.prove(s, 'session/self-assignment-keeps-the-object', L2.ex.ptr_eq(as_ptr(x), d))),
              ('ao_dtor', [c], lambda s, x: L2.locked(s, [], 'released-once'))])
    # onto a session that was moved away, and from one
    L3 = Lk(t, 'ao')
    p1, d1b, m1b = L3.obj('o1')
    p2, d2b, m2b = L3.obj('o2')
    L3.ex.assume(L3.st, bnot(eq(p1.base, p2.base)))
    x, y, z = L3.mem('x'), L3.mem('y'), L3.mem('z')
    L3.chain([('ao_ctor', [x, p1], lambda s, r: None), ('ao_move_ctor', [y, x], lambda s, r: None), ('ao_ctor', [z, p2], lambda s, r: None),
              ('ao_move_assign', [x, z], lambda s, r: L3.locked(s, [m1b, m2b], 'empty-session-takes-other')),
              ('ao_move_assign', [y, z], lambda s, r: L3.locked(s, [m2b], 'taking-an-empty-session-releases')),
              ('ao_dtor', [z], lambda s, r: L3.locked(s, [m2b], 'moved-from-does-not-unlock')),
              ('ao_dtor', [y], lambda s, r: L3.locked(s, [m2b], 'moved-from-does-not-unlock')),
              ('ao_dtor', [x], lambda s, r: L3.locked(s, [], 'released-once'))])


def l_assign(kind, f):
    def run(t):
        L = Lk(t, kind)
        o, data, mut = L.obj('o')
        v = t.obj(L.st, 'value')
        x = val(L.ex, L.st, v)

        def post(s, r):
            L.locked(s, [], 'assignment-releases')
            left = gget(s, 'left0')
            L.ex.prove(s, 'assignment/locked', left is not None, 'assigned without the lock')
            if left is not None:
                L.ex.prove(s, 'assignment/stored', eq(left, x), 'the protected object is not the assigned value when the lock is released')
        t.run(t.fn(f), L.st, [o, v], post)
    return run


def l_ptr(t):
    L = Lk(t, 'ap')
    o, data, mut = L.obj('o')
    r = L.mem('session')
    q = t.obj(L.st, 'pointee')
    L.ex.write(L.st, data, 'm', 8, q)
    same = lambda s, x: (L.locked(s, [mut], 'held-while-alive'), L.ex.prove(s, 'session/gives-the-pointee', L.ex.ptr_eq(as_ptr(x), q), 'the session does not give the object pointed to'))
    L.chain([('ap_ctor', [r, o], lambda s, x: L.locked(s, [mut], 'locks-on-construction')), ('ap_data', [r], same), ('ap_deref', [r], same),
             ('ap_dtor', [r], lambda s, x: L.locked(s, [], 'released-on-destruction'))])


def l_manual(kind, lock, unlock, tryl):
    def run(t):
        def setup():
            if kind == 'lo':
                L = Lk(t, 'lo')
                o, data, mut = L.obj('o')
            else:
                L = Lk(t, 'ao')
                o = t.obj(L.st, 'locker')
                mut = o
                if kind == 'mr':
                    mut = t.obj(L.st, 'mutex')
                    L.ex.write(L.st, o, 'm', 8, mut)
            return L, o, mut
        if lock:
            L, o, mut = setup()
            L.chain([(lock, [o], lambda s, x: L.locked(s, [mut], 'lock-locks')), (unlock, [o], lambda s, x: L.locked(s, [], 'unlock-unlocks'))])
        L2, o2, mut2 = setup()

        def tried(s, x):
            got = L2.ex.truth(s, x) if hasattr(L2.ex, 'truth') else x
            L2.ex.prove(s, 'session/try-lock-truthful', (x is True or x == 1) == (len(s.locks) == 1) if isinstance(x, (bool, int)) else False, 'try_lock reports something else than it did')
            L2.locked(s, [mut2] if len(s.locks) else [], 'try-lock-own-mutex')
            L2.ex.mark('got' if s.locks else 'busy')
        t.need('got', 'busy')
        L2.chain([(tryl, [o2], tried)])
    return run


def l_locker(t):
    L = Lk(t, 'ao')
    k, h, o = t.obj(L.st, 'locker'), L.mem('handle'), t.obj(L.st, 'lockee')
    same = lambda s, x: (L.locked(s, [k], 'held-while-alive'), L.ex.prove(s, 'session/gives-the-object-itself', L.ex.ptr_eq(as_ptr(x), o)))
    L.chain([('lk_ctor', [h, k, o], lambda s, x: L.locked(s, [k], 'locks-on-construction')), ('lk_arrow', [h], same), ('lk_deref', [h], same),
             ('lk_dtor', [h], lambda s, x: L.locked(s, [], 'released-on-destruction'))])


def t_made(name, what):
    def run(t):
        ex = t.ex
        install_opaque(ex)
        st = t.state()
        f = t.fn(name)
        t.run(f, st, t.args(st, f), lambda s, r: ex.prove(s, 'observable/made-with', ex.to_bool(r), what))
    return run


O01 += [('made from a value', t_made('o1_made', 'a new observable does not hold the value it was made from')),
        ('made from values', t_made('o2_made', 'a new observable does not hold the values it was made from')),
        ('made blank', t_made('o1_blank', 'a new observable holds no value'))]
L01 = [('AtomicObject session', l_session('ao', 'ao_ctor', 'ao_dtor', ['ao_data', 'ao_deref'])),
       ('AtomicObject const session', l_session('ao', 'ao_cctor', 'ao_cdtor', ['ao_cdata', 'ao_cderef'])),
       ('AtomicObject session moved', l_move_ctor), ('AtomicObject session assigned', l_move_assign),
       ('AtomicObject session by pointer', l_session('ao', 'ao_arrow_make', 'ao_dtor', ['ao_data'])),
       ('AtomicObject session by dereference', l_session('ao', 'ao_star_make', 'ao_dtor', ['ao_data'])),
       ('AtomicObject atomic()', l_session('ao', 'ao_atomic_make', 'ao_dtor', ['ao_data'])),
       ('AtomicObject const atomic()', l_session('ao', 'ao_catomic_make', 'ao_cdtor', ['ao_cdata'])),
       ('AtomicObject const session by pointer', l_session('ao', 'ao_carrow_make', 'ao_cdtor', ['ao_cdata'])),
       ('AtomicObject const session by dereference', l_session('ao', 'ao_cstar_make', 'ao_cdtor', ['ao_cdata'])),
       ('AtomicObject::operator=', l_assign('ao', 'ao_assign')), ('AtomicObject::operator=(&&)', l_assign('ao', 'ao_assign_move')),
       ('AtomicObject of pointer session', l_ptr), ('AtomicObject with shared mutex', l_session('am', 'am_ctor', 'am_dtor', [])),
       ('MutexReference::try_lock', l_manual('mr', None, None, 'mr_try')),
       ('Lockable session', l_session('lo', 'lo_ctor', 'lo_dtor', ['lo_deref', 'lo_arrow'])),
       ('Lockable const session', l_session('lo', 'lo_cctor', 'lo_cdtor', ['lo_cderef', 'lo_carrow'])),
       ('Lockable::operator=', l_assign('lo', 'lo_assign')), ('Lockable::operator=(&&)', l_assign('lo', 'lo_assign_move')),
       ('Lockable::lock,unlock,try_lock', l_manual('lo', 'lo_lock', 'lo_unlock', 'lo_try')),
       ('Locker handle', l_locker), ('Locker::lock,unlock,try_lock', l_manual('lk', 'lk_lock', 'lk_unlock', 'lk_try'))]
TASKS = O01 + L01

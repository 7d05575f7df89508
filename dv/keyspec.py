"""Key types (addresses, registration ids) and the id generator"""
from spec import *

TUS = ['@keys.cpp', 'src/common/maf/messaging/client-server/Address.cpp']
LEMMAS = ['irreflexive', 'asymmetric', 'transitive', 'total', 'consistent', 'noteq', 'eq_parts', 'copy', 'invalid']


def lemma(name, what):
    def task(t):
        ex = t.ex
        f = t.fn(name)
        st = t.state()
        t.run(f, st, t.args(st, f), lambda s, r: ex.prove(s, 'order/' + what, ex.to_bool(r), what))
    return task


TASKS = []
for p, nm, more in (('addr', 'address', ['ctor', 'valid', 'cassign', 'massign', 'setters']), ('reg', 'registration-id', ['move', 'self', 'massign', 'cassign'])):
    for l in LEMMAS + more:
        TASKS.append(('%s.%s' % (nm, l), lemma('%s_%s' % (p, l), l)))


def t_alloc(w, ty):
    def task(t):
        ex = t.ex
        f = t.fn('maf::util::details::IDManager::allocateNewID', lambda d: 'IDManager<%s>' % ty in d)
        st = t.state()
        m = t.obj(st, 'mgr')
        MAX = (1 << w) - 1
        # the counter is shared: other threads advance it at any moment.  It has not wrapped around yet.
        st.ghost['cur'] = ex.fresh_int(st, 'counter', 0, MAX)
        st.ghost['taken'] = ()

        def rely(ex, st):
            n = ex.fresh_int(st, 'counter', 0, MAX)
            ex.assume(st, band(le(gget(st, 'cur'), n), lt(n, MAX)))
            gset(st, 'cur', n)
            return n

        def atom(ex, st, kind, p, ty, v, mod):
            c = rely(ex, st)
            if kind == 'load':
                return c
            if kind == 'store':
                ex.fail(st, 'ids/counter-only-advances-atomically', 'the shared counter is overwritten')
                raise PathEnd()
            op, x = v[0], v[1]
            if op == 'add':
                ex.prove(st, 'ids/counter-only-advances-atomically', eq(x, 1) if isc(x) else band(le(1, x), le(add(c, x), MAX)), 'the counter does not advance')
                gset(st, 'taken', gget(st, 'taken') + (c,))
                gset(st, 'cur', add(c, x))
                return c
            if op == 'cmpxchg':
                old, new = v[1], v[2]
                if ex.decide(st, eq(c, old)):
                    ex.prove(st, 'ids/counter-only-advances-atomically', lt(c, new), 'the counter does not advance')
                    gset(st, 'taken', gget(st, 'taken') + (c,))
                    gset(st, 'cur', new)
                    return c
                return c
            ex.fail(st, 'ids/counter-only-advances-atomically', 'unexpected update of the counter: %s' % op)
            raise PathEnd()
        ex.atomic_hook = atom

        def post(s, r):
            r = ex.as_int(r)
            ex.prove(s, 'ids/unique', bor(*[eq(r, x) for x in gget(s, 'taken')]) if gget(s, 'taken') else False,
                     'the id is not a value this call took from the counter')
            ex.prove(s, 'ids/valid', bnot(eq(r, MAX)), 'an invalid id is handed out')
        t.run(f, st, [m], post)
    return task


ID_TASKS = [('id-generator.%d' % w, t_alloc(w, ty)) for w, ty in ((64, 'unsigned long'), (32, 'unsigned int'), (16, 'unsigned short'))]
TASKS_ALL = TASKS + ID_TASKS

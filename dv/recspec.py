"""Contract of records: E01.

A record made with OBJECT/MEMBERS (and so every input, output, error, status and set of attributes of a service contract) is the
tuple of its declared members: construction, setters, comparison, tuple view and JSON act on exactly the member they name; a plain
aggregate is viewed and compared as the tuple of its fields.  Members are of arbitrary (opaque) types for one to four members and
numbers for the other sizes."""
from spec import *
from stl import as_ptr
from provspec import rd, rp

TUS = ['@records.cpp', '@aggregates.cpp'] + [('@wide_%s%d.cpp' % (k, i), ['@inlined']) for i in range(8) for k in 'ra']
O, B, C, U = 'Opaque', 'OpaqueB', 'OpaqueC', 'unsigned'
RECS = {'R1': [O], 'R2': [O, B], 'R3': [O, B, O], 'R4': [O, B, C, O], 'RD': [U, O, U, U]}
RECS.update({'R%d' % n: [U] * n for n in range(5, 25)})
CS = {'C1': [O, B], 'C2': [O], 'C3': [O, O], 'C4': [O, U], 'C5': [O, B]}
CSREC = {'C1': 'lamp_service::switch_on_request::input', 'C2': 'lamp_service::switch_on_request::output', 'C3': 'lamp_service::switch_on_request::error',
         'C4': 'lamp_service::brightness_property::status', 'C5': 'lamp_service::blown_signal::attributes'}
RECS.update(CS)
AGGS = {'A%d' % n: ([O, B, C, O][:n] if n <= 4 else [U] * n) for n in range(1, 25)}
WIDE_R = {'R%d' % n: [U] * n for n in range(25, 126)}       # every size that the macros and templates allow
WIDE_A = {'A%d' % n: [U] * n for n in range(25, 101)}
AGGS['AC'] = [O, U]
DECL = {'RD': [7, None, 9, None], 'C4': [None, 5]}
IDS = [('switch_on request', [0, 1, 2, 3]), ('switch_off request', [4, 5, 6]), ('reset request', [7]), ('brightness property', [8, 9]),
       ('switch_on property', [10, 11]), ('blown signal', [12, 13]), ('switch_on signal', [14]), ('dimmed signal', [15])]


def dflt(ty):
    return z3.Int('default!' + ty)


def setup(t):
    ex = t.ex
    install_opaque(ex, (O, B, C))
    for N in (O, B, C):
        base = ex.contracts['%s::%s' % (N, N)]

        def ctor(ex, st, c, base=base, N=N):
            if len(c.args) > 1:
                return base(ex, st, c)
            ex.deref_check(st, c.args[0], 'element construction')
            set_val(ex, st, c.args[0], dflt(N))
            return None
        ex.contracts['%s::%s' % (N, N)] = ctor
    return t.state()


def offs(t, name, n):
    if name in WIDE_R or name in WIDE_A:
        return [4 * i for i in range(n)]               # numbers only, so without gaps; the compiler's layouts are not printed for these
    rec = '^%s$' % (CSREC.get(name) or (name if name[0] == 'R' else 'plain::' + name))
    return [t.off(rec, 'f%d%s' % (i, '' if name[0] == 'A' else '_')) for i in range(n)]


def get(ex, st, p, ty):
    return ex.as_int(rd(ex, st, p, 4)) if ty == U else val(ex, st, p)


class Rec:
    def __init__(self, t, st, name, kind, types=None):
        self.t, self.ex, self.name = t, t.ex, name
        self.types = types or RECS.get(name) or AGGS.get(name) or WIDE_R.get(name) or WIDE_A[name]
        self.off = offs(t, name, len(self.types))
        self.p = t.obj(st, kind)

    def field(self, i):
        return self.p.at(self.off[i])

    def all(self, st, p=None):
        p = p or self.p
        return [get(self.ex, st, p.at(o), ty) for o, ty in zip(self.off, self.types)]


def args_of(t, st, types):
    ps, vs = [], []
    for i, ty in enumerate(types):
        p = t.obj(st, 'arg%d' % i)
        ps.append(p)
        vs.append(get(t.ex, st, p, ty))
    return ps, vs


def lex(a, b):
    r = False
    for x, y in zip(reversed(a), reversed(b)):
        r = bor(lt(x, y), band(eq(x, y), r))
    return r


OPS = {'eq': lambda a, b: band(*[eq(x, y) for x, y in zip(a, b)]), 'ne': lambda a, b: bnot(band(*[eq(x, y) for x, y in zip(a, b)])),
       'lt': lex, 'gt': lambda a, b: lex(b, a), 'le': lambda a, b: bnot(lex(b, a)), 'ge': lambda a, b: bnot(lex(a, b))}
WORD = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}


def expect(name, types, vs, k):
    """the members after construction from the first k"""
    out = []
    for i, ty in enumerate(types):
        d = DECL.get(name, [None] * len(types))[i]
        out.append(vs[i] if i < k else d if d is not None else 0 if ty == U else dflt(ty))
    return out


def t_make(name, k, how):
    def task(t):
        st = setup(t)
        ex = t.ex
        r = Rec(t, st, name, 'record')
        ps, vs = args_of(t, st, r.types[:k])
        want = expect(name, r.types, vs, k)
        f = t.fn('%s%d_%s' % (how, k, name) if how != 'make' else 'make_' + name)

        def post(s, v):
            p = rp(ex, s, r.p) if how == 'make' else r.p
            for i, (got, w) in enumerate(zip(r.all(s, p), want)):
                ex.prove(s, 'member-%d' % i if i < k else 'member-%d/default' % i, eq(got, w), 'a member is not the argument given for it' if i < k else 'a member that was not given is not its default')
        t.run(f, st, [r.p] + ps, post)
    return task


def t_compare(name, ops, agg=False, types=None, flat=None):
    def task(t):
        st0 = setup(t)
        ex = t.ex
        for op in ops:
            st = setup(t) if op != ops[0] else st0
            if name == 'AN':
                a, b = [AN(t, st, k) for k in ('first', 'second')]
            else:
                a, b = [Rec(t, st, name, k, types) for k in ('first', 'second')]
            want = OPS[op](a.all(st), b.all(st))
            f = t.fn('%s%s_%s' % ('' if not agg else '', op, name))

            def post(s, v):
                ex.prove(s, 'compares(%s)' % WORD[op], eq(ex.to_bool(v), want), 'the answer of %s is not that of the members, in their order' % WORD[op])
            t.run(f, st, [a.p, b.p], post)
    return task


class AN:
    def __init__(self, t, st, kind):
        self.ex, self.p = t.ex, t.obj(st, kind)
        rec = '^plain::AN$'
        o1 = t.off(rec, 'f1')
        self.at = [(t.off(rec, 'f0'), U), (o1 + t.off('^plain::A2$', 'f0'), O), (o1 + t.off('^plain::A2$', 'f1'), B), (t.off(rec, 'f2'), U)]

    def all(self, st):
        return [get(self.ex, st, self.p.at(o), ty) for o, ty in self.at]


def t_view(name, kinds):
    def task(t):
        ex = t.ex
        for k in kinds:
            st = setup(t)
            r = Rec(t, st, name, 'record')
            tab = t.obj(st, 'places')
            before = r.all(st)

            def post(s, v):
                at = 0
                if k == 'each':
                    rec = '^plain::Each$'
                    at = t.off(rec, 'p')
                    ex.prove(s, 'each/every-field-once', eq(ex.as_int(rd(ex, s, tab.at(t.off(rec, 'n')), 8)), len(r.types)), 'a field is left out or visited twice')
                for i in range(len(r.types)):
                    ex.prove(s, '%s/field-%d' % (k, i), ex.ptr_eq(rp(ex, s, tab.at(at + 8 * i)), r.field(i)), 'the view shows another field in this place')
                for i, (x, y) in enumerate(zip(before, r.all(s))):
                    ex.prove(s, '%s/unchanged-%d' % (k, i), eq(x, y), 'looking at a record changes it')
            if k == 'each':
                ex.write(st, tab.at(t.off('^plain::Each$', 'n')), 'm', 8, 0)
            t.run(t.fn('%s_%s' % (k, name)), st, [r.p, tab], post)
    return task


def t_access(name):
    def task(t):
        ex = t.ex
        for i, k in ((i, k) for i in range(len(RECS[name])) for k in ('setc', 'setm', 'get', 'cget')):
            st = setup(t)
            r = Rec(t, st, name, 'record')
            before = r.all(st)
            args = [r.p]
            if k[:3] == 'set':
                ps, vs = args_of(t, st, [r.types[i]])
                args += ps

            def post(s, v, i=i, k=k):
                now = r.all(s)
                if k[:3] == 'set':
                    ex.prove(s, 'set/member', eq(now[i], vs[0]), 'the member is not what it was set to')
                    if k == 'setc':
                        ex.prove(s, 'set/argument', eq(get(ex, s, ps[0], r.types[i]), vs[0]), 'setting a copy changes the original')
                else:
                    ex.prove(s, 'get/member', ex.ptr_eq(as_ptr(v), r.field(i)), 'the member returned is another one')
                ex.prove(s, k[-3:] + '/others', band(*[eq(x, y) for j, (x, y) in enumerate(zip(before, now)) if j != i or k[:3] != 'set']), 'another member changes')
            t.run(t.fn('%s%d_%s' % (k, i, name)), st, args, post)
    return task


def text(ex, p):
    """the characters of a literal"""
    p = as_ptr(p)
    if isc(p.base) and p.base in ex.base_global and isc(p.off):
        mod, name = ex.base_global[p.base]
        gi = mod.global_init(name)
        if gi and gi[1] and gi[1][0] == 'str':
            b = gi[1][1][p.off:]
            b = b if isinstance(b, bytes) else bytes(b)
            return b.split(b'\0')[0].decode()
    return None


def t_json(name, parse):
    def task(t):
        st = setup(t)
        ex = t.ex
        r = Rec(t, st, name, 'record')
        j, sp = t.obj(st, 'json'), t.obj(st, 'text')
        before = r.all(st)
        n = len(r.types)
        has, new = [z3.Bool('has!%d' % i) for i in range(n)], [ex.fresh_int(st, 'given%d' % i, 0, (1 << 32) - 1) for i in range(n)]

        def which(ex, st, c, a):
            ex.prove(st, 'json/source', ex.ptr_eq(as_ptr(a[0]), j), 'members are looked up in something else')
            s = text(ex, a[1])
            if s is None or not re.match(r'^f\d+$', s) or int(s[1:]) >= n:
                ex.fail(st, 'json/name', 'a name that no member has is looked up: %r' % s)
                return None
            return int(s[1:])

        def c_has(ex, st, c):
            i = which(ex, st, c, c.args)
            return ex.fresh_bool(st, 'any') if i is None else has[i]

        def c_get(ex, st, c):
            a = c.args
            i = which(ex, st, c, a[-2:])
            v = new[i] if i is not None else ex.fresh_int(st, 'any', 0, (1 << 32) - 1)
            if i is not None:
                ex.prove(st, 'json/only-if-present', has[i], 'a member is read from JSON that does not have it')
            if c.sret:
                set_val(ex, st, a[0], v)
                return None
            return v

        def c_parse(ex, st, c):
            ex.prove(st, 'json/text', ex.ptr_eq(as_ptr(c.args[0]), sp), 'another text is parsed')
            return j
        K = 'maf::srz::JsonTrait::'
        ex.contracts.update({K + 'has': c_has, K + 'get': c_get, K + 'parse': c_parse})

        def post(s, v):
            for i, (x, y) in enumerate(zip(before, r.all(s))):
                ex.prove(s, 'json/member-%d' % i, eq(y, ite(has[i], new[i], x)), 'a member does not get the value its name has in the JSON, or is changed although it has none')
        t.run(t.fn(('jstr_' if parse else 'json_') + name), st, [r.p, sp if parse else j], post)
    return task


def t_copy(name):
    def task(t):
        ex = t.ex
        for k in ('copy', 'move', 'asg'):
            st = setup(t)
            r, o = Rec(t, st, name, 'record'), Rec(t, st, name, 'other')
            want = o.all(st)

            def post(s, v):
                ex.prove(s, k + '/members', band(*[eq(x, y) for x, y in zip(want, r.all(s))]), 'a copy differs from what was copied')
            t.run(t.fn('%s_%s' % (k, name)), st, [r.p, o.p], post)
    return task


def t_ids(t):
    ex = t.ex
    got = {}
    for name, ns in IDS:
        for n in ns:
            st = setup(t)

            def post(s, v):
                got.setdefault(n, set()).add(text(ex, v if not isinstance(v, (list, tuple)) else v[-1]))
            t.run(t.fn('id%d' % n), st, [], post)
    st = setup(t)
    for name, ns in IDS:
        mine = set.union(*[got.get(n, {None}) for n in ns])
        ex.prove(st, 'ids/%s/one' % name, len(mine) == 1 and None not in mine, 'the parameters of one operation have several operation identifiers: %r' % sorted(map(str, mine)))
        ex.prove(st, 'ids/%s/its-own' % name, all(not (mine & set.union(*[got.get(n, {None}) for n in m])) for x, m in IDS if x != name), 'two operations have the same identifier')


def t_diff(t):
    st = setup(t)
    ex = t.ex
    a, b = t.obj(st, 'a'), t.obj(st, 'b')
    at = [8, 4, 0]
    want = 0
    for i, o in enumerate(at):
        want = add(want, ite(eq(val(ex, st, a.at(o)), val(ex, st, b.at(o))), 0, 1 << i))

    def post(s, v):
        ex.prove(s, 'difference', eq(ex.as_int(v), want), 'a bit of the difference is set for equal members or clear for different ones')
    t.run(t.fn('diff_TD'), st, [a, b], post)


TASKS = []
for _r, _ts in RECS.items():
    _n = len(_ts)
    for _k in (range(_n + 1) if _n <= 4 else (_n - 1, _n)):
        TASKS += [('%s: construct from %d' % (_r, _k), t_make(_r, _k, 'new')), ('%s: set all from %d' % (_r, _k), t_make(_r, _k, 'all'))]
    TASKS.append(('%s: compare' % _r, t_compare(_r, ('eq', 'ne', 'lt'))))
    TASKS.append(('%s: tuple' % _r, t_view(_r, ('tie', 'ctie'))))
    TASKS.append(('%s: members' % _r, t_access(_r)))
    if _n <= 8:
        TASKS.append(('%s: json' % _r, t_json(_r, False)))
    if _n <= 4:
        TASKS += [('%s: json text' % _r, t_json(_r, True)), ('%s: copy' % _r, t_copy(_r))]
TASKS += [('%s: make' % r, t_make(r, len(CS[r]), 'make')) for r in CS]
TASKS.append(('operation identifiers', t_ids))
TASKS += [('%s: view' % r, t_view(r, ('view', 'cview', 'flat') + (('each',) if n in (1, 2, 3, 4, 5, 9, 16, 24) else ()))) for n, r in enumerate(AGGS, 1) if r != 'AC']
TASKS += [('A%d: compare' % n, t_compare('A%d' % n, tuple(OPS), True)) for n in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24)]
TASKS += [('made comparable: compare', t_compare('AC', tuple(OPS), True)), ('nested: compare', t_compare('AN', tuple(OPS), True)), ('difference', t_diff)]
TASKS += [('%s: view' % r, t_view(r, ('view', 'flat'))) for r in WIDE_A]
for _r, _ts in WIDE_R.items():
    TASKS += [('%s: tuple' % _r, t_view(_r, ('ctie',))), ('%s: construct from %d' % (_r, len(_ts)), t_make(_r, len(_ts), 'new'))]

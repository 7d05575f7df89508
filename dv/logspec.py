"""Contracts of the logging functions: G01.

Every lemma of tu/logging.cpp starts from an arbitrary reachable state (any enabled levels, any two sinks) made by the functions
themselves, runs one call and looks at the outcome with arbitrary arguments; so the effect of each function on what can be observed
is decided for every history.  In the lemmas with other threads, the enabled levels take any value at every atomic access."""
from spec import *
import stl
from stl import set_str, get_str, cstr_value, str_id
from term import *

TUS = ['src/common/maf/logging/Logger.cpp', '@logging.cpp']
L = 'maf::logging::'
INFO, WARN, ERROR, FATAL, DEBUG, VERBOSE = 1, 2, 4, 8, 16, 32
LEVEL = dict(debug=DEBUG, info=INFO, warn=WARN, error=ERROR, fatal=FATAL, verbose=VERBOSE)


class Bits:
    """machine words as lists of bits, so that bitwise operations are exact"""

    def __init__(self, ex):
        self.ex, self.of, self.keep = ex, {}, []
        bop, cast = ex.binop, ex.cast

        def binop(st, op, ty, a, b, flags):
            if op in ('and', 'or', 'xor') and isinstance(ty, tuple) and ty[0] == 'i' and ty[1] > 1:
                x, y = self.bits(a, ty[1], st), self.bits(b, ty[1], st)
                if x is not None and y is not None:
                    f = dict(zip(('and', 'or', 'xor'), (lambda p, q: band(p, q), lambda p, q: bor(p, q), lambda p, q: bor(band(p, bnot(q)), band(bnot(p), q)))))[op]
                    return self.word([f(p, q) for p, q in zip(x, y)])
            return bop(st, op, ty, a, b, flags)

        def cast_(op, ft, v, tt):
            if op == 'trunc' and tt[1] > 1:
                x = self.of.get(v.get_id()) if isinstance(v, z3.ExprRef) else None
                if x is not None:
                    return self.word(x[:tt[1]])
            return cast(op, ft, v, tt)
        icmp = ex.icmp

        def icmp_(st, pred, ty, a, b):
            if pred in ('eq', 'ne') and isinstance(ty, tuple) and ty[0] == 'i' and 1 < ty[1] <= 32:
                x, y = self.bits(a, ty[1], st), self.bits(b, ty[1], st)
                if x is not None and y is not None and not (isc(a) and isc(b)):
                    r = band(*[bor(band(p, q), band(bnot(p), bnot(q))) for p, q in zip(x, y)])
                    return r if pred == 'eq' else bnot(r)
            return icmp(st, pred, ty, a, b)
        ex.binop, ex.cast, ex.icmp = binop, cast_, icmp_

    def bits(self, v, w, st=None):
        if isinstance(v, bool):
            v = int(v)
        if isc(v):
            return [bool(v >> j & 1) for j in range(w)]
        x = self.of.get(v.get_id()) if isinstance(v, z3.ExprRef) else None
        if x is None and st is not None and isinstance(v, z3.ExprRef) and z3.is_int(v) and (rng(v)[1] or 1 << 40) < 256 and rng(v)[0] == 0:
            # a number whose bits are not known: name them
            t = self.fresh('word')
            self.ex.assume(st, v == t)
            x = self.of[v.get_id()] = self.of[t.get_id()]
            self.keep.append(v)
        return None if x is None else (x + [False] * w)[:w]

    def word(self, bits):
        c = sum(1 << j for j, b in enumerate(bits) if b is True)
        rest = [(j, b) for j, b in enumerate(bits) if b is not True and b is not False]
        if not rest:
            return c
        t = z3.Sum([z3.IntVal(c)] + [z3.If(b, z3.IntVal(1 << j), z3.IntVal(0)) for j, b in rest])
        setrange(t, 0, (1 << len(bits)) - 1)
        self.of[t.get_id()] = list(bits)
        self.keep.append(t)
        return t

    def fresh(self, name, n=8):
        self.n = getattr(self, 'n', 0) + 1
        return self.word([z3.Bool('%s%d!%d' % (name, self.n, j)) for j in range(n)])


class Log:
    def __init__(self, t):
        self.t, self.ex = t, t.ex
        ex, S = self.ex, self
        install_opaque(ex)
        self.b = Bits(ex)
        self.st = t.state()
        gset(self.st, 'calls', ()), gset(self.st, 'on', 0), gset(self.st, 'prev', 0)
        C = ex.contracts
        # here the logging functions are the code under proof, not a dependency without effect
        ex.model_res = [(rx, h) for rx, h in ex.model_res if h is not stl.logging_]

        C[L + 'constexprPastLastSlash'] = lambda ex, st, c: c.args[0]      # the name of the file in a message: any part of it

        def guard(ex, st, c):
            # the first use of the state of the library
            n = gget(st, 'guards', 0)
            gset(st, 'guards', n + 1)
            return 1 if n == 0 else 0
        C['__cxa_guard_acquire'] = guard
        C['__cxa_guard_release'] = lambda ex, st, c: None

        def sink(ex, st, c):
            i = ex.read_int(st, c.args[0], 4)
            ex.prove(st, 'logging/known-sink', isc(i), 'a function is called that no one gave')
            gset(st, 'calls', gget(st, 'calls') + ((i, get_str(ex, st, c.args[1])),))
            return None
        C['Sink::operator()'] = sink
        C['others'] = lambda ex, st, c: gset(st, 'on', 1 if ex.entails(st, ex.to_bool(c.args[0])) else 0)
        C['before_change'] = lambda ex, st, c: gget(st, 'prev')

        def atom(ex, st, kind, p, ty, v, mod):
            if isc(p.base) and p.base in ex.base_global and ex.base_global[p.base][1].startswith('_ZGV'):
                return 1 if gget(st, 'guards', 0) else 0
            if gget(st, 'on'):
                if ty[1] != 8:
                    raise Unsupported('atomic access of %s while the levels change' % (ty,))
                n = ex.fresh_int(st, 'levels', 0, 255)       # (the same when the instruction is run again after a fork)
                w = S.b.word([z3.Bool('%s!%d' % (n, j)) for j in range(8)])
                ex.write(st, p, 'm', 1, w)
                if kind != 'load':
                    gset(st, 'prev', w)
            return None
        ex.atomic_hook = atom
        self.streams()

    def run(self, f, args, post):
        """run f in a new process: what the file initialises when the program starts comes first"""
        ex, t = self.ex, self.t
        init = [m.funcs[k] for m in ex.mods for k in m.funcs if k.startswith('_GLOBAL__sub_I_Logger')]
        if init:
            t.run(init[0], self.st, [], lambda s, r: t.run(f, s, args, post), cover='start of the program')
        else:
            t.run(f, self.st, args, post)

    def streams(self):
        """output streams as the chain of the pieces written to them"""
        ex, C = self.ex, self.ex.contracts

        def make(ex, st, c):
            gset(st, ('text', ex.as_int(c.args[0])), ())
            return None

        def put(ex, st, p, piece):
            k = ('text', ex.as_int(p))
            cur = gget(st, k)
            if cur is None:
                ex.fail(st, 'logging/own-stream', 'a piece is written to another stream')
                raise PathEnd()
            gset(st, k, cur + (piece,))
            return p

        def text(ex, st, c):
            k = gget(st, ('text', ex.as_int(c.args[1])))
            tok = ex.fresh_int(st, 'text', 0, (1 << 48) - 1)
            gset(st, ('pieces', tok.get_id() if isinstance(tok, z3.ExprRef) else tok), k)
            self.b.keep.append(tok)
            set_str(ex, st, c.args[0], tok)
            return None

        def op(ex, st, c):
            d = c.dem
            tail = d[d.rindex('operator<<'):]
            p, x = c.args[0], c.args[1]
            if 'char const*' in tail:
                return put(ex, st, p, ('lit', cstr_value(ex, st, x)))
            if 'basic_string' in tail.split('>(')[-1] or 'std::string' in tail:
                return put(ex, st, p, ('str', get_str(ex, st, x)))
            if 'Opaque' in tail:
                return put(ex, st, p, ('obj', x))
            return put(ex, st, p, ('num', x))
        for k in ('std::operator<<', 'std::basic_ostream::operator<<', 'std::ostream::operator<<', 'operator<<'):
            C[k] = op
        for a in ('std::basic_ostringstream', 'std::ostringstream'):
            m = 'basic_ostringstream' if 'basic' in a else 'ostringstream'
            C[a + '::basic_ostringstream'] = C[a + '::ostringstream'] = make
            C[a + '::~basic_ostringstream'] = C[a + '::~ostringstream'] = lambda ex, st, c: None
            C[a + '::str'] = text


def lemma(name, what, n):
    def task(t):
        S = Log(t)
        ex = S.ex
        f = t.fn(name)
        S.run(f, [S.b.fresh('arg') for _ in range(n)], lambda s, r: ex.prove(s, 'levels/' + name[3:].replace('_', '-'), ex.to_bool(r), what))
    return task


def sinks(name, n, want):
    """want(is ordinary) -> the sink a text goes to, or None"""
    def task(t):
        S = Log(t)
        ex = S.ex
        f = t.fn(name)
        st = S.st
        a = [S.b.fresh('arg') for _ in range(n)]
        lv = a[-1]
        s0 = t.obj(st, 'text')
        tok = get_str(ex, st, s0)
        t.need('ordinary', 'error')

        def post(s, r):
            calls = gget(s, 'calls')
            plain = bor(*[eq(lv, x) for x in (INFO, DEBUG, VERBOSE)])
            for kind, cond in (('ordinary', plain), ('error', bnot(plain))):
                if not ex.feasible(s, cond):
                    continue
                ex.mark(kind)
                w = want(kind == 'ordinary')
                ok = len(calls) == (0 if w is None else 1) and all(isc(i) and i == w for i, _ in calls)
                ex.prove(s, 'text/goes-to-its-sink', bor(bnot(cond), ok), 'an %s text goes to %s, not once to %s' % (kind, [i for i, _ in calls], w))
                for _, x in calls:
                    ex.prove(s, 'text/unchanged', eq(x, tok), 'another text is written')
        S.run(f, a + [s0], post)
    return task


def message(name, level, pieces, suffix=False):
    """level: the level, or None if it is an argument"""
    def task(t):
        S = Log(t)
        ex, st = S.ex, S.st
        f = t.fn(name)
        a = S.b.fresh('levels')
        args = [a]
        if level is None:
            lv = S.b.fresh('level')
            args.append(lv)
        else:
            lv = level
        s0 = t.obj(st, 'text')
        args.append(s0)
        want = [('str', get_str(ex, st, s0))]
        if pieces > 1:
            y = ex.fresh_int(st, 'number', 0, (1 << 32) - 1)
            z = t.obj(st, 'object')
            args += [y, z]
            want += [('num', y), ('obj', z), ('lit', str_id(b'tail'))]
        t.need('written', 'not written')
        on = bor(*[band(p, q) for p, q in zip(S.b.bits(a, 8), S.b.bits(lv, 8))])
        plain = bor(*[eq(lv, x) for x in (INFO, DEBUG, VERBOSE)])

        def same(p, q):
            if p[0] != q[0]:
                return False
            if p[0] == 'obj':
                return ex.ptr_eq(p[1], q[1])
            return eq(p[1], q[1])

        def post(s, r):
            calls = gget(s, 'calls')
            ex.mark('written' if calls else 'not written')
            ex.prove(s, 'message/written-when-enabled', bnot(on) if not calls else on, 'a message is written although its level is disabled' if calls else 'a message is not written although its level is enabled')
            ex.prove(s, 'message/written-once', len(calls) < 2, 'a message is written twice')
            for i, x in calls[:1]:
                ex.prove(s, 'message/goes-to-its-sink', eq(ite(plain, 1, 2), i), 'the message goes to the wrong sink')
                got = gget(s, ('pieces', x.get_id() if isinstance(x, z3.ExprRef) else x))
                if got is None:
                    ex.fail(s, 'message/whole', 'another text is written')
                    continue
                if level is None:
                    rest = list(got)
                else:
                    rest = list(got)[1:]
                    head = next((b for b, i in stl._strs.items() if got and got[0][0] == 'lit' and isc(got[0][1]) and i == got[0][1]), None)
                    word = [k for k, v in LEVEL.items() if v == level][0].upper().encode()
                    ex.prove(s, 'message/tells-its-level', head is not None and head.strip().startswith(word), 'the message does not begin with its level')
                ex.prove(s, 'message/whole', len(rest) >= len(want) and band(*[same(p, q) for p, q in zip(rest, want)]), 'the message is not the given pieces in their order')
                if not suffix:
                    ex.prove(s, 'message/nothing-else', len(rest) == len(want), 'something else is written in the message')
        S.run(f, args, post)
    return task


TASKS = [(n, lemma('lg_' + n, w, k)) for n, w, k in (
    ('fresh', 'levels are enabled before anything was enabled', 1), ('init', 'initialising does not enable just the given levels', 2),
    ('init_default', 'initialising with no levels leaves some enabled', 2), ('change', 'changing the levels does not enable just the given ones', 3),
    ('change_default', 'changing to no levels leaves some enabled', 2), ('stop', 'a level is enabled after logging was stopped', 2),
    ('enable', 'enabling a level changes another, or does not enable it', 3), ('disable', 'disabling a level changes another, or does not disable it', 3),
    ('enable_others', 'enabling a level undoes what another thread did meanwhile', 3), ('disable_others', 'disabling a level undoes what another thread did meanwhile', 3),
    ('change_others', 'changing the levels leaves others enabled', 3),
    ('names', 'a query of one level answers for another', 1), ('levels', 'two levels are the same, or a group lacks one', 0))]
TASKS += [(n, sinks('lg_' + n, k, w)) for n, k, w in (
    ('write', 2, lambda o: 1 if o else 2), ('write_fresh', 1, lambda o: None), ('write_onesink', 2, lambda o: 1),
    ('write_again', 3, lambda o: 3 if o else 4), ('write_again_out', 3, lambda o: 3), ('write_again_err', 3, lambda o: 1 if o else 4), ('write_again_none', 3, lambda o: 1))]
for k, v in LEVEL.items():
    TASKS += [('%s' % k, message('lg_' + k, v, 4)), ('%s(one piece)' % k, message('lg_%s_one' % k, v, 1)),
              ('macro %s' % k, message('lg_macro_' + k, v, 4, True)), ('macro %s(one piece)' % k, message('lg_macro_%s_one' % k, v, 1, True))]
TASKS.append(('log', message('lg_log', None, 4)))

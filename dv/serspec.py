"""Contracts of the serializer: ghost token streams, opaque element types (parametricity)"""
from spec import *

TYPES = ('Opaque', 'OpaqueB', 'OpaqueC')
ALTS = TYPES + tuple('Alt%d' % i for i in range(3, 20))
TUS = ['@serial.cpp']
NUM = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
       'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8, 'En': 2}
LIM = 1 << 32


def short(d):
    return d.replace('std::__cxx11::', 'std::')


def seq_val(ex, st, S, i, f=val):
    """value of element i (conditionals pushed to the outside)"""
    if isinstance(S, stl.SeqIns):
        e = eq(i, S.p)
        v = f(ex, st, Ptr(S.base, 0))
        if e is True:
            return v
        lo = seq_val(ex, st, S.par, i, f)
        if eq(S.p, S.par.n) is True or loops.same_val(simp(S.p), simp(S.par.n)):
            return ite(e, v, lo)
        return ite(e, v, ite(lt(i, S.p), lo, seq_val(ex, st, S.par, sub(i, 1), f)))
    if isinstance(S, stl.SeqCat):
        return ite(lt(i, S.a.n), seq_val(ex, st, S.a, i, f), seq_val(ex, st, S.b, sub(i, S.a.n), f))
    if isinstance(S, stl.SeqEmpty):
        return ex.fresh_int(st, 'none')
    return f(ex, st, Ptr(S.node(ex, st, i), 0))


def key_val(ex, st, S, k, f=val):
    """value of the element with key k of a keyed container"""
    if isinstance(S, stl.SeqIns):
        e = band(*[eq(a, b) for a, b in zip(k, S.key)])
        v = f(ex, st, Ptr(S.base, 0))
        return v if e is True else ite(e, v, key_val(ex, st, S.par, k, f))
    if isinstance(S, stl.SeqEmpty):
        return ex.fresh_int(st, 'none')
    return f(ex, st, Ptr(S.node(ex, st, S.pos(ex, st, k)), 0))


def elem_type(c):
    """which opaque type a _serialize/_deserialize/… call is about"""
    m = re.findall(r'\b(Opaque[BC]?|Alt\d+)\b', c.dem)
    return m[-1]


def match(e, kind, size, v):
    if e[0] != kind:
        return False
    if isinstance(v, tuple):
        return band(*[eq(a, b) for a, b in zip(e[2], v)])
    return band(eq(e[1], size) if e[1] is not None else True, eq(e[2], v))


def tot(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


class Ser:
    def __init__(self, t, ty, what):
        self.t, self.ex, self.what = t, t.ex, what
        ex = t.ex
        types = ALTS if 'Alt3' in ty else TYPES
        install_opaque(ex, types)
        for T_ in types:
            ex.gfld.setdefault('opaque', set()).add(T_)
        self.f = t.fn('maf::srz::' + what, lambda d: short(d).split('(')[0].split(' ', 1)[1].endswith(
            '%s<%s, %s>' % (what, 'GOS' if what == 'serialize' else 'GIS', ty)) if what != 'serializedSize' else
            short(d).split('(')[0].split(' ', 1)[1].endswith('serializedSize<%s>' % ty))
        self.st = t.state()
        self.ty = ty
        st = self.st
        for k, v in dict(nout=0, nin=0, failed=False, bytes=0).items():
            st.ghost[k] = v
        ex.contracts['_serialize'] = self.c_ser
        ex.contracts['_deserialize'] = self.c_deser
        ex.contracts['_serializedSize'] = self.c_size
        ex.contracts['maf::srz::serializedSize'] = self.c_pair_size
        ex.contracts['maf::srz::serialize'] = self.c_pair_ser
        ex.contracts['maf::srz::deserialize'] = self.c_pair_deser
        ex.contracts['GOS::write'] = self.c_write
        ex.contracts['GIS::read'] = self.c_read
        ex.contracts['GIS::fail'] = lambda ex, st, c: gget(st, 'failed')
        ex.contracts['std::basic_string::resize'] = self.c_resize
        ex.contracts['std::basic_string::operator[]'] = self.c_strbuf
        ex.contracts['std::basic_string::data'] = self.c_strbuf

    # ---- output side: the k-th token written must be exp(k)
    def emit(self, ex, st, kind, size, v, note):
        k = gget(st, 'nout')
        gset(st, 'nout', add(k, 1))
        e = self.exp(ex, st, k)
        if isinstance(e, list):        # alternatives guarded by conditions
            for cond, e2 in e:
                c = cond
                if e2 is None:
                    ex.prove(st, 'encodes/nothing-extra', bnot(c), 'writes more than the encoding of the value')
                    continue
                ex.prove(st, 'encodes/' + ('value-in-order' if e2[0] != 'raw' else 'length-and-bytes'),
                         implies(c, match(e2, kind, size, v)), note)
            return
        if e is None:
            ex.fail(st, 'encodes/nothing-extra', 'writes more than the encoding of the value')
            return
        ex.prove(st, 'encodes/' + ('value-in-order' if e[0] != 'raw' else 'length-and-bytes'),
                 match(e, kind, size, v), note)

    def c_ser(self, ex, st, c):
        p = c.args[1]
        T_ = elem_type(c)
        ex.deref_check(st, p, 'element serialized')
        self.emit(ex, st, T_, None, val(ex, st, p), 'element written is not the next element of the value')
        return None

    def c_pair_ser(self, ex, st, c):
        """elements of a map: contract of the pair serializer (tasks map-element.encode, pair.decode)"""
        off = getattr(self, 'pairoff', None)
        if off is None or not re.search(r'serialize<GOS, std::pair<', short(c.dem)):
            return '$body'
        p = c.args[1]
        ex.deref_check(st, p, 'element serialized')
        self.emit(ex, st, 'pair', None, (val(ex, st, p), val(ex, st, p.at(off))), 'element written is not the next element of the value')
        return None

    def c_pair_deser(self, ex, st, c):
        off = getattr(self, 'pairoff', None)
        if off is None or not re.search(r'deserialize<GIS, std::pair<', short(c.dem)):
            return '$body'
        p = c.args[1]
        bad = self.failing(ex, st)
        e = None if bad else self.take(ex, st, 'pair', None, '')
        for i, o in enumerate((0, off)):
            set_val(ex, st, p.at(o), ex.fresh_int(st, 'partial', 0, (1 << 48) - 1) if e is None else e[2][i])
        if e is None:
            if not bad:
                gset(st, 'over', 1)
            gset(st, 'failed', True)
            return False
        return True

    def c_write(self, ex, st, c):
        p, n = c.args[1], ex.as_int(c.args[2])
        cs = ex.read(st, p, 'cstr', 0, lambda s, b, o, e: None) if isc(p.off) else None
        if cs is not None:
            self.emit(ex, st, 'raw', n, cs, 'bytes written are not the string')
            return None
        if not isc(n) or n not in (1, 2, 4, 8):
            ex.fail(st, 'encodes/length-and-bytes', 'unexpected raw write')
            return None
        v = ex.read(st, p, 'm', n, lambda a, b, o, e: ex.init_int(a, b, o, e, n))
        self.emit(ex, st, 'raw', n, self.asint(ex, st, v), 'bytes written are not the value')
        return None

    def asint(self, ex, st, v):
        if isinstance(v, (bool,)) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
            return ite(v, 1, 0)
        return v

    # ---- input side: the k-th token available is exp(k); any read may find the stream exhausted
    def failing(self, ex, st):
        f = ex.fresh_bool(st, 'short')
        nf = bor(gget(st, 'failed'), f)
        bad = ex.decide(st, nf)
        gset(st, 'failed', bad)
        return bad

    def take(self, ex, st, kind, size, note):
        k = gget(st, 'nin')
        e = self.exp(ex, st, k)
        if isinstance(e, list):
            for cond, e2 in e:
                if ex.decide(st, cond):
                    e = e2
                    break
            else:
                e = None
        if e is None:
            return None
        if e[0] != kind or (e[1] is not None and size is not None and not ex.decide(st, eq(e[1], size))):
            ex.fail(st, 'decodes/matches-encoding', 'reads %s where the encoding has %s' % (kind, e[0]))
            raise PathEnd()
        gset(st, 'nin', add(k, 1))
        return e

    def c_deser(self, ex, st, c):
        p = c.args[1]
        T_ = elem_type(c)
        ex.deref_check(st, p, 'element deserialized')
        if self.failing(ex, st):
            set_val(ex, st, p, ex.fresh_int(st, 'partial', 0, (1 << 48) - 1))
            return False
        e = self.take(ex, st, T_, None, '')
        if e is None:
            # nothing left: the stream fails
            gset(st, 'failed', True)
            gset(st, 'over', 1)
            return False
        set_val(ex, st, p, e[2])
        return True

    def c_read(self, ex, st, c):
        p, n = c.args[1], ex.as_int(c.args[2])
        if self.failing(ex, st):
            return None
        sb = None
        for (b, s) in gget(st, 'sbuf', ()):
            if ex.entails(st, eq(b, p.base)):
                sb = s
        e = self.take(ex, st, 'raw', n, '')
        if e is None:
            gset(st, 'failed', True)
            gset(st, 'over', 1)
            return None
        if sb is not None:
            cur = stl.get_str(ex, st, sb)
            nb = mul(stl.slen(ex, st, cur), getattr(self, 'cw', 1))
            ex.prove(st, 'memory-safety/string-buffer', band(eq(p.off, 0), le(n, nb)), 'reads past the string')
            ex.prove(st, 'decodes/whole-string', eq(n, nb), 'string length differs from the bytes read')
            stl.set_str(ex, st, sb, e[2])
            return None
        ex.deref_check(st, p, 'read target')
        if not isc(n):
            ex.fail(st, 'decodes/matches-encoding', 'read of a variable size into a fixed object')
            raise PathEnd()
        ex.write(st, p, 'm', n, e[2])
        return None

    def c_resize(self, ex, st, c):
        n = ex.as_int(c.args[1])
        t = ex.fresh_int(st, 'resized', 0, (1 << 48) - 1)
        cur = stl.get_str(ex, st, c.args[0])
        ex.assume(st, eq(stl.slen(ex, st, t), n))
        stl.set_str(ex, st, c.args[0], t)
        return None

    def c_strbuf(self, ex, st, c):
        b = ex.fresh_base(st)
        if len(c.args) > 1:
            i = ex.as_int(c.args[1])
            ex.prove(st, 'memory-safety/string-index', le(i, stl.slen(ex, st, stl.get_str(ex, st, c.args[0]))))
            ex.prove(st, 'decodes/matches-encoding', eq(i, 0))
        gset(st, 'sbuf', gget(st, 'sbuf', ()) + ((b, c.args[0]),))
        return Ptr(b, 0)

    # ---- tasks
    def serialize(self, v, exp, ntok):
        """exp(ex, st, k): k-th token of enc(value); ntok(ex, st): number of tokens"""
        self.exp = exp
        st = self.st
        os_ = self.t.obj(st, 'os')

        ex = self.ex

        def post(s, r):
            ex.prove(s, 'encodes/complete', eq(gget(s, 'nout'), ntok(ex, s)), 'writes less than the encoding of the value')
        self.t.run(self.f, st, [os_, v], post)

    def size(self, v, exp, ntok):
        """announced size == bytes the encoder writes: the encoding's own bytes plus the announced sizes of its parts,
        each part asked for exactly once (sizes below 4 GiB, the width of the announced size)"""
        st, ex = self.st, self.ex
        fixed_, parts, n = self.split(exp, ntok)
        self.exp = parts
        st.ghost['bytes'] = 0
        ex.loop_hooks.append(lambda ex, entry, head, rec, fi, norm: [('announced-size-fits', lambda st: lt(add(gget(st, 'bytes'), 16), LIM))])

        def post(s, r):
            ex.prove(s, 'size/every-part', eq(gget(s, 'nout'), n(ex, s)), 'not every part is accounted for')
            ex.prove(s, 'size/total', eq(ex.as_int(r), (add(gget(s, 'bytes'), fixed_(ex, s)))), 'the announced size is not the number of bytes written')
        self.t.run(self.f, st, [v], post)

    def split(self, exp, ntok):
        """the encodings here start with at most two raw tokens; the remaining ones are parts"""
        ex = self.ex
        st = self.st
        raws = []
        for k in (0, 1):
            for c, e in self.alts(ex, st, exp, k):
                if e is not None and e[0] == 'raw':
                    raws.append((k, c, e[1]))
        nraw = lambda ex, st: tot(ite(c, 1, 0) for k, c, sz in raws)
        fixed_ = lambda ex, st: tot(ite(c, sz, 0) for k, c, sz in raws)
        parts = lambda ex, st, k: exp(ex, st, add(k, nraw(ex, st)))
        return fixed_, parts, lambda ex, st: sub(ntok(ex, st), nraw(ex, st))

    def alts(self, ex, st, exp, k):
        e = exp(ex, st, k)
        if e is None:
            return []
        return e if isinstance(e, list) else [(True, e)]

    def part(self, ex, st, kind, v, name):
        k = gget(st, 'nout')
        gset(st, 'nout', add(k, 1))
        ok = [band(c, match(e, kind, None, v)) for c, e in self.alts(ex, st, self.exp, k) if e is not None]
        ex.prove(st, 'size/next-part', bor(*ok) if ok else False, 'the size of something that is not the next part is added')
        vs = v if isinstance(v, tuple) else (v,)
        z = uf('size:' + name, len(vs))(*[z3.IntVal(x) if isc(x) else x for x in vs])
        setrange(z, 0, LIM - 1)
        ex.assume(st, band(z >= 0, lt(add(add(z, gget(st, 'bytes')), 16), LIM)))
        gset(st, 'bytes', add(gget(st, 'bytes'), z))
        return z

    def c_size(self, ex, st, c):
        p = c.args[0]
        T_ = elem_type(c)
        ex.deref_check(st, p, 'element measured')
        return self.part(ex, st, T_, val(ex, st, p), T_)

    def c_pair_size(self, ex, st, c):
        off = getattr(self, 'pairoff', None)
        if off is None or not re.search(r'serializedSize<std::pair<', short(c.dem)):
            return '$body'
        p = c.args[0]
        return self.part(ex, st, 'pair', (val(ex, st, p), val(ex, st, p.at(off))), 'pair')

    def enc(self, v, exp, ntok):
        (self.size if self.what == 'serializedSize' else self.serialize)(v, exp, ntok)

    def deserialize(self, v, exp, ntok, check, reject=None):
        self.exp = exp
        st = self.st
        is_ = self.t.obj(st, 'is')
        st.ghost['failed'] = self.ex.fresh_bool(st, 'failed0')

        ex = self.ex

        def post(s, r):
            r = ex.to_bool(r)
            bad = gget(s, 'failed')
            ex.prove(s, 'decodes/reports-failure', implies(bad, bnot(r)), 'reports success although the input was truncated')
            ex.prove(s, 'decodes/accepts-encoding', implies(bnot(bad), r), 'rejects a complete encoding')
            if not ex.decide(s, r):
                ex.mark('rejects')
                if reject:
                    reject(ex, s)
                return
            ex.mark('accepts')
            ex.prove(s, 'decodes/consumes-exactly', eq(gget(s, 'nin'), ntok(ex, s)), 'does not consume exactly its own encoding')
            check(ex, s)
        self.t.run(self.f, st, [is_, v], post)
        self.t.need('accepts', 'rejects')


def fixed(toks):
    def exp(ex, st, k):
        if isc(k):
            return toks[k] if k < len(toks) else None
        return [(eq(k, i), x) for i, x in enumerate(toks)] + [(le(len(toks), k), None)]
    return exp, (lambda ex, st: len(toks))


def t_num(ty, what):
    def task(t):
        s = Ser(t, ty, what)
        st, ex = s.st, t.ex
        n = NUM[ty]
        p = t.obj(st, 'value')
        rd = lambda st: s.asint(ex, st, ex.read(st, p, 'm', n, lambda a, b, o, e: ex.init_int(a, b, o, e, n)))
        if what != 'deserialize':
            x = rd(st)
            s.enc(p, *fixed([('raw', n, x)]))
        else:
            x = ex.fresh_int(st, 'x', 0, (1 << (8 * n)) - 1)
            s.deserialize(p, *fixed([('raw', n, x)]), check=lambda ex, st: ex.prove(st, 'decodes/value', eq(rd(st), x), 'decoded value differs'))
    return task


def t_str(what, ch='char', w=1, ty=None):
    def task(t):
        s = Ser(t, ty or 'std::basic_string<%s, std::char_traits<%s>, std::allocator<%s>>' % (ch, ch, ch), what)
        s.cw = w
        st, ex = s.st, t.ex
        p = t.obj(st, 'value')
        if what != 'deserialize':
            x = stl.get_str(ex, st, p)
        else:
            x = ex.fresh_int(st, 'x', 0, (1 << 48) - 1)
        n = stl.slen(ex, st, x)
        ex.assume(st, lt(n, (LIM - 4 if what == 'serializedSize' else LIM) // w))
        nz = bnot(eq(x, 0))
        nb = mul(n, w)
        raise_ = (lambda ex, st, k: [(eq(k, 0), ('raw', 4, n)), (band(eq(k, 1), nz), ('raw', nb, x)), (bor(lt(1, k), band(eq(k, 1), bnot(nz))), None)],
                  lambda ex, st: ite(nz, 2, 1))
        if what != 'deserialize':
            s.enc(p, *raise_)
        else:
            s.deserialize(p, *raise_, check=lambda ex, st: ex.prove(st, 'decodes/value', eq(stl.get_str(ex, st, p), x), 'decoded string differs'))
    return task


def case(name, ty, build):
    return [(name + '.encode', lambda t: build(t, ty, 'serialize')), (name + '.decode', lambda t: build(t, ty, 'deserialize'))] + (
        [] if name == 'variant' else [(name + '.size', lambda t: build(t, ty, 'serializedSize'))])


def members(offs_types):
    """fixed-layout composite: members are opaque values at known offsets"""
    def build(t, ty, what):
        s = Ser(t, ty, what)
        st, ex = s.st, t.ex
        p = t.obj(st, 'value')
        offs = offs_types(t)
        if what != 'deserialize':
            s.enc(p, *fixed([(T_, None, val(ex, st, p.at(o))) for o, T_ in offs]))
        else:
            xs = [ex.fresh_int(st, 'x', 0, (1 << 48) - 1) for _ in offs]

            def check(ex, st):
                for (o, T_), x in zip(offs, xs):
                    ex.prove(st, 'decodes/value', eq(val(ex, st, p.at(o)), x), 'decoded member differs')
            s.deserialize(p, *fixed([(T_, None, x) for (o, T_), x in zip(offs, xs)]), check=check)
    return build


def seq_build(t, ty, what):
    s = Ser(t, ty, what)
    st, ex = s.st, t.ex
    p = t.obj(st, 'value')
    if what != 'deserialize':
        S = stl.get_seq(ex, st, p)
        ex.assume(st, lt(S.n, LIM))

        def exp(ex, st, k):
            size = ('raw', 4, S.n)
            if isc(k):
                if k == 0:
                    return size
                return [(lt(k - 1, S.n), ('Opaque', None, val(ex, st, Ptr(S.node(ex, st, k - 1), 0)))), (le(S.n, k - 1), None)]
            return [(eq(k, 0), size), (band(lt(0, k), le(k, S.n)), ('Opaque', None, val(ex, st, Ptr(S.node(ex, st, sub(k, 1)), 0)))),
                    (lt(S.n, k), None)]
        s.enc(p, exp, lambda ex, st: add(S.n, 1))
    else:
        N = ex.fresh_int(st, 'N', 0, LIM - 1)
        K = ex.fresh_int(st, 'K', 0, LIM - 1)
        ex.assume(st, lt(K, N))
        exp = tok_exp(N)

        def inv(ex, entry, head, rec, fi, norm):
            def f(st):
                S = stl.get_seq(ex, st, p)
                return implies(lt(K, S.n), eq(seq_val(ex, st, S, K), tok(ex, st, K)))
            return [('prefix-decoded', f)]
        ex.loop_hooks.append(inv)

        def check(ex, st):
            S = stl.get_seq(ex, st, p)
            ex.prove(st, 'decodes/length', eq(S.n, N), 'decoded container has a different number of elements')
            ex.prove(st, 'decodes/value', eq(seq_val(ex, st, S, K), tok(ex, st, K)), 'some decoded element differs')
        # K is an arbitrary element; containers without elements are covered by the length obligation
        s.deserialize(p, exp, lambda ex, st: add(N, 1), check)


def keyed_build(t, ty, what, ismap):
    """set / map: same element order as iteration; decode checked on an arbitrary token and an arbitrary foreign key"""
    s = Ser(t, ty, what)
    st, ex = s.st, t.ex
    p = t.obj(st, 'value')
    kr = ex.gfld['keyreaders']['Opaque']
    if ismap:
        vo = t.off(r'std::pair<const Opaque, OpaqueB>', 'second')
        ex.gfld.setdefault('val_off', {})['Opaque|OpaqueB'] = vo
        s.pairoff = vo
    if what != 'deserialize':
        S = stl.get_seq(ex, st, p, kr)
        ex.assume(st, lt(S.n, LIM))

        def el(ex, st, k):
            nd = Ptr(S.node(ex, st, k), 0)
            if ismap:
                return ('pair', None, (val(ex, st, nd), val(ex, st, nd.at(vo))))
            return ('Opaque', None, val(ex, st, nd))

        def exp(ex, st, k):
            size = ('raw', 4, S.n)
            if isc(k):
                if k == 0:
                    return size
                return [(lt(k - 1, S.n), el(ex, st, k - 1)), (le(S.n, k - 1), None)]
            return [(eq(k, 0), size), (band(lt(0, k), le(k, S.n)), el(ex, st, sub(k, 1))), (lt(S.n, k), None)]
        s.enc(p, exp, lambda ex, st: add(S.n, 1))
        return
    N = ex.fresh_int(st, 'N', 0, LIM - 1)
    K = ex.fresh_int(st, 'K', 0, LIM - 1)
    ex.assume(st, lt(K, N))
    Q = ex.fresh_int(st, 'Q', 0, (1 << 48) - 1)     # a key that is not in the encoding

    def key_facts(ex, st, k):
        x = tok(ex, st, k)
        # the encoding of a set/map: keys pairwise distinct, Q is none of them
        zk = z3.IntVal(k) if isc(k) else k
        ex.assume(st, band(eq(uf('tokpos')(x), zk), bnot(eq(x, Q))))
        return x

    key_facts(ex, st, K)

    def el(ex, st, k):
        x = key_facts(ex, st, k)
        return ('pair', None, (x, tok(ex, st, k, 'tokv'))) if ismap else ('Opaque', None, x)

    def exp(ex, st, k):
        size = ('raw', 4, N)
        if isc(k):
            return size if k == 0 else [(lt(k - 1, N), el(ex, st, k - 1))]
        return [(eq(k, 0), size), (band(lt(0, k), le(k, N)), el(ex, st, sub(k, 1)))]

    def has(ex, st):
        S = stl.get_seq(ex, st, p, kr)
        x = tok(ex, st, K)
        c = S.contains(ex, st, (x,))
        if not ismap:
            return c
        return band(c, eq(key_val(ex, st, S, (x,), lambda ex, st, q: val(ex, st, q.at(vo))), tok(ex, st, K, 'tokv')))

    def inv(ex, entry, head, rec, fi, norm):
        return [('prefix-decoded', lambda st: implies(lt(add(K, 1), gget(st, 'nin')), has(ex, st))),
                ('later-keys-absent', lambda st: implies(le(gget(st, 'nin'), add(K, 1)), bnot(stl.get_seq(ex, st, p, kr).contains(ex, st, (tok(ex, st, K),))))),
                ('nothing-foreign', lambda st: bnot(stl.get_seq(ex, st, p, kr).contains(ex, st, (Q,))))]
    ex.loop_hooks.append(inv)

    def check(ex, st):
        ex.prove(st, 'decodes/value', has(ex, st), 'some encoded element is missing or differs')
        ex.prove(st, 'decodes/nothing-foreign', bnot(stl.get_seq(ex, st, p, kr).contains(ex, st, (Q,))), 'an element that was not encoded appears')
    s.deserialize(p, exp, lambda ex, st: add(N, 1), check)


def ptr_build(kind):
    def build(t, ty, what):
        s = Ser(t, ty, what)
        st, ex = s.st, t.ex
        p = t.obj(st, 'value')
        if what != 'deserialize':
            q = ex.read(st, p, 'm', 8, ex.init_ptr)
            null = ex.ptr_eq(q, Ptr(0, 0))
            x = val(ex, st, q)
            exp = lambda ex, st, k: [(band(eq(k, 0), null), ('raw', 1, 0)), (band(eq(k, 0), bnot(null)), ('raw', 1, 1)),
                                     (band(eq(k, 1), bnot(null)), ('Opaque', None, x)),
                                     (bor(lt(1, k), band(eq(k, 1), null)), None)]
            s.enc(p, exp, lambda ex, st: ite(null, 1, 2))
            return
        flag = ex.fresh_int(st, 'flag', 0, 1)
        x = ex.fresh_int(st, 'x', 0, (1 << 48) - 1)
        exp = lambda ex, st, k: [(eq(k, 0), ('raw', 1, flag)), (band(eq(k, 1), eq(flag, 1)), ('Opaque', None, x))]

        def check(ex, st):
            q = ex.read(st, p, 'm', 8, ex.init_ptr)
            null = ex.ptr_eq(q, Ptr(0, 0))
            ex.prove(st, 'decodes/value', eq(null, eq(flag, 0)), 'a null pointer is decoded as non-null or vice versa')
            if ex.decide(st, null):
                return
            ex.prove(st, 'decodes/value', eq(val(ex, st, q), x), 'the pointed-to value differs')

        def reject(ex, st):
            if kind == 'raw':
                ex.prove(st, 'decodes/no-dangling', ex.ptr_eq(ex.read(st, p, 'm', 8, ex.init_ptr), Ptr(0, 0)), 'a failed decoding leaves a pointer to a destroyed object')
        s.deserialize(p, exp, lambda ex, st: add(flag, 1), check, reject)
    return build


def variant_build(t, ty, what):
    s = Ser(t, ty, what)
    st, ex = s.st, t.ex
    p = t.obj(st, 'value')
    ixo = t.off(re.escape(ty), '_M_index')
    vw = ex.as_int
    rdix = lambda st: ex.as_int(ex.read(st, p.at(ixo), 'm', 1, lambda a, b, o, e: ex.init_int(a, b, o, e, 1)))
    if what != 'deserialize':
        ix = rdix(st)
        ex.assume(st, lt(ix, 3))
        x = val(ex, st, p)
        exp = lambda ex, st, k: [(eq(k, 0), ('raw', 4, ix))] + [(band(eq(k, 1), eq(ix, i)), (T_, None, x)) for i, T_ in enumerate(TYPES)] + [(lt(1, k), None)]
        s.enc(p, exp, lambda ex, st: 2)
        return
    ex.assume(st, lt(rdix(st), 3))
    ix = ex.fresh_int(st, 'ix', 0, 2)
    x = ex.fresh_int(st, 'x', 0, (1 << 48) - 1)
    exp = lambda ex, st, k: [(eq(k, 0), ('raw', 4, ix))] + [(band(eq(k, 1), eq(ix, i)), (T_, None, x)) for i, T_ in enumerate(TYPES)]

    def check(ex, st):
        ex.prove(st, 'decodes/value', eq(rdix(st), ix), 'decoded alternative differs')
        ex.prove(st, 'decodes/value', eq(val(ex, st, p), x), 'decoded alternative has a different value')
    s.deserialize(p, exp, lambda ex, st: 2, check)


def variant20(i, what):
    """the largest variant supported: its i-th alternative, whatever alternative the target holds (three of them, by i)"""
    def task(t):
        ty = 'std::variant<%s>' % ', '.join(ALTS)
        s = Ser(t, ty, what)
        st, ex = s.st, t.ex
        p = t.obj(st, 'value')
        at = p.at(t.off(re.escape(ty), '_M_index'))
        if what == 'serialize':
            ex.write(st, at, 'm', 1, i)
            x = val(ex, st, p)
            s.enc(p, lambda ex, st, k: [(eq(k, 0), ('raw', 4, i)), (eq(k, 1), (ALTS[i], None, x)), (lt(1, k), None)], lambda ex, st: 2)
            return
        old = {0: i, 1: (i + 1) % 20, 2: 19 - i}[i % 3]
        ex.write(st, at, 'm', 1, old)
        x = ex.fresh_int(st, 'x', 0, (1 << 48) - 1)

        def check(ex, st):
            ex.prove(st, 'decodes/value', eq(ex.as_int(rdn(ex, st, at, 1)), i), 'decoded alternative differs')
            ex.prove(st, 'decodes/value', eq(val(ex, st, p), x), 'decoded alternative has a different value')
        s.deserialize(p, lambda ex, st, k: [(eq(k, 0), ('raw', 4, i)), (eq(k, 1), (ALTS[i], None, x))], lambda ex, st: 2, check)
    return task


def variant_bad(t):
    """an alternative index outside the type is rejected"""
    ty = 'std::variant<Opaque, OpaqueB, OpaqueC>'
    s = Ser(t, ty, 'deserialize')
    st, ex = s.st, t.ex
    p = t.obj(st, 'value')
    ixo = t.off(re.escape(ty), '_M_index')
    ix = ex.fresh_int(st, 'ix', 3, (1 << 32) - 1)
    s.exp = lambda ex, st, k: [(eq(k, 0), ('raw', 4, ix))]
    st.ghost['failed'] = ex.fresh_bool(st, 'failed0')
    t.run(s.f, st, [t.obj(st, 'is'), p], lambda s2, r: ex.prove(s2, 'decodes/reports-bad-alternative', bnot(ex.to_bool(r)), 'an unknown alternative is accepted'))


def tok(ex, st, k, name='tok'):
    zk = z3.IntVal(k) if isc(k) else k
    t = uf(name)(zk)
    setrange(t, 0, (1 << 48) - 1)
    key = ('tok', t.get_id())
    if key not in st.memo:
        st.remember(key, t)
        ex.assume(st, band(t >= 0, t < (1 << 48)))
    return t


def tok_exp(N, pair=False):
    def exp(ex, st, k):
        size = ('raw', 4, N)
        if isc(k):
            return size if k == 0 else [(lt(k - 1, N), ('Opaque', None, tok(ex, st, k - 1)))]
        return [(eq(k, 0), size), (band(lt(0, k), le(k, N)), ('Opaque', None, tok(ex, st, sub(k, 1))))]
    return exp


def t_batch(name, kind):
    """several values in one call / one by one through a wrapper: each one in its place, nothing between them; a reader that
    reports by throwing throws exactly when the input was too short"""
    def task(t):
        out = 'write' in name
        s = Ser(t, 'std::tuple<Opaque, OpaqueB, OpaqueC>', 'serialize' if out else 'deserialize')
        st, ex = s.st, t.ex
        f = t.fn(name)
        ps = [t.obj(st, 'value%d' % i) for i in range(3)]
        stream = t.obj(st, 'stream')
        if out:
            xs = [val(ex, st, p) for p in ps]
        else:
            xs = [ex.fresh_int(st, 'x', 0, (1 << 48) - 1) for _ in ps]
            st.ghost['failed'] = ex.fresh_bool(st, 'failed0')
        s.exp, n = fixed([(T_, None, x) for T_, x in zip(TYPES, xs)])

        def good(s2):
            ex.prove(s2, 'decodes/consumes-exactly', eq(gget(s2, 'nin'), 3), 'does not consume exactly what was written')
            for p, x in zip(ps, xs):
                ex.prove(s2, 'decodes/value', eq(val(ex, s2, p), x), 'a decoded value differs')

        def post(s2, r):
            if out:
                ex.prove(s2, 'encodes/complete', eq(gget(s2, 'nout'), 3), 'writes less than the values')
                return
            bad = gget(s2, 'failed')
            if kind == 'bool':
                r = ex.to_bool(r)
                ex.prove(s2, 'decodes/reports-failure', implies(bad, bnot(r)), 'reports success although the input was truncated')
                ex.prove(s2, 'decodes/accepts-encoding', implies(bnot(bad), r), 'rejects complete values')
                if not ex.decide(s2, r):
                    ex.mark('rejects')
                    return
            else:
                ex.prove(s2, 'decodes/reports-failure', bnot(bad), 'reports success although the input was truncated')
            ex.mark('accepts')
            good(s2)

        def unwind(s2, v):
            ex.prove(s2, 'decodes/accepts-encoding', gget(s2, 'failed'), 'rejects complete values')
            ex.mark('rejects')
        t.run(f, st, [stream] + ps, post, unwind=unwind if kind == 'throw' else None)
        if not out:
            t.need('accepts', 'rejects')
    return task


TASKS = []
for ty in NUM:
    nm = 'number(%s)' % ty.replace(' ', '-')
    TASKS += [(nm + '.encode', t_num(ty, 'serialize')), (nm + '.size', t_num(ty, 'serializedSize')), (nm + '.decode', t_num(ty, 'deserialize'))]
TASKS += [('string.encode', t_str('serialize')), ('string.size', t_str('serializedSize')), ('string.decode', t_str('deserialize'))]
for _c, _w in (('char16_t', 2), ('char32_t', 4), ('wchar_t', 4)):
    TASKS += [('string(%s).%s' % (_c, n), t_str(w, _c, _w)) for n, w in (('encode', 'serialize'), ('size', 'serializedSize'), ('decode', 'deserialize'))]
TASKS += [('string-derived.' + n, t_str(w, ty='DerStr')) for n, w in (('encode', 'serialize'), ('size', 'serializedSize'), ('decode', 'deserialize'))]
TASKS += case('pair', 'std::pair<Opaque, OpaqueB>', members(lambda t: [(t.off(r'std::pair<Opaque, OpaqueB>', 'first'), 'Opaque'), (t.off(r'std::pair<Opaque, OpaqueB>', 'second'), 'OpaqueB')]))
TASKS += case('tuple', 'std::tuple<Opaque, OpaqueB, OpaqueC>', members(lambda t: [(t.off(r'std::tuple<Opaque, OpaqueB, OpaqueC>', r'~^(struct|class) %s _M_head_impl' % x), x) for x in TYPES]))
TASKS += case('members', 'Tup', members(lambda t: [(t.off('Tup', 'a'), 'Opaque'), (t.off('Tup', 'b'), 'OpaqueB'), (t.off('Tup', 'c'), 'OpaqueC')]))
TASKS += case('aggregate', 'Agg3', members(lambda t: [(t.off('Agg3', 'a'), 'Opaque'), (t.off('Agg3', 'b'), 'OpaqueB'), (t.off('Agg3', 'c'), 'OpaqueC')]))
for _n in (1, 2, 4, 5, 6, 7, 8, 9, 10, 20):
    TASKS += case('record%d' % _n, 'Rec%d' % _n, members(lambda t, n=_n: [(t.off('Rec%d' % n, 'm%d' % i), TYPES[i % 3]) for i in range(n)]))
TASKS += case('vector', 'std::vector<Opaque, std::allocator<Opaque>>', seq_build)
TASKS += case('list', 'std::list<Opaque, std::allocator<Opaque>>', seq_build)
TASKS += case('map-element', 'std::pair<Opaque const, OpaqueB>', members(lambda t: [(t.off(r'std::pair<const Opaque, OpaqueB>', 'first'), 'Opaque'), (t.off(r'std::pair<const Opaque, OpaqueB>', 'second'), 'OpaqueB')]))[::2]
TASKS += case('set', 'std::set<Opaque, std::less<Opaque>, std::allocator<Opaque>>', lambda t, ty, w: keyed_build(t, ty, w, False))
TASKS += case('map', 'std::map<Opaque, OpaqueB, std::less<Opaque>, std::allocator<std::pair<Opaque const, OpaqueB>>>', lambda t, ty, w: keyed_build(t, ty, w, True))
TASKS += case('unordered_set', 'std::unordered_set<Opaque, OpHash, std::equal_to<Opaque>, std::allocator<Opaque>>', lambda t, ty, w: keyed_build(t, ty, w, False))
TASKS += case('unordered_map', 'std::unordered_map<Opaque, OpaqueB, OpHash, std::equal_to<Opaque>, std::allocator<std::pair<Opaque const, OpaqueB>>>', lambda t, ty, w: keyed_build(t, ty, w, True))
TASKS += case('pointer', 'Opaque*', ptr_build('raw'))
TASKS += case('unique_ptr', 'std::unique_ptr<Opaque, std::default_delete<Opaque>>', ptr_build('unique'))
TASKS += case('shared_ptr', 'std::shared_ptr<Opaque>', ptr_build('shared'))
TASKS += case('variant', 'std::variant<Opaque, OpaqueB, OpaqueC>', variant_build)
TASKS += [('variant.decode-unknown', variant_bad)]
TASKS += [('variant-of-20.%d.%s' % (i, n), variant20(i, w)) for i in range(20) for n, w in (('encode', 'serialize'), ('decode', 'deserialize'))]
TASKS += case('deque', 'std::deque<Opaque, std::allocator<Opaque>>', seq_build)


# ------------------------------------------------------------------ byte streams
class Bytes:
    """byte buffers: a string value with a length and a byte at every index; J is an arbitrary index"""

    def __init__(self, t):
        self.t, self.ex = t, t.ex
        self.fixed = []
        ex = t.ex
        self.st = st = t.state()
        self.J = ex.fresh_int(st, 'J', 0, 1 << 47)
        ex.contracts['std::basic_string::resize'] = self.resize
        ex.contracts['std::basic_string::data'] = self.data
        ex.contracts['std::basic_string::c_str'] = self.data
        ex.contracts['std::basic_string::operator[]'] = self.data
        ex.hooks['memcpy'] = self.memcpy
        ex.hooks['load'] = self.byte_load
        ex.hooks['prestore'] = self.byte_store
        self.user = None        # the memory the caller gave
        st.ghost['bufs'] = ()

    def at(self, s, j):
        t = uf('byte', 2)(z3.IntVal(s) if isc(s) else s, z3.IntVal(j) if isc(j) else j)
        setrange(t, 0, 255)
        return t

    def resize(self, ex, st, c):
        n = ex.as_int(c.args[1])
        s = stl.get_str(ex, st, c.args[0])
        t = ex.fresh_int(st, 'resized', 0, (1 << 48) - 1)
        ex.assume(st, eq(stl.slen(ex, st, t), n))
        J = self.J
        ex.assume(st, implies(band(lt(J, n), lt(J, stl.slen(ex, st, s))), eq(self.at(t, J), self.at(s, J))))
        stl.set_str(ex, st, c.args[0], t)
        return None

    def data(self, ex, st, c):
        for (b, s, o) in gget(st, 'bufs', ()):
            if ex.entails(st, band(eq(s.base, c.args[0].base), eq(s.off, c.args[0].off))):
                base = b
                break
        else:
            p = c.args[0]
            if isc(p.base) and isc(p.off):      # the buffer of an object known by its address
                for (b, s) in self.fixed:
                    if s.base == p.base and s.off == p.off:
                        base = b
                        break
                else:
                    base = ex.static_base()
                    self.fixed.append((base, p))
            else:
                base = ex.fresh_base(st)
                gset(st, 'bufs', gget(st, 'bufs', ()) + ((base, c.args[0], 0),))
        off = 0
        if len(c.args) > 1:
            off = ex.as_int(c.args[1])
            ex.prove(st, 'memory-safety/buffer-index', le(off, stl.slen(ex, st, stl.get_str(ex, st, c.args[0]))))
        return Ptr(base, off)

    def byte_load(self, ex, st, p):
        """a single byte is read (std::copy of one element)"""
        b = self.buf_of(ex, st, p)
        if b is not None:
            v = ex.fresh_int(st, 'byte', 0, 255)
            ex.prove(st, 'memory-safety/buffer-bounds', lt(p.off, stl.slen(ex, st, stl.get_str(ex, st, b))), 'read outside the buffer')
            ex.assume(st, eq(v, self.at(stl.get_str(ex, st, b), p.off)))
            ex.write(st, p, 'm', 1, v)
        elif self.user is not None and ex.entails(st, eq(p.base, self.user.base)):
            ex.assume(st, eq(rdn(ex, st, p, 1), uf('mem', 2)(zi(p.base), zi(p.off))))

    def byte_store(self, ex, st, p, size, v):
        if size != 1 or isinstance(v, (Ptr, IterVal)):
            return
        b = self.buf_of(ex, st, p)
        if b is not None:
            J, old, t = self.J, stl.get_str(ex, st, b), ex.fresh_int(st, 'written', 0, (1 << 48) - 1)
            ex.prove(st, 'memory-safety/buffer-bounds', lt(p.off, stl.slen(ex, st, old)), 'write outside the buffer')
            ex.assume(st, eq(stl.slen(ex, st, t), stl.slen(ex, st, old)))
            ex.assume(st, eq(self.at(t, J), ite(eq(p.off, J), ex.as_int(v), self.at(old, J))))
            stl.set_str(ex, st, b, t)
        elif self.user is not None and ex.entails(st, eq(p.base, self.user.base)):
            gset(st, 'copied', (p, 1, lambda j: ex.as_int(v)))

    def buf_of(self, ex, st, p):
        for (b, s, o) in gget(st, 'bufs', ()):
            if ex.entails(st, eq(b, p.base)):
                return s
        if isc(p.base):
            for (b, s) in self.fixed:
                if b == p.base:
                    return s
        return None

    def memcpy(self, ex, st, c):
        d, s, n = c.args[0], c.args[1], ex.as_int(c.args[2])
        db, sb = self.buf_of(ex, st, d), self.buf_of(ex, st, s)
        if db is None and sb is None:
            return False
        J = self.J
        for q, o, what in ((db, d.off, 'write'), (sb, s.off, 'read')):
            if q is not None:
                L = stl.slen(ex, st, stl.get_str(ex, st, q))
                ex.prove(st, 'memory-safety/buffer-bounds', band(le(0, o), le(add(o, n), L)), '%s outside the buffer' % what)

        def srcbyte(j):
            if sb is not None:
                return self.at(stl.get_str(ex, st, sb), add(s.off, j))
            return ex.as_int(uf('mem', 2)(z3.IntVal(s.base) if isc(s.base) else s.base, zi(add(s.off, j))))
        if db is not None:
            old = stl.get_str(ex, st, db)
            t = ex.fresh_int(st, 'written', 0, (1 << 48) - 1)
            ex.assume(st, eq(stl.slen(ex, st, t), stl.slen(ex, st, old)))
            inr = band(le(d.off, J), lt(J, add(d.off, n)))
            ex.assume(st, eq(self.at(t, J), ite(inr, srcbyte(sub(J, d.off)), self.at(old, J))))
            stl.set_str(ex, st, db, t)
        else:
            gset(st, 'copied', (d, n, srcbyte))
        return True


def zi(x):
    return z3.IntVal(x) if isc(x) else x


def t_write(t):
    B = Bytes(t)
    ex, st = t.ex, B.st
    f = t.fn('maf::srz::OByteStream::write')
    o = t.obj(st, 'stream')
    buf = B.user = t.obj(st, 'buf')
    n = ex.fresh_int(st, 'n', 0, (1 << 46))
    dat, pos, sta = (o.at(t.off('maf::srz::OByteStream', x)) for x in ('data_', 'currentPos_', 'state_'))
    rd = lambda st, p, w: ex.as_int(ex.read(st, p, 'm', w, lambda a, b, c, e: ex.init_int(a, b, c, e, w)))
    s0, p0, g0 = stl.get_str(ex, st, dat), rd(st, pos, 8), rd(st, sta, 1)
    L0 = stl.slen(ex, st, s0)
    ex.assume(st, band(le(p0, L0), eq(g0, 1)))        # class invariant: position inside the buffer, never failed

    def post(s, r):
        s1, p1 = stl.get_str(ex, s, dat), rd(s, pos, 8)
        L1 = stl.slen(ex, s, s1)
        J = B.J
        ex.prove(s, 'stream/invariant', band(le(p1, L1), eq(rd(s, sta, 1), 1)), 'the stream invariant is lost')
        ex.prove(s, 'stream/advances', eq(p1, add(p0, n)), 'the write position does not advance by the bytes written')
        ex.prove(s, 'stream/size', eq(L1, ite(le(L0, p1), p1, L0)), 'the buffer holds more or fewer bytes than written')
        ex.prove(s, 'stream/bytes-appended', implies(band(le(p0, J), lt(J, p1)), eq(B.at(s1, J), ex.as_int(uf('mem', 2)(zi(buf.base), zi(sub(J, p0)))))),
                 'a byte written is not the byte given')
        ex.prove(s, 'stream/keeps-earlier-bytes', implies(lt(J, p0), eq(B.at(s1, J), B.at(s0, J))), 'an earlier byte changes')
    t.run(f, st, [o, buf, n], post)


def t_read(view):
    def task(t):
        B = Bytes(t)
        ex, st = t.ex, B.st
        rec = 'maf::srz::details::BasicIByteStream<%s>' % ('const std::basic_string<char> &' if view else 'std::basic_string<char>')
        f = t.fn('maf::srz::details::BasicIByteStream::read', lambda d: ('const&>::read' in short(d)) == view)
        o = t.obj(st, 'stream')
        buf = B.user = t.obj(st, 'buf')
        n = ex.fresh_int(st, 'n', 0, (1 << 46))
        offs = stream_offs(t, view)
        dat, pos, sta = (o.at(x) for x in offs)
        if view:
            dat = ex.read(st, dat, 'm', 8, ex.init_ptr)
            ex.assume(st, bnot(eq(dat.base, 0)))
        rd = lambda st, p, w: ex.as_int(ex.read(st, p, 'm', w, lambda a, b, c, e: ex.init_int(a, b, c, e, w)))
        s0, p0 = stl.get_str(ex, st, dat), rd(st, pos, 8)
        L = stl.slen(ex, st, s0)
        ex.assume(st, le(p0, L))

        # state is exactly one of good / failed, possibly with eof
        def post(s, r, good):
            p1, g1 = rd(s, pos, 8), rd(s, sta, 1)
            fits = band(good, le(add(p0, n), L))
            J = B.J
            nowfailed = bor(eq(g1, 2), eq(g1, 6))
            ex.prove(s, 'stream/invariant', band(le(p1, L), bor(*[eq(g1, x) for x in (1, 2, 5, 6)])), 'the stream invariant is lost')
            ex.prove(s, 'stream/fails-when-short', eq(nowfailed, bnot(fits)), 'a short read is not reported, or a complete one is')
            ex.prove(s, 'stream/advances', eq(p1, ite(fits, add(p0, n), p0)), 'the read position is wrong after a read')
            ex.prove(s, 'stream/buffer-unchanged', eq(stl.get_str(ex, s, dat), s0), 'reading changes the buffer')
            c = gget(s, 'copied')
            ex.prove(s, 'stream/short-read-copies-nothing', implies(bnot(fits), c is None), 'a short read touches the target')
            if c is None:
                ex.prove(s, 'stream/delivers-bytes', implies(fits, eq(n, 0)), 'a complete read delivers nothing')
                return
            d, m, src = c
            ex.prove(s, 'stream/delivers-bytes', implies(fits, band(eq(d.base, buf.base), eq(d.off, buf.off), eq(m, n), implies(lt(J, n), eq(src(J), B.at(s0, add(p0, J)))))),
                     'a byte delivered is not the byte in the buffer')
        for g in (1, 2, 5, 6):
            s1 = st.clone()
            ex.write(s1, sta, 'm', 1, g)
            t.run(f, s1, [o, buf, n], lambda s, r, g=g: post(s, r, g in (1, 5)))
    return task


def stream_offs(t, view):
    return [t.off('maf::srz::IByteStreamView' if view else 'maf::srz::IByteStream', x) for x in ('buffer_', 'readingPos_', 'state_')]


def rdn(ex, st, p, w):
    return ex.as_int(ex.read(st, p, 'm', w, lambda a, b, c, e: ex.init_int(a, b, c, e, w)))


def t_copy(kind):
    """copies, moves and views of an input stream continue where the source stands"""
    def task(t):
        B = Bytes(t)
        ex, st = t.ex, B.st
        src = t.obj(st, 'src')
        dst = t.obj(st, 'dst')
        so = [src.at(o) for o in stream_offs(t, False)]
        do = [dst.at(o) for o in stream_offs(t, kind == 'view')]
        s0, p0 = stl.get_str(ex, st, so[0]), rdn(ex, st, so[1], 8)
        cls, pat = {'copy': ('IByteStream', r'IByteStream\(maf::srz::IByteStream const&\)'), 'move': ('IByteStream', r'IByteStream\(maf::srz::IByteStream&&\)'),
                    'view': ('IByteStreamView', r'IByteStreamView\(maf::srz::IByteStream const&\)')}[kind]
        f = t.fn('maf::srz::%s::%s' % (cls, cls), pat)
        for g in (1, 2, 5, 6):
            s1 = st.clone()
            ex.write(s1, so[2], 'm', 1, g)

            def post(s, r, g=g):
                d = ex.read(s, do[0], 'm', 8, ex.init_ptr) if kind == 'view' else do[0]
                ex.prove(s, 'stream/copy-keeps-bytes', eq(stl.get_str(ex, s, d), s0), 'the copied stream has other bytes')
                ex.prove(s, 'stream/copy-keeps-position', eq(rdn(ex, s, do[1], 8), p0), 'the copied stream reads from another position')
                ex.prove(s, 'stream/copy-keeps-state', eq(rdn(ex, s, do[2], 1), g), 'the copied stream forgets its state')
            t.run(f, s1, [dst, src], post)
    return task


def t_new(t):
    """a stream constructed from bytes starts at the first byte and in the good state"""
    B = Bytes(t)
    ex, st = t.ex, B.st
    src = t.obj(st, 'src')
    dst = t.obj(st, 'dst')
    do = [dst.at(o) for o in stream_offs(t, False)]
    s0 = stl.get_str(ex, st, src)
    f = t.fn('use_fresh')

    def post(s, r):
        ex.prove(s, 'stream/new-bytes', eq(stl.get_str(ex, s, do[0]), s0), 'a new stream has other bytes')
        ex.prove(s, 'stream/new-state', band(eq(rdn(ex, s, do[1], 8), 0), eq(rdn(ex, s, do[2], 1), 1)), 'a new stream does not start at its first byte')
    t.run(f, st, [dst, src], post)


def t_reset(t):
    B = Bytes(t)
    ex, st = t.ex, B.st
    o = t.obj(st, 'stream')
    dat, pos, sta = (o.at(t.off('maf::srz::OByteStream', x)) for x in ('data_', 'currentPos_', 'state_'))

    def post(s, r):
        ex.prove(s, 'stream/reset', band(eq(stl.slen(ex, s, stl.get_str(ex, s, dat)), 0), eq(rdn(ex, s, pos, 8), 0), eq(rdn(ex, s, sta, 1), 1)),
                 'a reset stream is not empty')
    t.run(t.fn('maf::srz::OByteStream::reset'), st, [o], post)


def t_ireset(t):
    B = Bytes(t)
    ex, st = t.ex, B.st
    o = t.obj(st, 'stream')
    dat, pos, sta = (o.at(x) for x in stream_offs(t, False))

    def post(s, r):
        ex.prove(s, 'stream/reset', band(eq(stl.slen(ex, s, stl.get_str(ex, s, dat)), 0), eq(rdn(ex, s, pos, 8), 0), eq(rdn(ex, s, sta, 1), 1)),
                 'a reset stream is not as new')
    t.run(t.fn('maf::srz::details::BasicIByteStream::reset'), st, [o], post)


TASKS += [('batch.' + n, t_batch(n, k)) for n, k in (('batch_write', ''), ('batch_read', 'bool'), ('batch_write_wrapped', ''), ('batch_read_wrapped', 'throw'), ('chain_write', ''), ('chain_read', 'throw'))]
TASKS += [('stream.in-reset', t_ireset), ('stream.copy', t_copy('copy')), ('stream.view', t_copy('view')), ('stream.new', t_new), ('stream.reset', t_reset)]
TASKS += [('stream.write', t_write), ('stream.read', t_read(False)), ('stream-view.read', t_read(True))]

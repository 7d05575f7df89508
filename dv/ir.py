"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the verifier consumes.

The IR is produced from /repo's current sources on every run; nothing here knows about maf."""
import re, subprocess, functools

TOK = re.compile(r'''
   c"(?:[^"])*" | "(?:[^"])*"
 | %"(?:[^"])*" | @"(?:[^"])*" | %[\w.$\-]+ | @[\w.$\-]+
 | ![\w.]* | \#\d+
 | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[KMLHR]?[0-9A-Fa-f]+ | -?\d+
 | \.\.\. | [A-Za-z_][\w.]* | [()\[\]{}<>,=*:|$]
''', re.X)


class IRError(Exception):
    pass


class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %r at %r' % (x, self.t[self.i:self.i + 8]))

    def done(self):
        return self.i >= len(self.t)


def parse_type(tk):
    t = tk.next()
    if t == 'ptr':
        r = 'ptr'
        if tk.accept('addrspace'):
            tk.expect('('); tk.next(); tk.expect(')')
    elif t in ('void', 'float', 'double', 'x86_fp80', 'metadata', 'label', 'token', 'half', 'fp128'):
        r = t
    elif re.match(r'i\d+$', t):
        r = ('i', int(t[1:]))
    elif t == '[':
        n = int(tk.next()); tk.expect('x')
        e = parse_type(tk); tk.expect(']')
        r = ('arr', n, e)
    elif t == '{':
        r = ('struct', tuple(_tlist(tk, '}')), False)
    elif t == '<':
        if tk.accept('{'):
            el = _tlist(tk, '}'); tk.expect('>')
            r = ('struct', tuple(el), True)
        else:
            n = int(tk.next()); tk.expect('x')
            e = parse_type(tk); tk.expect('>')
            r = ('vec', n, e)
    elif t[0] == '%':
        r = ('named', uq(t))
    elif t == 'opaque':
        r = ('struct', (), False)
    else:
        raise IRError('type? %r' % t)
    while tk.peek() == '(' and r not in ('metadata',):
        # function type
        tk.next()
        args = []
        va = False
        while not tk.accept(')'):
            if tk.accept('...'):
                va = True
            else:
                args.append(parse_type(tk))
            tk.accept(',')
        r = ('fn', r, tuple(args), va)
    return r


def _tlist(tk, end):
    out = []
    while not tk.accept(end):
        out.append(parse_type(tk))
        tk.accept(',')
    return out


def uq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


PARAM_ATTR_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
                    'preallocated', 'elementtype', 'nofpclass', 'captures', 'range', 'memory', 'allocsize', 'alignstack'}
PARAM_ATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'writable',
              'dead_on_unwind', 'signext', 'zeroext', 'inreg', 'returned', 'immarg', 'swiftself', 'nest', 'swifterror',
              'allocalign', 'allocptr', 'noinline', 'nofree', 'noreturn', 'nounwind'}


def skip_attrs(tk):
    attrs = {}
    while True:
        p = tk.peek()
        if p in PARAM_ATTR:
            attrs[p] = True
            tk.next()
        elif p in PARAM_ATTR_PAREN:
            tk.next()
            if tk.peek() == '(':
                tk.next()
                if p in ('sret', 'byval', 'byref', 'elementtype', 'inalloca'):
                    attrs[p] = parse_type(tk)
                    tk.expect(')')
                else:
                    d = 1
                    while d:
                        x = tk.next()
                        d += (x == '(') - (x == ')')
            else:
                tk.next()
        elif p and p.startswith('"'):
            tk.next()
            if tk.accept('='):
                tk.next()
        else:
            return attrs


CASTS = ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast', 'fptosi', 'fptoui', 'sitofp',
         'uitofp', 'fpext', 'fptrunc')


def parse_val(tk, ty):
    """operand of known type -> tuple"""
    t = tk.next()
    if t[0] == '%':
        return ('r', uq(t))
    if t[0] == '@':
        return ('g', uq(t))
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef', ty)
    if t == 'zeroinitializer':
        return ('zero', ty)
    if t == 'true':
        return ('c', 1)
    if t == 'false':
        return ('c', 0)
    if t == 'none':
        return ('none',)
    if re.match(r'-?\d+$', t):
        return ('c', int(t))
    if re.match(r'-?\d+\.\d+|0x', t):
        return ('f', t)
    if t.startswith('c"'):
        return ('str', decode_cstr(t[2:-1]))
    if t == '{' or t == '[':
        end = '}' if t == '{' else ']'
        out = []
        while not tk.accept(end):
            et = parse_type(tk)
            out.append((et, parse_val(tk, et)))
            tk.accept(',')
        return ('agg', tuple(out))
    if t == '<':
        if tk.accept('{'):
            out = []
            while not tk.accept('}'):
                et = parse_type(tk)
                out.append((et, parse_val(tk, et)))
                tk.accept(',')
            tk.expect('>')
            return ('agg', tuple(out))
        out = []
        while not tk.accept('>'):
            et = parse_type(tk)
            out.append((et, parse_val(tk, et)))
            tk.accept(',')
        return ('agg', tuple(out))
    if t == 'getelementptr':
        while tk.peek() in ('inbounds', 'nuw', 'nusw') or tk.peek() == 'inrange':
            w = tk.next()
            if w == 'inrange' and tk.peek() == '(':
                while tk.next() != ')':
                    pass
        tk.expect('(')
        bt = parse_type(tk); tk.expect(',')
        ops = []
        while True:
            tk.accept('inrange')
            ot = parse_type(tk)
            ops.append((ot, parse_val(tk, ot)))
            if tk.accept(')'):
                break
            tk.expect(',')
        return ('gep', bt, ops[0][1], tuple(ops[1:]))
    if t in CASTS:
        tk.expect('(')
        ft = parse_type(tk); v = parse_val(tk, ft)
        tk.expect('to'); tt = parse_type(tk); tk.expect(')')
        return ('cast', t, ft, v, tt)
    if t in ('dso_local_equivalent', 'no_cfi'):
        return parse_val(tk, ty)
    if t in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
        while tk.peek() in ('nuw', 'nsw'):
            tk.next()
        tk.expect('(')
        a = parse_type(tk); va = parse_val(tk, a); tk.expect(',')
        b = parse_type(tk); vb = parse_val(tk, b); tk.expect(')')
        return ('bin', t, a, va, vb)
    raise IRError('value? %r %r' % (t, tk.t[tk.i:tk.i + 6]))


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('utf-8'); i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'text', 'dbg')

    def __init__(self, op, dst=None, ty=None, a=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.line = None
        self.text = ''

    def __repr__(self):
        return self.text.strip()


class Func:
    def __init__(self, name, header, body_lines, mod):
        self.name = name
        self.header = header
        self.lines = body_lines
        self.mod = mod
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        h = self.header
        m = re.search(r'@("(?:[^"]*)"|[\w.$\-]+)\(', h)
        tk = Toks(h[m.end():])
        self.params = []
        self.vararg = False
        n = 0
        while not tk.accept(')'):
            if tk.accept('...'):
                self.vararg = True
                continue
            ty = parse_type(tk)
            at = skip_attrs(tk)
            nm = None
            if tk.peek() and tk.peek()[0] == '%':
                nm = uq(tk.next())
            else:
                nm = str(n)
            n += 1
            self.params.append((nm, ty, at))
            tk.accept(',')
        # return type
        pre = h[:m.start()]
        ptk = Toks(pre[len('define'):] if pre.startswith('define') else pre[len('declare'):])
        self.ret = None
        # last type-looking token run: parse forward skipping linkage words
        while not ptk.done():
            p = ptk.peek()
            if p in ('ptr', 'void', 'float', 'double', '{', '[', '<') or (p[0] == '%') or re.match(r'i\d+$', p) or p in ('x86_fp80',):
                self.ret = parse_type(ptk)
                break
            if p in PARAM_ATTR or p in PARAM_ATTR_PAREN:
                skip_attrs(ptk)
            else:
                ptk.next()
        self.blocks = {}
        self.order = []
        cur = None
        unnamed = None
        buf = []
        for l in self.lines:
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            m2 = re.match(r'("(?:[^"]*)"|[\w.$\-]+):', l)
            if m2 and not l.startswith(' '):
                nm = m2.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = []
                self.blocks[nm] = cur
                self.order.append(nm)
                continue
            if cur is None:
                cur = []
                # implicit entry block label = number of params (unnamed) - we use 'entry'
                self.blocks['%implicit'] = cur
                self.order.append('%implicit')
            buf_l = l
            cur.append(buf_l)
        for nm, ls in self.blocks.items():
            insts = []
            i = 0
            while i < len(ls):
                l = ls[i]
                if re.match(r'\s+switch ', l):
                    while ']' not in ls[i].split(';')[0]:
                        i += 1
                        l += ' ' + ls[i].strip()
                elif ('invoke ' in l):
                    if ' unwind label ' not in l:
                        i += 1
                        l += ' ' + ls[i].strip()
                elif re.search(r'= landingpad|^\s+landingpad', l):
                    while i + 1 < len(ls) and re.match(r'\s+(cleanup|catch|filter)\b', ls[i + 1]):
                        i += 1
                        l += ' ' + ls[i].strip()
                i += 1
                insts.append(parse_inst(l))
            self.blocks[nm] = [x for x in insts if x is not None]
        self.entry = self.order[0]
        self._loops()
        return self

    def _loops(self):
        succ = {}
        for nm, ins in self.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                succ[nm] = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                succ[nm] = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke':
                succ[nm] = [t.a['normal'], t.a['unwind']]
            else:
                succ[nm] = []
        self.succ = succ
        # dominators via iterative sets (functions are small)
        order = []
        seen = set()

        def dfs(n):
            st = [(n, iter(succ[n]))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(self.entry)
        rpo = order[::-1]
        pred = {n: [] for n in rpo}
        for n in rpo:
            for s in succ[n]:
                pred[s].append(n)
        allset = set(rpo)
        dom = {n: set(allset) for n in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                ps = [dom[p] for p in pred[n]]
                d = set.intersection(*ps) if ps else set()
                d = d | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        self.loops = {}
        for n in rpo:
            for s in succ[n]:
                if s in dom[n]:
                    body = self.loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])


SKIP_CALL_WORDS = {'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
                   'contract', 'afn', 'reassoc'}


def parse_call(tk, text):
    while tk.peek() in SKIP_CALL_WORDS:
        tk.next()
    skip_attrs(tk)
    rt = parse_type(tk)
    if isinstance(rt, tuple) and rt[0] == 'fn':
        rt = rt[1]
    callee = parse_val(tk, 'ptr') if tk.peek() != 'asm' else ('asm',)
    if callee == ('asm',):
        return rt, callee, []
    tk.expect('(')
    args = []
    while not tk.accept(')'):
        ty = parse_type(tk)
        if ty == 'metadata':
            # skip
            d = 0
            while not (d == 0 and tk.peek() in (',', ')')):
                x = tk.next()
                d += (x in '({[') - (x in ')}]')
            args.append((ty, ('none',), {}))
        else:
            at = skip_attrs(tk)
            args.append((ty, parse_val(tk, ty), at))
        tk.accept(',')
    return rt, callee, args


def parse_inst(l):
    text = l
    dbg = None
    m = re.search(r', !dbg (!\d+)', l)
    if m:
        dbg = m.group(1)
    # strip metadata attachments
    l = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', l)
    tk = Toks(l)
    dst = None
    if tk.peek() and tk.peek()[0] == '%' and tk.peek(1) == '=':
        dst = uq(tk.next())
        tk.next()
    op = tk.next()
    if op in ('tail', 'musttail', 'notail'):
        op = 'call'
    I = Inst(op, dst)
    I.text = text
    I.dbg = dbg
    if op == 'call':
        rt, callee, args = parse_call(tk, l)
        if callee[0] == 'g' and (callee[1].startswith('llvm.dbg.') or callee[1].startswith('llvm.lifetime')):
            return None
        I.ty = rt
        I.a = dict(callee=callee, args=args)
    elif op == 'invoke':
        rt, callee, args = parse_call(tk, l)
        while not tk.accept('to'):
            tk.next()
        tk.expect('label'); n = uq(tk.next())
        tk.expect('unwind'); tk.expect('label'); u = uq(tk.next())
        I.ty = rt
        I.a = dict(callee=callee, args=args, normal=n, unwind=u)
    elif op == 'ret':
        ty = parse_type(tk)
        I.ty = ty
        I.a = None if ty == 'void' else parse_val(tk, ty)
    elif op == 'br':
        if tk.accept('label'):
            I.a = (None, uq(tk.next()))
        else:
            ty = parse_type(tk)
            c = parse_val(tk, ty)
            tk.expect(','); tk.expect('label'); a = uq(tk.next())
            tk.expect(','); tk.expect('label'); b = uq(tk.next())
            I.a = (c, a, b)
    elif op == 'switch':
        ty = parse_type(tk)
        v = parse_val(tk, ty)
        tk.expect(','); tk.expect('label'); d = uq(tk.next())
        tk.expect('[')
        cases = []
        while not tk.accept(']'):
            ct = parse_type(tk); cv = parse_val(tk, ct)
            tk.expect(','); tk.expect('label')
            cases.append((cv, uq(tk.next())))
        I.ty = ty
        I.a = (v, d, cases)
    elif op == 'load':
        at = tk.accept('atomic')
        tk.accept('volatile')
        ty = parse_type(tk); tk.expect(',')
        pt = parse_type(tk); p = parse_val(tk, pt)
        I.ty = ty
        I.a = (p, at)
    elif op == 'store':
        at = tk.accept('atomic')
        tk.accept('volatile')
        ty = parse_type(tk); v = parse_val(tk, ty); tk.expect(',')
        pt = parse_type(tk); p = parse_val(tk, pt)
        I.ty = ty
        I.a = (v, p, at)
    elif op == 'alloca':
        tk.accept('inalloca')
        ty = parse_type(tk)
        n = ('c', 1)
        if tk.accept(','):
            if tk.peek() != 'align':
                nt = parse_type(tk)
                n = parse_val(tk, nt)
        I.ty = ty
        I.a = n
    elif op == 'getelementptr':
        while tk.peek() in ('inbounds', 'nuw', 'nusw'):
            tk.next()
        bt = parse_type(tk); tk.expect(',')
        ops = []
        while True:
            ot = parse_type(tk)
            ops.append((ot, parse_val(tk, ot)))
            if not tk.accept(','):
                break
        I.ty = bt
        I.a = (ops[0][1], tuple(ops[1:]))
    elif op in ('icmp', 'fcmp'):
        while tk.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
            tk.next()
        pred = tk.next()
        ty = parse_type(tk)
        a = parse_val(tk, ty); tk.expect(',')
        b = parse_val(tk, ty)
        I.ty = ty
        I.a = (pred, a, b)
    elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd',
                'fsub', 'fmul', 'fdiv', 'frem'):
        fl = []
        while tk.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            fl.append(tk.next())
        ty = parse_type(tk)
        a = parse_val(tk, ty); tk.expect(',')
        b = parse_val(tk, ty)
        I.ty = ty
        I.a = (a, b, fl)
    elif op == 'fneg':
        ty = parse_type(tk)
        I.ty = ty
        I.a = parse_val(tk, ty)
    elif op in CASTS:
        tk.accept('nneg')
        ft = parse_type(tk)
        v = parse_val(tk, ft)
        tk.expect('to')
        I.ty = parse_type(tk)
        I.a = (ft, v)
    elif op == 'phi':
        ty = parse_type(tk)
        inc = []
        while True:
            tk.expect('[')
            v = parse_val(tk, ty); tk.expect(',')
            b = uq(tk.next()); tk.expect(']')
            inc.append((v, b))
            if not tk.accept(','):
                break
        I.ty = ty
        I.a = inc
    elif op == 'select':
        ct = parse_type(tk); c = parse_val(tk, ct); tk.expect(',')
        ty = parse_type(tk); a = parse_val(tk, ty); tk.expect(',')
        t2 = parse_type(tk); b = parse_val(tk, t2)
        I.ty = ty
        I.a = (c, a, b)
    elif op == 'extractvalue':
        ty = parse_type(tk); v = parse_val(tk, ty)
        idx = []
        while tk.accept(','):
            idx.append(int(tk.next()))
        I.ty = ty
        I.a = (v, idx)
    elif op == 'insertvalue':
        ty = parse_type(tk); v = parse_val(tk, ty); tk.expect(',')
        et = parse_type(tk); e = parse_val(tk, et)
        idx = []
        while tk.accept(','):
            idx.append(int(tk.next()))
        I.ty = ty
        I.a = (v, et, e, idx)
    elif op == 'landingpad':
        ty = parse_type(tk)
        I.ty = ty
        cl = []
        cleanup = tk.accept('cleanup')
        while not tk.done():
            w = tk.next()
            if w == 'cleanup':
                cleanup = True
            elif w == 'catch':
                ct = parse_type(tk)
                cl.append(('catch', parse_val(tk, ct)))
            elif w == 'filter':
                ct = parse_type(tk)
                cl.append(('filter', parse_val(tk, ct)))
            else:
                raise IRError('landingpad ' + text)
        I.a = (cleanup, cl)
    elif op == 'resume':
        ty = parse_type(tk)
        I.ty = ty
        I.a = parse_val(tk, ty)
    elif op == 'unreachable':
        pass
    elif op == 'cmpxchg':
        tk.accept('weak'); tk.accept('volatile')
        pt = parse_type(tk); p = parse_val(tk, pt); tk.expect(',')
        ct = parse_type(tk); c = parse_val(tk, ct); tk.expect(',')
        nt = parse_type(tk); n = parse_val(tk, nt)
        I.ty = ct
        I.a = (p, c, n)
    elif op == 'atomicrmw':
        tk.accept('volatile')
        o = tk.next()
        pt = parse_type(tk); p = parse_val(tk, pt); tk.expect(',')
        vt = parse_type(tk); v = parse_val(tk, vt)
        I.ty = vt
        I.a = (o, p, v)
    elif op == 'fence':
        return None
    elif op == 'freeze':
        ty = parse_type(tk)
        I.ty = ty
        I.a = parse_val(tk, ty)
        I.op = 'freeze'
    else:
        raise IRError('inst? ' + text)
    return I


class Module:
    def __init__(self, path):
        self.path = path
        text = open(path, encoding='utf-8', errors='surrogateescape').read()
        self.types = {}
        self.type_lines = {}
        self.funcs = {}
        self.decls = set()
        self.global_lines = {}
        self._globals = {}
        self.dbgloc = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                m = re.search(r'@("(?:[^"]*)"|[\w.$\-]+)\(', l)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[nm] = Func(nm, l, lines[i + 1:j], self)
                i = j
            elif l.startswith('%'):
                m = re.match(r'(%"[^"]*"|%[\w.$\-]+) = type (.*)$', l)
                if m:
                    self.type_lines[uq(m.group(1))] = m.group(2)
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"]*)"|[\w.$\-]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"]*)"|[\w.$\-]+) = (.*)$', l)
                if m:
                    self.global_lines[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('!') and 'DILocation(' in l:
                m = re.match(r'(!\d+) = .*DILocation\(line: (\d+)', l)
                if m:
                    self.dbgloc[m.group(1)] = int(m.group(2))
            i += 1
        self.dem = {}
        names = list(self.funcs) + list(self.decls) + [g for g in self.global_lines if g.startswith('_ZTV')]
        names = [x for x in names if x.startswith('_Z')]
        r = subprocess.run(['/usr/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, r.stdout.split('\n')):
            self.dem[a] = b
        self._norm = {}
        # function aliases (C1 -> C2 ctors)
        self.aliases = {}
        for g, t in self.global_lines.items():
            m = re.search(r'\balias\b.*@("(?:[^"]*)"|[\w.$\-]+)\s*$', t)
            if m:
                self.aliases[g] = m.group(1).strip('"')

    def demangle(self, n):
        if n in self.dem:
            return self.dem[n]
        if n in self.aliases:
            return self.demangle(self.aliases[n])
        return n

    def norm(self, n):
        r = self._norm.get(n)
        if r is None:
            r = normalize(self.demangle(n))
            self._norm[n] = r
        return r

    def func(self, n):
        n = self.aliases.get(n, n)
        return self.funcs.get(n)

    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            t = parse_type(Toks(self.type_lines[nm])) if nm in self.type_lines else ('struct', (), False)
            self.types[nm] = t
        return t

    def resolve(self, ty):
        while isinstance(ty, tuple) and ty[0] == 'named':
            ty = self.named(ty[1])
        return ty

    @functools.lru_cache(None)
    def size_align(self, ty):
        ty = self.resolve(ty)
        if ty == 'ptr':
            return 8, 8
        if ty == 'double':
            return 8, 8
        if ty == 'float':
            return 4, 4
        if ty == 'x86_fp80':
            return 16, 16
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if k == 'arr':
            s, a = self.size_align(ty[2])
            return s * ty[1], a
        if k == 'struct':
            off = 0
            al = 1
            for e in ty[1]:
                s, a = self.size_align(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'vec':
            s, a = self.size_align(ty[2])
            return s * ty[1], s * ty[1]
        raise IRError('size of %r' % (ty,))

    def size(self, ty):
        return self.size_align(ty)[0]

    def field_off(self, ty, i):
        ty = self.resolve(ty)
        if ty[0] == 'arr':
            return self.size(ty[2]) * i, ty[2]
        off = 0
        for j, e in enumerate(ty[1]):
            s, a = self.size_align(e)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IRError('field %r %d' % (ty, i))

    def global_init(self, g):
        """(type, value) of a global with an initializer, or None"""
        if g in self._globals:
            return self._globals[g]
        t = self.global_lines.get(g)
        r = None
        if t is not None:
            tk = Toks(t)
            ext = False
            while not tk.done():
                w = tk.next()
                if w in ('external', 'extern_weak'):
                    ext = True
                if w in ('global', 'constant'):
                    break
                if w == 'thread_local' and tk.peek() == '(':
                    while tk.next() != ')':
                        pass
            ty = parse_type(tk)
            const = ' constant ' in (' ' + t)
            if ext or tk.done() or tk.peek() == ',':
                r = (ty, None, const)
            else:
                try:
                    r = (ty, parse_val(tk, ty), const)
                except IRError:
                    r = (ty, None, const)
        self._globals[g] = r
        return r


_TOK = re.compile(r'(?<![A-Za-z0-9_])operator(?:<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|<|>|\(\))|[<>]|[^<>o]+|o')


def strip_templ(s):
    """remove balanced <...> (respecting operator<, operator<<, operator->, operator<=)"""
    out = []
    d = 0
    last = ''
    for c in _TOK.findall(s):
        if c == '<':
            d += 1
        elif c == '>' and last != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        last = c[-1]
    return ''.join(out)


def normalize(dem):
    """'std::map<..>::find(k const&) const' -> 'std::map::find'"""
    s = dem.replace('std::__cxx11::', 'std::').replace('std::_V2::', 'std::').replace('std::chrono::_V2::', 'std::chrono::')
    s = s.replace('(anonymous namespace)', '$anon')
    s = re.sub(r"'lambda\d*'", "$lambda", s)
    s = re.sub(r"'unnamed\d*'", "$unnamed", s)
    s = s.replace('decltype(auto) ', '')
    s = strip_templ(s)
    # remove balanced parens groups except operator()
    out = []
    i = 0
    d = 0
    while i < len(s):
        if d == 0 and s.startswith('operator()', i):
            out.append('operator()')
            i += 10
            continue
        c = s[i]
        if c == '(':
            d += 1
        elif c == ')':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    s = re.sub(r'\[abi:\w+\]', '', s)
    s = re.sub(r'\s*(const|volatile|&|&&)+\s*$', '', s)
    s = re.sub(r'(\s(const|&|&&))+$', '', s)
    s = re.sub(r'\$lambda(::operator\(\))?', lambda m: '$lambda' + (m.group(1) or ''), s)
    # drop return type: text before last space at top-level, but keep 'operator bool', 'operator new'
    m = re.search(r'(.*?)(\S*operator (?:.*))$', s)
    if m:
        return m.group(2).strip()
    parts = s.split()
    return parts[-1] if parts else s

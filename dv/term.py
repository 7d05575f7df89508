"""Terms: machine integers are z3 Ints kept in canonical unsigned form [0,2^w); i1 is a z3 Bool.
Wrap-around is modelled exactly (no mathematical-integer idealisation)."""
import z3

RANGE = {}      # ast id -> (lo,hi) for declared integer constants/applications
KEEP = []       # keep asts alive so ids stay unique
_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


def reset():
    _fresh[0] = 0
    RANGE.clear()
    KEEP.clear()
    _ufs.clear()


_ufs = {}


def uf(name, nargs=1, bool_=False):
    k = (name, nargs, bool_)
    f = _ufs.get(k)
    if f is None:
        f = z3.Function(name, *([z3.IntSort()] * nargs + [z3.BoolSort() if bool_ else z3.IntSort()]))
        _ufs[k] = f
    return f


def setrange(t, lo, hi):
    i = t.get_id()
    if i not in RANGE:
        KEEP.append(t)
        RANGE[i] = (lo, hi)
    return t


def rng(t, depth=0):
    if isinstance(t, bool):
        return (int(t), int(t))
    if isinstance(t, int):
        return (t, t)
    i = t.get_id()
    r = RANGE.get(i)
    if r is not None:
        return r
    if depth > 12:
        return (None, None)
    if z3.is_int_value(t):
        v = t.as_long()
        return (v, v)
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        lo, hi = 0, 0
        for c in ch:
            a, b = rng(c, depth + 1)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return (lo, hi)
    if k == z3.Z3_OP_SUB and len(ch) == 2:
        a, b = rng(ch[0], depth + 1)
        c, d = rng(ch[1], depth + 1)
        return (None if a is None or d is None else a - d, None if b is None or c is None else b - c)
    if k == z3.Z3_OP_ITE:
        a, b = rng(ch[1], depth + 1)
        c, d = rng(ch[2], depth + 1)
        return (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
    if k == z3.Z3_OP_MUL and len(ch) == 2:
        a, b = rng(ch[0], depth + 1)
        c, d = rng(ch[1], depth + 1)
        if None not in (a, b, c, d):
            ps = [a * c, a * d, b * c, b * d]
            return (min(ps), max(ps))
    if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
        return (0, ch[1].as_long() - 1)
    return (None, None)


def isc(x):
    return isinstance(x, (int, bool))


def norm_int(t):
    if z3.is_int_value(t):
        return t.as_long()
    return t


def simp(t):
    if isc(t):
        return t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b) and type(a) == type(b) and a == b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a if not isc(a) else b):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return bnot(c)
        return z3.If(c, z3.BoolVal(a) if isc(a) else a, z3.BoolVal(b) if isc(b) else b)
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    return z3.If(c, z3.IntVal(a) if isc(a) else a, z3.IntVal(b) if isc(b) else b)


def add(a, b):
    if isc(a) and isc(b):
        return int(a) + int(b)
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    # fold (x + c1) + c2
    if isc(a):
        a, b = b, a
    if isc(b) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return add(a.arg(0), a.arg(1).as_long() + b)
    return a + b


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b):
        return add(a, -b)
    if not isc(a) and a.eq(b):
        return 0
    if not isc(a):
        # (x+c)-x
        if z3.is_add(a) and a.num_args() == 2 and a.arg(0).eq(b) and z3.is_int_value(a.arg(1)):
            return a.arg(1).as_long()
    return a - b


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a) and a == 1:
        return b
    if isc(b) and b == 1:
        return a
    if (isc(a) and a == 0) or (isc(b) and b == 0):
        return 0
    return a * b


def eq(a, b):
    if isc(a) and isc(b):
        return int(a) == int(b)
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    if z3.is_bool(a) if not isc(a) else z3.is_bool(b):
        if isc(a):
            return b if a else bnot(b)
        if isc(b):
            return a if b else bnot(a)
        return a == b
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha is not None and lb is not None and ha < lb:
        return False
    if hb is not None and la is not None and hb < la:
        return False
    if isc(b) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and isc(norm_int(a.arg(1))) and isc(norm_int(a.arg(2))):
        x, y = norm_int(a.arg(1)), norm_int(a.arg(2))
        if x == b and y == b:
            return True
        if x == b:
            return a.arg(0)
        if y == b:
            return bnot(a.arg(0))
        return False
    return a == b


def lt(a, b):
    if isc(a) and isc(b):
        return a < b
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha is not None and lb is not None and ha < lb:
        return True
    if la is not None and hb is not None and la >= hb:
        return False
    return a < b


def le(a, b):
    if isc(a) and isc(b):
        return a <= b
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha is not None and lb is not None and ha <= lb:
        return True
    if la is not None and hb is not None and la > hb:
        return False
    return a <= b


def bnot(c):
    if isc(c):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def band(*cs):
    out = []
    for c in cs:
        if isc(c):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if isc(c):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return bor(bnot(a), b)


def zb(c):
    return z3.BoolVal(c) if isc(c) else c


def wrap(t, w):
    """t integer term possibly outside [0,2^w) by at most one modulus each side -> canonical"""
    M = 1 << w
    if isc(t):
        return t % M
    lo, hi = rng(t)
    if lo is not None and hi is not None and lo >= 0 and hi < M:
        return t
    if lo is not None and lo >= 0 and hi is not None and hi < 2 * M:
        return z3.If(t >= M, t - M, t)
    if hi is not None and hi < M and lo is not None and lo >= -M:
        return z3.If(t < 0, t + M, t)
    if lo is not None and hi is not None and lo >= -M and hi < 2 * M:
        return z3.If(t < 0, t + M, z3.If(t >= M, t - M, t))
    return t % M


def signed(t, w):
    M = 1 << w
    H = M >> 1
    if isc(t):
        t = int(t) % M
        return t - M if t >= H else t
    lo, hi = rng(t)
    if hi is not None and hi < H and lo is not None and lo >= 0:
        return t
    return z3.If(t >= H, t - M, t)

"""Loop cutting: modified-state discovery, candidate invariants, Houdini-style filtering to the inductive subset."""
import z3
from term import *
from core import *
import core


class PhiSlot:
    def __init__(self, reg, ty):
        self.reg = reg
        self.ty = ty
        self.name = 'phi:' + reg

    def get(self, ex, st, fi):
        return st.frames[fi].regs.get(self.reg)


class CellSlot:
    def __init__(self, base, kind, off, size, sample):
        self.base = base; self.kind = kind; self.off = off; self.size = size
        self.sample = sample
        self.name = 'cell:%s:%s@%s' % (kind, off, base)

    def get(self, ex, st, fi):
        s = self.sample
        p = Ptr(self.base, self.off)
        if self.kind == 'm':
            if isinstance(s, (Ptr, IterVal)):
                v = ex.read(st, p, 'm', self.size, ex.init_ptr)
                return v if isinstance(v, (Ptr, IterVal)) else Ptr(v, 0)
            return ex.read(st, p, 'm', self.size, lambda a, b, o, e: ex.init_int(a, b, o, e, self.size))
        return ex.read(st, p, self.kind, self.size, ghost_init(ex, self.kind))


class GhostSlot:
    def __init__(self, key):
        self.key = key
        self.name = 'ghost:%s' % (key,)

    def get(self, ex, st, fi):
        return st.ghost.get(self.key)


def ghost_init(ex, kind):
    return ex.gfld.setdefault('ginit', {}).get(kind) or (lambda st, b, o, e: ex.init_int(st, b, o, e, 8, 'g' + kind))


def havoc_val(ex, st, v, name, size=8, gen=()):
    import stl
    if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
        return ex.fresh_bool(st, 'lb')
    if isc(v) or isinstance(v, z3.ExprRef):
        return ex.fresh_int(st, 'lv', 0, (1 << (8 * (min(size, 8) or 8))) - 1)
    if isinstance(v, Ptr):
        if isc(v.base) and v.base > HEAP_LIMIT and not isc(v.off) and 'base' not in gen:
            return Ptr(v.base, ex.fresh_int(st, 'lo', 0, 1 << 48))
        return Ptr(ex.fresh_int(st, 'lp', 0, None), v.off if isc(v.off) and 'off' not in gen else ex.fresh_int(st, 'lo', 0, 1 << 48))
    if isinstance(v, IterVal) or 'other' in gen:
        if 'other' in gen:
            # iterators of different containers: nothing is known (they may not be used before they are set again)
            return Abs('iterator')
        seq = stl.get_seq(ex, st, v.cont)
        idx = ex.fresh_int(st, 'li', 0, 1 << 48)
        return IterVal(v.cont, idx, seq)
    if isinstance(v, stl.Seq):
        return v.havoc(ex, st)
    if isinstance(v, Flt):
        return Flt(ex.fresh_int(st, 'lf', None, None))
    if hasattr(v, 'havoc'):
        return v.havoc(ex, st)
    if v is None:
        return None
    raise Unsupported('havoc of %r' % (v,))


def consts_of(t, out=None):
    """names of uninterpreted constants in a term"""
    out = set() if out is None else out
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


def ctr_of(name):
    if '!' in name:
        try:
            return int(name.split('!')[-1].split('[')[0])
        except ValueError:
            return -1
    return -1


def invariant_term(t, ctr):
    if isc(t):
        return True
    return all(ctr_of(n) <= ctr for n in consts_of(t))


def collect_writes(ex, head_heap, ctr, sb):
    """writes since the loop head in back-edge state sb -> (cells, regions, preds)"""
    cells, regions, preds = [], [], []
    h = sb.heap
    while h is not head_heap and h is not None:
        b = (h.region[0] if isinstance(h.region, tuple) else None) if isinstance(h, HH) else h.base
        if b is not None and isc(b):
            if HEAP_LIMIT < b < core.STATIC_LIMIT and b > HEAP_LIMIT + 1000 + ctr:
                h = h.parent
                continue
        if isinstance(h, HW):
            cells.append((h.base, h.kind, h.off, h.size, h.val))
        elif isinstance(h, (HC, HZ)):
            regions.append((h.base, h.off, h.size))
        elif isinstance(h, HH):
            preds.append((h.pred, h.desc, h.region))
        else:
            preds.append((h.havoc_pred(), 'map', None))
        h = h.parent
    return cells, regions, preds


def enter(ex, st, fr, header, phis):
    import stl
    fn = fr.fn
    norm = fn.mod.norm(fn.name)
    body = fn.loops[header]
    pol = ex.hooks.get('loop_policy')
    p = pol(norm, header) if pol else None
    if p == 'unroll':
        rec = LoopRec(header, body, 'unroll')
        fr.loops.append(rec)
        return
    fi = len(st.frames) - 1
    ctr0 = st.ctr
    slots = [PhiSlot(r, t) for r, t in phis]
    cells = {}
    regions = {}
    preds = {}
    gkeys = set()
    gen = {}             # slot -> parts of a pointer that differ between iterations
    shapes = {}          # cell key -> (root sequence on entry, 'slice' | 'append' | 'any')
    entry = st.clone()
    aliases = {}         # ghost key -> container whose sequence it equals at every loop head
    for k, v in entry.ghost.items():
        if isinstance(v, stl.Seq):
            for cp in ex.gfld.get('mon_conts', ()):
                if stl.get_seq(ex, entry, cp) is v:
                    aliases[k] = cp
                    break
    cm0 = ex.cand_mode
    ex.muted += 1
    try:
        narrowed = False
        for rnd in range(14):
            head = entry.clone()
            head.ctr = ctr0
            hslots = do_havoc(ex, head, fi, slots, cells, regions, preds, gkeys, entry, shapes, aliases, gen)
            head_ctr = head.ctr
            rec = LoopRec(header, body, 'collect')
            rec.collect = []
            run = head.clone()
            run.frames[fi].loops.append(rec)
            marker = head.heap
            fg = dict(head.ghost)
            ex.run(run, lambda *a: None)
            changed = False
            fcells, fregions = set(), set()
            for sb in rec.collect:
                cs, rs, ps = collect_writes(ex, marker, head_ctr, sb)
                for (b, k, o, sz, v) in cs:
                    if invariant_term(b, ctr0) and (isc(o) or invariant_term(o, ctr0)):
                        key = (b if isc(b) else b.get_id(), k, o if isc(o) else o.get_id(), sz)
                        fcells.add(key)
                        if key not in cells:
                            cells[key] = (b, k, o, sz, v)
                            changed = True
                    elif invariant_term(b, ctr0):
                        key = ('allof', b if isc(b) else b.get_id(), k)
                        if key not in preds:
                            preds[key] = (lambda B, K, O, S, b=b, k=k: eq(B, b) if K == k else False, 'obj', None)
                            changed = True
                    else:
                        fam = family(b)
                        key = ('fam', fam, k, o if isc(o) else 'x')
                        if key in preds:
                            continue
                        pg = progress_of(ex, b, fam, sb, head, hslots, fi)
                        if pg is not None:
                            key2 = ('famlt', fam, k, o if isc(o) else 'x', pg.name)
                            if key2 not in preds:
                                preds[key2] = ((fam, k, o, pg), 'prefix', None)
                                changed = True
                        else:
                            for kk in [x for x in preds if x[0] == 'famlt' and x[1] == fam]:
                                del preds[kk]
                            preds[key] = (family_pred(fam, k, o), 'family', None)
                            changed = True
                for (b, o, sz) in rs:
                    if invariant_term(b, ctr0) and invariant_term(o, ctr0) and invariant_term(sz, ctr0):
                        key = (b if isc(b) else b.get_id(), o if isc(o) else o.get_id(), sz if isc(sz) else sz.get_id())
                        fregions.add(key)
                        if key not in regions:
                            regions[key] = (b, o, sz)
                            changed = True
                    else:
                        fam = family(b)
                        key = ('famr', fam)
                        if key not in preds:
                            preds[key] = (family_pred(fam, None, None), 'family', None)
                            changed = True
                for (pr, d, rg) in ps:
                    if d == 'prefix':
                        # of a loop within: the index means nothing here
                        fam, k, o = pr.fam
                        key = ('fam', fam, k, o if isc(o) else 'x')
                        if key not in preds:
                            for kk in [x for x in preds if x[0] == 'famlt' and x[1] == fam]:
                                del preds[kk]
                        pr, d, rg = family_pred(fam, k, o), 'family', None
                    else:
                        key = ('hh', d, str(rg))
                    if key not in preds:
                        preds[key] = (pr, d, rg)
                        changed = True
                for k, v in sb.ghost.items():
                    if k == ('absent',):
                        # facts a search established: none are kept across iterations
                        continue
                    if isinstance(k, tuple) and len(k) == 2 and k[0] in ('alive', 'alloc') and isc(k[1]) and k[1] > HEAP_LIMIT + 1000 + head_ctr:
                        # an object created in this iteration
                        continue
                    if isinstance(k, tuple) and len(k) == 2 and k[0] == 'alive' and k not in fg and isc(v) and v == 1:
                        # known to be alive in this iteration: nothing is known about it at the loop head
                        continue
                    if k not in gkeys and (k not in fg or not same_val(fg[k], v)):
                        gkeys.add(k)
                        changed = True
                if not same_locks(sb.locks, head.locks):
                    ex.muted -= 1
                    try:
                        ex.fail(st, 'lock-discipline/loop-balanced', 'lock set changes across a loop iteration')
                    finally:
                        ex.muted += 1
            for key, (root, kind) in list(shapes.items()):
                if kind == 'any':
                    continue
                b, k, o, sz, v = cells[key]
                for sb in rec.collect:
                    try:
                        S = stl.get_seq(ex, sb, Ptr(b, o))
                    except Fork:
                        S = None
                    if S is None or not shape_ok(kind, S, root):
                        shapes[key] = (root, 'any')
                        changed = True
                        break
            if generalise(ex, entry, head, rec.collect, hslots, fi, gen, norm):
                changed = True
            for k, cp in list(aliases.items()):
                for sb in rec.collect:
                    if sb.ghost.get(k) is not stl.get_seq(ex, sb, cp):
                        del aliases[k]
                        changed = True
                        break
            if not changed:
                if not narrowed and (set(cells) - fcells or set(regions) - fregions):
                    # drop cells that only an early, too concrete round reported; the next round must confirm it
                    narrowed = True
                    cells = {k: v for k, v in cells.items() if k in fcells}
                    regions = {k: v for k, v in regions.items() if k in fregions}
                    shapes = {k: v for k, v in shapes.items() if k in fcells}
                    continue
                break
        else:
            raise Unsupported('loop effect discovery did not converge in ' + norm)
        # candidates
        ex.cand_mode += 1
        rec.slots = hslots
        cands = candidates(ex, entry, head, fi, hslots, fn, body)
        for hk in ex.loop_hooks:
            cands += hk(ex, entry, head, rec, fi, norm) or []
        alive = []
        for name, f in cands:
            try:
                c0 = f(entry)
                if ex.entails(entry, c0):
                    alive.append((name, f))
                elif ex.verbose > 2:
                    print('cand fails init', name)
            except (Fork, Unsupported, PathEnd, AttributeError) as e:
                if ex.verbose > 2:
                    print('cand not evaluated', name, type(e), e)
        # Houdini on the collected back-edge states
        hc = {}
        for name, f in alive:
            try:
                hc[name] = f(head)
            except (Fork, Unsupported, PathEnd, AttributeError) as e:
                if ex.verbose > 2:
                    print('cand not evaluated at head', name, type(e), e)
        alive = [(n, f) for n, f in alive if n in hc and hc[n] is not False]
        bc = []
        for sb in rec.collect:
            d = {}
            for name, f in alive:
                try:
                    s2 = sb.clone()
                    c = f(s2)
                    d[name] = (c, s2.pc)
                except (Fork, Unsupported, PathEnd, AttributeError):
                    d[name] = (False, sb.pc)
            bc.append((sb, d))
        ex.cand_mode -= 1
        if ex.verbose > 4:
            for sb in rec.collect:
                print('BACK', norm, ex.solver.check(sb.pc, True), sb.trace[-14:])
        if ex.verbose > 4:
            for sb in rec.collect:
                a = True
                for n, f in alive:
                    if hc[n] is True: continue
                    b = band(a, hc[n])
                    if ex.solver.check(sb.pc, b) == z3.unsat:
                        print('CONTRA', sb.trace[-1], n, hc[n] if isc(hc[n]) else z3.simplify(hc[n])); continue
                    a = b
        rounds = 0
        while True:
            dropped = set()
            rounds += 1
            conj = [zb(hc[n]) for n, f in alive if hc[n] is not True]
            for sb, d in bc:
                assum = z3.And(*conj) if conj else True
                pcx = PC(assum, sb.pc) if assum is not True else sb.pc
                base_pc = pcx
                for n, f in alive:
                    c, pc2 = d[n]
                    if c is True or n in dropped:
                        continue
                    q = PC(assum, pc2) if (assum is not True) else pc2
                    if c is False:
                        if ex.solver.check(q, True) != z3.unsat:
                            dropped.add(n)
                        continue
                    if ex.solver.check(q, bnot(c)) != z3.unsat:
                        dropped.add(n)
                        if ex.verbose > 3 and n.split(':')[0] in ex.gfld.get('watch', ()):
                            print('DROP', n, z3.simplify(c) if not isc(c) else c, 'trace', sb.trace[-12:])
            if not dropped:
                break
            if ex.verbose > 2:
                print('dropped', dropped)
            alive = [(n, f) for n, f in alive if n not in dropped]
    finally:
        ex.muted -= 1
        ex.cand_mode = cm0
    # continue from the cut point
    st.heap = head.heap
    st.pc = head.pc
    st.ghost = head.ghost
    st.memo = head.memo
    st.ctr = head.ctr
    st.frames[fi].regs = head.frames[fi].regs
    st.trace += ('loop %s' % norm,)
    if ex.verbose > 4:
        for n, f in alive:
            print('ALIVE', ex.muted, norm, n, hc[n] if isc(hc[n]) else z3.simplify(hc[n]))
    for n, f in alive:
        c = hc[n]
        if c is False:
            raise PathEnd()
        ex.assume(st, c)
    if not ex.muted:
        ex.cover['loops'] = ex.cover.get('loops', 0) + 1
        L = ex.gfld.setdefault('loopinv', {})
        key = '%s#%s' % (norm, header)
        L[key] = sorted(n for n, f in alive)
        o = ex.obls.setdefault(ex.prefix + 'loop-invariant/' + norm, core.Obligation(ex.prefix + 'loop-invariant/' + norm))
        o.n += len(alive)
        o.solver['z3'] = o.solver.get('z3', 0) + len(alive)
    rec2 = LoopRec(header, body, 'final')
    rec2.slots = hslots
    st.frames[fi].loops.append(rec2)


def same_locks(a, b):
    import stl
    return [(stl.lock_key(p), n) for p, n, k in a] == [(stl.lock_key(p), n) for p, n, k in b]


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isc(a) and isc(b):
        return a == b
    return False


def family(b):
    """outermost uninterpreted function of a node term (ite branches unioned)"""
    out = set()

    def walk(t):
        if isc(t) or z3.is_int_value(t):
            return
        if t.decl().kind() == z3.Z3_OP_ITE:
            walk(t.arg(1)); walk(t.arg(2))
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            out.add(t.decl().name())
        else:
            out.add('*')
    walk(b)
    return tuple(sorted(out))


def family_pred(fam, kind, off):
    def pred(B, K, O, S):
        if kind is not None and K != kind:
            return False
        if off is not None and isc(off) and isc(O) and O != off:
            return False
        if '*' in fam:
            return True
        if isc(B):
            return HEAP_LIMIT > B
        cs = []
        for f in fam:
            if f.startswith('nd:'):
                cs.append(uf('RG')(B) == uid_num(f[3:]))
            else:
                return True
        return bor(*cs)
    return pred


_uids = {}


def uid_num(u):
    u = u.split('@')[-1]        # 's7@s2': a later state of sequence s2, made of nodes of the same region
    return _uids.setdefault(u, len(_uids) + 1)


def progress_view(ex, st, sl, fi):
    import stl
    v = sl.get(ex, st, fi)
    if isinstance(v, IterVal):
        s = stl.get_seq(ex, st, v.cont, getattr(v.seq, 'kr', None))
        return s, stl.iter_idx(ex, st, v)
    root = getattr(sl, 'root', None)
    if isinstance(v, stl.Seq) and root is not None:
        r = as_slice(v, root)
        if r is not None:
            return root, r[0]
    return None, None


def count_view(ex, st, sl, fi):
    """an index kept as a number"""
    v = sl.get(ex, st, fi)
    if v is None or isinstance(v, (Ptr, bool, tuple, IterVal)):
        return None
    try:
        return ex.as_int(v)
    except (Unsupported, TypeError, AttributeError):
        return None


def progress_of(ex, b, fam, sb, head, hslots, fi):
    """a slot whose index exceeds the index of the written node at the back edge and never decreases"""
    if len(fam) != 1 or not fam[0].startswith('nd:') or isc(b):
        return None
    u = fam[0][3:]
    for sl in hslots:
        if isinstance(sl, GhostSlot):
            continue
        try:
            s0, i0 = progress_view(ex, head, sl, fi)
            s1, i1 = progress_view(ex, sb, sl, fi)
            if s0 is None:
                i0, i1 = count_view(ex, head, sl, fi), count_view(ex, sb, sl, fi)
                if i0 is None or i1 is None:
                    continue
            elif s1 is not s0 or getattr(s0, 'uid', None) != u:
                continue
            if ex.entails(sb, band(lt(uf('IX:' + u)(b), i1), le(i0, i1))):
                return sl
        except (Fork, Unsupported, PathEnd):
            continue
    return None


def prefix_pred(fam, kind, off, u, idx):
    f = family_pred(fam, kind, off)

    def pred(B, K, O, S):
        r = f(B, K, O, S)
        if r is False or isc(B):
            return False
        return band(r, lt(uf('IX:' + u)(B), idx))
    pred.fam = (fam, kind, off)
    return pred


def as_slice(S, root):
    import stl
    if S is root:
        return (0, root.n)
    if isinstance(S, stl.SeqSlice):
        r = as_slice(S.par, root)
        return r and (add(r[0], S.a), S.n)
    if isinstance(S, stl.SeqDel):
        r = as_slice(S.par, root)
        if r is None:
            return None
        if isc(S.p) and S.p == 0:
            return (add(r[0], 1), sub(r[1], 1))
        if eq(add(S.p, 1), S.par.n) is True or (not isc(S.p) and same_val(simp(add(S.p, 1)), simp(S.par.n))):
            return (r[0], sub(r[1], 1))
    return None


def is_append(S, root):
    import stl
    if S is root:
        return True
    if isinstance(S, stl.SeqCat):
        return is_append(S.a, root)
    if isinstance(S, stl.SeqIns):
        return (eq(S.p, S.par.n) is True or same_val(simp(S.p), simp(S.par.n))) and is_append(S.par, root)
    return False


def slot_id(sl):
    if isinstance(sl, PhiSlot):
        return ('phi', sl.reg)
    if isinstance(sl, GhostSlot):
        return ('ghost', sl.key)
    return ('cell', sl.base if isc(sl.base) else sl.base.get_id(), sl.kind, sl.off if isc(sl.off) else sl.off.get_id())


class Uninit(Exception):
    pass


def uninit(*a):
    raise Uninit()


def generalise(ex, entry, head, backs, hslots, fi, gen, norm):
    """the value of a slot at the loop head must stand for its value on entry and after each iteration"""
    import stl
    changed = False
    for sl in hslots:
        try:
            hv = sl.get(ex, head, fi)
        except (Fork, Unsupported, PathEnd):
            continue
        cur = gen.setdefault(slot_id(sl), set())
        if 'other' in cur:
            continue
        n0 = len(cur)
        for x in [entry] + backs:
            try:
                if isinstance(sl, CellSlot) and isc(sl.base) and sl.kind == 'm' and x is entry:
                    try:
                        ex.read(x, Ptr(sl.base, sl.off), 'm', sl.size, uninit)
                    except Uninit:
                        continue       # written before it is read
                v = sl.get(ex, x, fi)
            except (Fork, Unsupported, PathEnd):
                continue
            if isinstance(hv, Ptr):
                if isc(v) and v == 0:
                    v = Ptr(0, 0)
                if isinstance(v, IterVal):
                    cur.add('other')
                elif not isinstance(v, Ptr):
                    cur |= {'base', 'off'}
                else:
                    if isc(hv.base) and not (isc(v.base) and v.base == hv.base):
                        cur.add('base')
                    if isc(hv.off) and not (isc(v.off) and v.off == hv.off):
                        cur.add('off')
            elif isinstance(hv, IterVal):
                if not isinstance(v, IterVal) or ex.ptr_eq(v.cont, hv.cont) is not True:
                    cur.add('other')
            elif hv is None and v is not None:
                raise Unsupported('%s in a loop of %s' % (sl.name, norm))
        changed = changed or len(cur) > n0
    return changed


def shape_ok(kind, S, root):
    return kind == 'any' or (kind == 'slice' and as_slice(S, root) is not None) or (kind == 'append' and is_append(S, root))


def shape_havoc(ex, st, kind, root, S):
    import stl
    if kind == 'slice':
        a = ex.fresh_int(st, 'sla', 0, 1 << 47)
        n = ex.fresh_int(st, 'sln', 0, 1 << 47)
        ex.assume(st, le(add(a, n), root.n))
        return stl.SeqSlice(root, a, n)
    if kind == 'append':
        return stl.SeqCat(root, stl.SeqInit(ex, st))
    return S.havoc(ex, st)


def do_havoc(ex, head, fi, slots, cells, regions, preds, gkeys, entry, shapes, aliases, gen):
    """apply the havoc to `head`; returns slot list"""
    out = []
    for key, (pr, d, rg) in preds.items():
        if d == 'prefix':
            continue
        ex.havoc(head, pr, d, rg)
        if d == 'monitor':
            mi = ex.hooks.get('monitor_assume')
            if mi:
                mi(ex, head, rg)
    for key, (b, o, sz) in regions.items():
        ex.havoc_region(head, Ptr(b, o), sz)
    pend = []
    import stl
    for key, (b, k, o, sz, v) in sorted(cells.items(), key=lambda kv: 0 if kv[1][1] != 'm' else 1):
        sl = CellSlot(b, k, o, sz, v)
        if k == 'seq' and isinstance(v, stl.Seq):
            if key not in shapes:
                root = stl.get_seq(ex, entry, Ptr(b, o), getattr(v, 'kr', None))
                kind = 'any'
                if root.kr is None:
                    for kd in ('slice', 'append'):
                        if shape_ok(kd, v, root):
                            kind = kd
                            break
                shapes[key] = (root, kind)
            root, kind = shapes[key]
            nv = shape_havoc(ex, head, kind, root, v)
            sl.root = root if kind == 'slice' else None
        else:
            nv = havoc_val(ex, head, v, sl.name, sz, gen.get(slot_id(sl), ()))
        ex.write(head, Ptr(b, o), k, sz, nv)
        out.append(sl)
    head.ghost = dict(head.ghost)
    head.ghost.pop(('absent',), None)
    for k in gkeys:
        sl = GhostSlot(k)
        al = aliases.get(k)
        if al is not None:
            head.ghost[k] = stl.get_seq(ex, head, al)
        else:
            head.ghost[k] = havoc_val(ex, head, entry.ghost.get(k, 0), sl.name, 8, gen.get(slot_id(sl), ()))
        out.append(sl)
    regs = head.frames[fi].regs
    for s in slots:
        v = regs[s.reg]
        if isinstance(s.ty, tuple) and s.ty[0] == 'i' and not isinstance(v, (Ptr, IterVal)):
            if s.ty[1] == 1:
                nv = ex.fresh_bool(head, 'lb')
            else:
                nv = ex.fresh_int(head, 'lv', 0, (1 << s.ty[1]) - 1)
        else:
            nv = havoc_val(ex, head, v, s.name, 8, gen.get(slot_id(s), ()))
        regs[s.reg] = nv
        out.append(s)
    for key, (pr, d, rg) in preds.items():
        if d != 'prefix':
            continue
        fam, k, o, pg = pr
        sl = [x for x in out if x.name == pg.name][0]
        s0, i0 = progress_view(ex, head, sl, fi)
        if s0 is None:
            i0 = count_view(ex, head, sl, fi)
        if i0 is None:
            ex.havoc(head, family_pred(fam, k, o), 'family', None)
        else:
            ex.havoc(head, prefix_pred(fam, k, o, fam[0][3:], i0), 'prefix', None)
    return out


def intview(ex, st, v, what, root=None):
    """list of (suffix, int term) views of a value"""
    import stl
    if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
        return []
    if isc(v) or isinstance(v, z3.ExprRef):
        return [('', v)]
    if isinstance(v, IterVal):
        return [('.idx', stl.iter_idx(ex, st, v))]
    if isinstance(v, stl.Seq):
        if root is not None:
            r = as_slice(v, root)
            if r is not None:
                return [('.n', v.n), ('.a', r[0])]
        return [('.n', v.n)]
    if isinstance(v, Ptr):
        return [('.off', v.off)] if not isc(v.off) else []
    return []


def candidates(ex, entry, head, fi, slots, fn, body):
    import stl
    out = []
    ints = []      # (name, getter(st)->term)

    for s in slots:
        try:
            v0 = s.get(ex, entry, fi)
            hv = s.get(ex, head, fi)
        except (Fork, Unsupported, PathEnd):
            continue

        def g(st, s=s):
            return s.get(ex, st, fi)
        if isinstance(hv, z3.ExprRef) and z3.is_bool(hv):
            if v0 is not None:
                out.append((s.name + '==init', lambda st, g=g, v0=v0: eq(ex.to_bool(g(st)), ex.to_bool(v0))))
            out.append((s.name + '==true', lambda st, g=g: ex.to_bool(g(st))))
            continue
        if isinstance(hv, Ptr):
            out.append((s.name + '==init', lambda st, g=g, v0=v0: ex.ptr_eq(g(st), v0)))
            out.append((s.name + '!=null', lambda st, g=g: bnot(eq(g(st).base, 0))))
            out.append((s.name + '.base==init', lambda st, g=g, v0=v0: eq(g(st).base, v0.base)))
            if isc(hv.base):
                pass
        if isinstance(hv, IterVal):
            out.append((s.name + '.valid', lambda st, g=g: band(le(0, stl.iter_idx(ex, st, g(st))), le(stl.iter_idx(ex, st, g(st)), stl.get_seq(ex, st, g(st).cont).n))))
        rt = getattr(s, 'root', None)
        for (suf, t0) in intview(ex, entry, v0, s.name, rt):
            def gi(st, g=g, suf=suf, rt=rt):
                for a, b in intview(ex, st, g(st), '', rt):
                    if a == suf:
                        return b
                raise Unsupported('view')
            nm = s.name + suf
            out.append((nm + '==init', lambda st, gi=gi, t0=t0: eq(gi(st), t0)))
            out.append((nm + '>=init', lambda st, gi=gi, t0=t0: le(t0, gi(st))))
            out.append((nm + '<=init', lambda st, gi=gi, t0=t0: le(gi(st), t0)))
            ints.append((nm, gi, t0))
            if isinstance(hv, z3.ExprRef):
                out.append((nm + '<=1', lambda st, gi=gi: le(gi(st), 1)))
    if len(ints) <= 10:
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                a, b = ints[i], ints[j]
                out.append(('%s-%s' % (a[0], b[0]), lambda st, a=a, b=b: eq(add(a[1](st), b[2]), add(b[1](st), a[2]))))
                out.append(('%s+%s' % (a[0], b[0]), lambda st, a=a, b=b: eq(add(a[1](st), b[1](st)), add(a[2], b[2]))))
    # bounds from comparisons in the loop against loop-invariant registers
    regs = entry.frames[fi].regs
    seen = set()
    defs = {}
    for bl in body:
        for ins in fn.blocks[bl]:
            if ins.dst:
                defs[ins.dst] = ins
    phis_ = set(getattr(s, 'reg', None) for s in slots)

    def cell_getter(op):
        # a loop condition against a memory cell: load it again in the given state
        if op[0] != 'r' or op[1] not in defs:
            return None
        d = defs[op[1]]
        while d.op in ('zext', 'sext', 'trunc') and d.a and isinstance(d.a[0], tuple):
            nx = [x for x in d.a if isinstance(x, tuple) and x[0] == 'r' and x[1] in defs]
            if not nx:
                return None
            d = defs[nx[0][1]]
        if d.op != 'load' or d.a[1]:
            return None
        po = d.a[0]
        if po[0] == 'r' and po[1] in regs and po[1] not in phis_:
            p = regs[po[1]]
            if isinstance(p, Ptr):
                return lambda st: ex.as_int(ex.load(st, p, d.ty, fn.mod))
        return None
    for bl in body:
        for ins in fn.blocks[bl]:
            if ins.op == 'icmp':
                for op in (ins.a[1], ins.a[2]):
                    gt = cell_getter(op)
                    if gt is None or op[1] in seen:
                        continue
                    seen.add(op[1])
                    for nm, gi, t0 in ints:
                        out.append(('%s<=*%s' % (nm, op[1]), lambda st, gi=gi, gt=gt: le(gi(st), gt(st))))
                        out.append(('%s<*%s' % (nm, op[1]), lambda st, gi=gi, gt=gt: lt(gi(st), gt(st))))
                        out.append(('%s>=*%s' % (nm, op[1]), lambda st, gi=gi, gt=gt: le(gt(st), gi(st))))
    for bl in body:
        for ins in fn.blocks[bl]:
            if ins.op == 'icmp':
                for op in (ins.a[1], ins.a[2]):
                    v = None
                    if op[0] == 'r' and op[1] in regs and not any(getattr(s, 'reg', None) == op[1] for s in slots):
                        v = regs[op[1]]
                    elif op[0] == 'c' and isinstance(ins.ty, tuple) and ins.ty[1] > 1:
                        v = op[1] % (1 << ins.ty[1])
                    if v is None or isinstance(v, (bool, Ptr, IterVal, list)) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
                        continue
                    k = v if isc(v) else v.get_id()
                    if k in seen:
                        continue
                    seen.add(k)
                    for nm, gi, t0 in ints:
                        out.append(('%s<=%s' % (nm, op[1]), lambda st, gi=gi, v=v: le(gi(st), v)))
                        out.append(('%s<%s' % (nm, op[1]), lambda st, gi=gi, v=v: lt(gi(st), v)))
                        out.append(('%s>=%s' % (nm, op[1]), lambda st, gi=gi, v=v: le(v, gi(st))))
    return out


def back_edge(ex, st, fr, rec):
    if rec.mode == 'unroll':
        rec2 = LoopRec(rec.header, rec.body, 'unroll')
        rec2.count = rec.count + 1
        if rec2.count > ex.unroll_limit:
            raise Unsupported('loop not bounded within the unrolling limit in ' + fr.fn.mod.norm(fr.fn.name))
        fr.loops[-1] = rec2
        return
    if rec.collect is not None:
        rec.collect.append(st)
        st2 = st.clone()
        rec.collect[-1] = st2
    raise PathEnd()

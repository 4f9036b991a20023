"""Loops: complete unrolling when the trip count is bounded by the code, otherwise a summary.

Summary of a loop with ghost iteration counter n (no bound on n):
 * every header phi, modified cell and object size is a function of n: constant or affine variables get their
   closed form, the others become uninterpreted functions A_x(n) constrained by the body's own transition
   relation STEP(k) for every k < N (the body is executed once, symbolically, from iteration k);
 * an object whose contents change is init outside [W(0),W(n)) and C inside, where W is a variable for which
   every write of iteration k is proved to lie in [W(k),W(k+1));
 * invariants: candidate facts (bounds, equalities between variables, equality with the variables of an earlier
   loop, e.g. the reference loop of the contract) are kept only if proved by induction on n (Houdini).
Obligations inside the body are then proved in an arbitrary iteration, and execution continues from the exits."""
import time
from core import *
from ir import *
from builtins_vf import QFact

NMAX = 1 << 48


class AttemptOver(Exception):
    """the time allowed for unrolling a loop before it is summarised has run out"""

    def __init__(self, owner):
        super().__init__("attempt over")
        self.owner = owner


def run_loop(ex, st, loop):
    depth = len(st.frames) - 1
    f = st.frames[-1]
    key = (f.fn.dem[:100], f.fn.file, loop.get('ln', 0))
    limit = ex.unroll
    budget = None
    if 'unroll' in st.ghost and ex.mode == 'prove':
        if st.ghost['unroll'] == 0:
            budget = 1.5         # __vf_unroll(0): only a cheap attempt before the loop is summarised
        else:
            limit = st.ghost['unroll']
    if ex.mode == 'bmc':
        limit = max(limit, ex.unroll)
    entry = st.fork() if ex.mode == 'prove' else None
    if ex.mode == 'prove' and (key, loop['h']) in ex.sumloops:
        return summarise(ex, entry, loop, depth, key)
    exits = []
    front = [st]
    me = None
    if budget is not None:
        me = object()
        ex.attempts.append((time.time() + budget, me))
    try:
        exits, front, conc, sym, fail, snap = attempt(ex, st, loop, depth, key, limit, me)
    finally:
        if me is not None:
            del ex.attempts[next(i for i, a in enumerate(ex.attempts) if a[1] is me):]
    if front:
        if ex.mode == 'bmc':
            ex.bounded.append((key, limit))
            return exits
        if ex.quiet == 0:
            del ex.unknowns[snap[1]:]
        r = summarise(ex, entry, loop, depth, key)
        return r
    ex.unrolled[key] = max(ex.unrolled.get(key, 0), conc + sym)
    return exits


def attempt(ex, st, loop, depth, key, limit, me):
    f = st.frames[-1]
    exits = []
    front = [st]
    conc = sym = 0
    snap = (len(ex.violations), len(ex.unknowns))
    fail = None
    while front:
        e, b = [], []
        for s in front:
            if 'goto' in s.ghost:
                s = enter(ex, s, loop)
            try:
                x, y = ex.explore([s], depth, loop)
            except AttemptOver as err:
                if err.owner is not me:
                    raise
                fail = err
                break
            except ToolLimit as err:
                if ex.mode == 'bmc' or sym == 0:
                    raise
                fail = err
                break
            e += x
            b += y
        if fail:
            front = [None]
            break
        exits += e
        if len(front) == 1 and len(b) == 1 and not e:
            conc += 1
            if conc > 20000:
                raise ToolLimit('loop at %s:%s does not end' % (f.fn.file, loop.get('ln')))
        else:
            sym += 1
        front = b
        if sym > limit or len(front) > max(400, 64 * limit):
            break
    return exits, front, conc, sym, fail, snap


def enter(ex, s, loop):
    t = s.ghost.pop('goto')
    ex.goto(s, t)
    return s


# ------------------------------------------------------------------ variables

class Var:
    def __init__(self, kind, key, ty, init):
        self.kind, self.key, self.ty, self.init = kind, key, ty, init
        self.cls = 'sym'
        self.sym = None
        self.uf = None
        self.d = None
        self.obj = None
        self.w = None
        self.junk = False

    def __repr__(self):
        return '%s%s:%s' % (self.kind, self.key, self.cls)


def sort_of(v):
    if v.ty == 'bool':
        return z3.BoolSort()
    if v.ty == 'fp64':
        return z3.Float64()
    if v.ty == 'fp32':
        return z3.Float32()
    return z3.BitVecSort(v.w)


def off_of(v, val):
    """plain term of a variable's value (pointers are represented by their offset)"""
    if v.obj is not None:
        if isinstance(val, Ptr) and val.obj == v.obj:
            return val.off
        if isinstance(val, z3.ExprRef) or isinstance(val, int):
            x = val
            hi = fold(z3.LShR(tobv(x, 64), BASE_SHIFT)) if not isinstance(x, int) else x >> BASE_SHIFT
            if hi == v.obj:
                return fold(tobv(x, 64) - (v.obj << BASE_SHIFT))
        raise ToolLimit('loop changes the object a pointer refers to')
    return val


def term(v, val):
    val = off_of(v, val)
    if v.ty == 'bool':
        return tobool(val)
    if v.ty in ('fp64', 'fp32'):
        return val
    if isinstance(val, z3.ExprRef) and z3.is_bool(val):
        return tobv(val, v.w)
    return tobv(val, v.w)


def wrap(v, t):
    t = fold(t) if not z3.is_fp(t) else t
    if v.obj is not None:
        return Ptr(v.obj, t)
    return t


class Summary:
    pass


class MemVar:
    def __init__(self, obj):
        self.obj = obj
        self.frontier = None
        self.arr = None
        self.kinv = None
        self.ever = None


def phi_list(f, header):
    return [i for i in f.fn.blocks[header] if i['op'] == 'phi']


def set_reg(st, k, v):
    st.frames[-1].regs[k] = v


def havoc(ex, st0, vars, mems, val):
    """copy of the entry state with every loop variable set by val(v)"""
    s = st0.fork()
    for m in mems:
        o = s.objs[m.obj]
        s.objs[m.obj] = o.clone(content=m.content(o.content, val))
    for v in vars:
        x = val(v)
        if v.kind == 'phi':
            set_reg(s, v.key, x)
        elif v.kind == 'cell':
            o = s.objs.get(v.key[0]) or ex.get_obj(s, v.key[0])
            s.objs[v.key[0]] = o.clone(content=Content({**o.content.cells, v.key[1]: (v.key[2], x)}, o.content.mem))
        else:
            o = s.objs[v.key]
            s.objs[v.key] = o.clone(size=x)
    s.model = None
    return s


def layers_above(content, base_mem):
    """writes of a content made on top of base_mem: list of (off, n, reader)"""
    out = []
    for o, (n, x) in content.cells.items():
        out.append((o, n, x))
    m = content.mem
    while m is not base_mem:
        if isinstance(m, MStore):
            out.append((m.off, m.n, m.val))
        elif isinstance(m, MFill):
            out.append((m.off, m.ln, ('fill', m.val)))
        elif isinstance(m, MCopy):
            out.append((m.off, m.ln, ('copy', m.src, m.srcoff)))
        else:
            return None
        m = m.prev
    return out


def mkvar(kind, key, init, ty=None):
    v = Var(kind, key, 'bv', init)
    if isinstance(init, Ptr):
        v.obj = init.obj
        v.w = 64
    elif isinstance(init, z3.ExprRef) and z3.is_fp(init):
        v.ty = 'fp64' if init.sort() == z3.Float64() else 'fp32'
    elif isinstance(init, z3.ExprRef) and z3.is_bool(init):
        v.ty = 'bool'
    elif ty is not None and ty[0] == 'i' and ty[1] == 1:
        v.ty = 'bool'
    elif ty is not None:
        v.w = width(ty)
    elif isinstance(init, z3.ExprRef):
        v.w = init.size()
    return v


def summarise(ex, st, loop, depth, key):
    ex.summarised.setdefault(key, 0)
    ex.summarised[key] += 1
    ex.sumloops.add((key, loop['h']))
    st.ghost['abstract'] = True
    hint = st.ghost.pop('unroll', None)         # __vf_unroll concerns the outermost loops
    ex.quiet += 1
    t0 = time.time()
    try:
        S = build(ex, st, loop, depth)
    except ToolLimit as e:
        raise ToolLimit('loop at %s:%s needs an invariant: %s' % (st.frames[-1].fn.file, loop.get('ln'), e))
    finally:
        ex.quiet -= 1
    N = ex.fresh(64, 'N')
    final = state_at(ex, st, S, N)
    final.ghost['abstract'] = True
    f = final.frames[-1]
    exits, backs = ex.explore([final], depth, loop)
    for e in exits:
        if hint is not None:
            e.ghost['unroll'] = hint
        e.ghost.setdefault('loops', ())
        e.ghost['loops'] = e.ghost['loops'] + ((S, N),)
    if ex.debug:
        print('   summary', key, [repr(v) for v in S.vars], 'mems', [(m.obj, m.frontier) for m in S.mems], 'inv', [n for n, _ in S.invs], 'exits', len(exits), '%.1fs' % (time.time() - t0))
    return exits


def state_at(ex, st, S, N):
    def val(v):
        return wrap(v, S.at(v, N))
    s = havoc(ex, st, S.vars, S.mems, val)
    s.pc = list(st.pc)
    s.pc.append(z3.ULE(N, z3.BitVecVal(NMAX, 64)))
    for b in S.base:
        s.pc.append(b)
    for name, inv in S.invs:
        s.assume(zb(inv(N)))
    tag = ('loop', id(S))
    s.qfacts.append(QFact(z3.BoolVal(True), N, lambda k, st_: S.step(k), tag=('step', S, N)))
    for m in S.mems:
        if m.mode == 'havoc':
            continue
        W0, WN = m.W(z3.BitVecVal(0, 64)), m.W(N)
        # the frontier never goes back (proved for every iteration when it was chosen)
        s.qfacts.append(QFact(z3.BoolVal(True), N, lambda k, st_, m=m, WN=WN: z3.And(z3.ULE(m.W(k), m.W(k + 1)), z3.ULE(m.W(k + 1), WN)), tag=('mono', m)))
        s.qfacts.append(QFact(z3.BoolVal(True), None, lambda o, st_, m=m, W0=W0, WN=WN: z3.Implies(
            z3.And(z3.ULE(W0, o), z3.ULT(o, WN)),
            z3.And(z3.ULT(m.kinv(o), N), z3.ULE(m.W(m.kinv(o)), o), z3.ULT(o, m.W(m.kinv(o) + 1)))), tag=('inv', m)))
    for name, inv in S.invs:
        s.qfacts.append(QFact(z3.BoolVal(True), N + 1, lambda k, st_, inv=inv: zb(inv(k)), tag=('hist', S, N)))
    return s


def build(ex, st, loop, depth):
    f = st.frames[-1]
    header = loop['h']
    phis = phi_list(f, header)
    vars = []
    for i in phis:
        init = f.regs[i['id']]
        if isinstance(init, list):
            raise ToolLimit('aggregate loop variable')
        if i['ty'][0] == 'p' and isinstance(init, int):
            v = mkvar('phi', i['id'], init, ['i', 64])
        else:
            v = mkvar('phi', i['id'], init, i['ty'])
        vars.append(v)
    mems = []
    st = st.fork()
    lm0 = ex.fresh_n
    n = ex.fresh(64, 'n')

    def phi_next(s, i):
        pred = s.frames[-1].block
        for b, x in i['in']:
            if b == pred:
                return ex.v(s, x)
        raise ToolLimit('phi edge')

    def symval(v):
        if v.cls == 'sym':
            if v.sym is None:
                v.sym = ex.fresh_bool('lv') if v.ty == 'bool' else z3.FreshConst(sort_of(v), 'lv') if v.ty != 'bv' else ex.fresh(v.w, 'lv')
            return wrap(v, v.sym)
        return wrap(v, at(v, n))

    def at(v, k):
        if v.cls == 'affine':
            return term(v, v.init) + (z3.Extract(v.w - 1, 0, k) if v.w < 64 else k) * v.d if not (z3.is_bv_value(v.d) and v.d.as_long() == 0) else term(v, v.init)
        if v.cls == 'uf':
            return v.uf(k)
        raise ToolLimit('unclassified')

    def one_pass():
        s = havoc(ex, st, vars, mems, symval)
        s.pc = list(st.pc)
        s.pc.append(z3.ULE(n, z3.BitVecVal(NMAX, 64)))
        npc = len(s.pc)
        start = dict(s.objs)
        fresh0 = ex.fresh_n
        nq = len(s.qfacts)
        s.ghost['inbody'] = True
        t1 = time.time()
        exits, backs = ex.explore([s], depth, loop)
        if ex.debug:
            print('     pass: backs %d exits %d vars %d mems %s %.1fs' % (len(backs), len(exits), len(vars), [(m.obj, m.mode) for m in mems], time.time() - t1), flush=True)
        return start, npc, exits, backs, fresh0, nq

    relaid = {}
    # 1. what the body changes
    for rounds in range(12):
        for m in mems:
            m.reset(ex)
        start, npc, exits, backs, fresh0, nq = one_pass()
        new = False
        for b in backs:
            for oid, o in b.objs.items():
                p = start.get(oid)
                if p is None:
                    g = ex.base.objs.get(oid)
                    if g is None:
                        if o.alive and o.kind in ('heap', 'exc') and oid not in [fr for fr in ()]:
                            if o.kind == 'exc':
                                continue
                            raise ToolLimit('the body allocates storage that outlives the iteration')
                        continue
                    p = g
                if o is p:
                    continue
                if p.alive and not o.alive:
                    raise ToolLimit('the body releases storage')
                if o.size is not p.size and eqv(o.size, p.size) is not True:
                    if not any(v.kind == 'size' and v.key == oid for v in vars):
                        so = st.objs[oid]
                        v = mkvar('size', oid, so.size, ['i', 64])
                        vars.append(v)
                        new = True
                isM = any(m.obj == oid for m in mems)
                if is_dead(o.content):
                    if is_dead(p.content):
                        continue
                    if not isM:
                        if oid not in st.objs:
                            st.objs[oid] = p
                        st.objs[oid] = st.objs[oid].clone(content=o.content)
                        vars[:] = [v for v in vars if not (v.kind == 'cell' and v.key[0] == oid)]
                        new = True
                        continue
                if not isM and o.content.mem is not p.content.mem:
                    if oid not in st.objs:
                        st.objs[oid] = p
                    so = st.objs[oid]
                    st.objs[oid] = so.clone(content=Content({}, so.content.flush()))
                    vars[:] = [v for v in vars if not (v.kind == 'cell' and v.key[0] == oid)]
                    mems.append(make_mem(oid))
                    new = True
                    continue
                if isM:
                    continue
                for off in set(o.content.cells) | set(p.content.cells):
                    a = o.content.cells.get(off)
                    c = p.content.cells.get(off)
                    if a is c:
                        continue
                    if a is not None and c is not None and a[0] == c[0] and same_val(a[1], c[1]):
                        continue
                    if any(v.kind == 'cell' and v.key[0] == oid and v.key[1] == off for v in vars):
                        continue
                    if a is None:
                        # split the cell at the start of the loop the way the body does
                        over = [(o2, c2[0]) for o2, c2 in o.content.cells.items() if o2 < off + c[0] and o2 + c2[0] > off]
                        if relaid.get((oid, off), 0) > 4 or not over:
                            raise ToolLimit('layout of a modified object changes')
                        relaid[(oid, off)] = relaid.get((oid, off), 0) + 1
                        if any(v.kind == 'cell' and v.key[0] == oid and v.key[1] == off for v in vars):
                            vars[:] = [v for v in vars if not (v.kind == 'cell' and v.key[0] == oid and v.key[1] == off)]
                        so = st.objs.get(oid) or ex.get_obj(st, oid)
                        cc = so.content
                        for o2, n2 in over:
                            cc = mem_write(cc, o2, n2, mem_read(st, cc, o2, n2))
                        st.objs[oid] = so.clone(content=cc)
                        new = True
                        continue
                    nn = a[0]
                    so = st.objs.get(oid) or ex.get_obj(st, oid)
                    if oid not in st.objs:
                        st.objs[oid] = so
                    # arrays indexed by concrete offsets are not loop variables of interest when temporary
                    init = mem_read(st, so.content, off, nn)
                    cc = mem_write(so.content, off, nn, init)
                    st.objs[oid] = so.clone(content=cc)
                    vx = mkvar('cell', (oid, off, nn), init, None if isinstance(init, (Ptr, z3.ExprRef)) else ['i', 8 * nn])
                    vars.append(vx)
                    new = True
        if not new:
            break
    else:
        raise ToolLimit('modified state does not stabilise')
    if not backs:
        pass

    def next_of(b, v):
        if v.kind == 'phi':
            i = next(i for i in phis if i['id'] == v.key)
            return phi_next(b, i)
        if v.kind == 'cell':
            o = b.objs[v.key[0]]
            return mem_read(b, o.content, v.key[1], v.key[2])
        return b.objs[v.key].size

    # 2. affine variables
    for rounds in range(8):
        syms = {v.sym.decl().name() for v in vars if v.cls == 'sym' and v.sym is not None}
        syms.add(n.decl().name())
        changed = False
        for v in vars:
            if v.cls != 'sym' or v.ty != 'bv':
                continue
            ds = []
            ok = True
            for b in backs:
                x = next_of(b, v)
                try:
                    t = term(v, x)
                except ToolLimit:
                    ok = False
                    break
                d = z3.simplify(t - v.sym)
                fc = free_consts(d)
                if fc & syms or any(fresh_idx(c) > fresh0 or (c.startswith('lm!') and fresh_idx(c) > lm0) for c in fc):
                    ok = False
                    break
                ds.append(d)
            if ok and ds and all(d.eq(ds[0]) for d in ds):
                v.cls, v.d = 'affine', ds[0]
                changed = True
            elif ok and not ds:
                v.cls, v.d = 'affine', z3.BitVecVal(0, v.w)
                changed = True
        if not changed:
            break
        for m in mems:
            m.reset(ex)
        start, npc, exits, backs, fresh0, nq = one_pass()
    # a variable whose value at the start of an iteration is never looked at needs no invariant
    used = set()
    for b in backs + exits:
        for c in b.pc[npc:]:
            if isinstance(c, z3.ExprRef):
                used |= free_consts(c)
    for b in backs:
        for v in vars:
            try:
                t = term(v, next_of(b, v))
            except ToolLimit:
                continue
            if isinstance(t, z3.ExprRef):
                used |= free_consts(t)
    for v in vars:
        if v.cls == 'sym':
            v.junk = v.sym is not None and v.sym.decl().name() not in used
            v.cls = 'uf'
            ex.fresh_n += 1
            v.uf = z3.Function('A!%d' % ex.fresh_n, z3.BitVecSort(64), sort_of(v))

    S = Summary()
    S.vars, S.mems, S.at, S.n = vars, mems, at, n
    S.invs = []
    S.base = [z3.simplify(v.uf(z3.BitVecVal(0, 64)) == term(v, v.init)) for v in vars if v.cls == 'uf']
    S.ufs = [v for v in vars if v.cls == 'uf']

    # 3. write windows
    if mems:
        for m in mems:
            m.reset(ex)
        start, npc, exits, backs, fresh0, nq = one_pass()
        for m in mems:
            base_mem = start[m.obj].content.mem
            per = []
            for b in backs:
                L = layers_above(b.objs[m.obj].content, base_mem)
                per.append((b, L))
            if any(L is None for _, L in per):
                m.mode = 'havoc'
                m.fresh = lambda: MFresh(ex.fresh_arr('lm'))
                continue
            cands = [v for v in vars if (v.kind == 'size' and v.key == m.obj)] + \
                    [v for v in vars if v.obj == m.obj] + \
                    [v for v in vars if v.ty == 'bv' and v.obj is None and v.w == 64 and v.kind != 'size']
            scale = {}
            for v in cands:
                ok = True
                for b, L in per:
                    w0 = term(v, symval_uf(v, at, n))
                    try:
                        w1 = term(v, next_of(b, v))
                    except ToolLimit:
                        ok = False
                        break
                    conds = [z3.ULE(w0, w1)]
                    for off, ln, _ in L:
                        o, l = tobv(off, 64), tobv(ln, 64)
                        conds.append(z3.And(z3.ULE(w0, o), z3.ULE(o + l, w1), z3.ULE(o, o + l)))
                    c = z3.And(*conds)
                    # sizes and offsets are far below 2^63
                    b2 = b.fork()
                    for x in cands:
                        if x.kind == 'size' or x.obj is not None:
                            b2.pc.append(z3.ULT(term(x, symval_uf(x, at, n)), z3.BitVecVal(1 << 43, 64)))
                    if v.kind != 'size' and v.obj is None:
                        b2.pc.append(z3.ULT(w0, z3.BitVecVal(1 << 43, 64)))
                    b2.model = None
                    if ex.query(b2, z3.Not(c), ex.feas_ms)[0] != 'unsat':
                        ok = False
                        break
                if ok:
                    m.frontier = v
                    break
            if m.frontier is None:
                # nothing is known of the contents at the start of an iteration
                m.mode = 'havoc'
                m.fresh = lambda: MFresh(ex.fresh_arr('lm'))
                continue
            m.W = lambda k, v=m.frontier: at(v, k)
            ex.fresh_n += 1
            m.arr = z3.Array('C!%d' % ex.fresh_n, z3.BitVecSort(64), z3.BitVecSort(8))
            m.kinv = z3.Function('ki!%d' % ex.fresh_n, z3.BitVecSort(64), z3.BitVecSort(64))
            m.mode = 'window'
    # 4. transition relation
    start, npc, exits, backs, fresh0, nq = one_pass()
    paths = []
    for b in backs:
        conj = [c for c in b.pc[npc:]]
        eqs = []
        for v in S.ufs:
            try:
                t = term(v, next_of(b, v))
            except ToolLimit:
                continue
            eqs.append(v.uf(n + 1) == t)
        for m in mems:
            if m.mode == 'havoc':
                continue
            base_mem = start[m.obj].content.mem
            L = layers_above(b.objs[m.obj].content, base_mem)
            for idx, (off, ln, x) in enumerate(L):
                # a later write (earlier in the list) may hide this one: read the final content instead
                cnt = b.objs[m.obj].content
                if isinstance(ln, int) and ln <= 64:
                    for j in range(ln):
                        oo = tobv(add(off, j), 64)
                        eqs.append(z3.Select(m.arr, oo) == tobv(mem_read(b, cnt, add(off, j), 1), 8))
        paths.append((conj, eqs))
    bad = set()
    names = set()
    for conj, eqs in paths:
        for t in subterms(conj + eqs):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if t.num_args() == 0:
                    if (fresh_idx(nm) > fresh0 or (nm.startswith('lm!') and fresh_idx(nm) > lm0)) and not nm.startswith('n!'):
                        names.add((nm, t))
                elif fresh_idx(nm) > fresh0 and (nm.startswith('A!') or nm.startswith('ki!')):
                    bad.add(nm)
    subs = []
    seen = set()
    for nm, t in names:
        if nm in seen:
            continue
        seen.add(nm)
        fn = z3.Function(nm + '@', z3.BitVecSort(64), t.sort())
        subs.append((t, fn(n)))

    def clean(cs):
        return [c for c in cs if not (free_consts(c) & bad)]
    rel = []
    for conj, eqs in paths:
        rel.append(z3.And(*[z3.BoolVal(True)] + clean(conj) + clean(eqs)))
    step = z3.substitute(z3.Or(*rel) if rel else z3.BoolVal(False), *subs) if subs else (z3.Or(*rel) if rel else z3.BoolVal(False))
    S.step_term = step
    S.heavy = len(paths) > 4
    S.step = lambda k: z3.substitute(step, (n, k))
    S.facts0 = st
    # 5. invariants
    find_invariants(ex, st, S, backs, exits, npc)
    return S


def symval_uf(v, at, n):
    if v.cls == 'sym':
        return wrap(v, v.sym)
    return wrap(v, at(v, n))


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (int, Ptr)) or isinstance(b, (int, Ptr)):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj == b.obj and eqv(a.off, b.off) is True
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def fresh_idx(nm):
    p = nm.rfind('!')
    if p < 0:
        return -1
    try:
        return int(nm[p + 1:].rstrip('@'))
    except ValueError:
        return -1


def make_mem(oid):
    m = MemVar(oid)
    m.mode = 'fresh'

    def reset(ex):
        if m.mode == 'fresh':
            m.tmp = MFresh(ex.fresh_arr('lm'))
    m.reset = reset

    def content(c, val):
        if m.mode == 'fresh':
            return Content({}, m.tmp)
        if m.mode == 'havoc':
            return Content({}, m.fresh())
        init = c.flush()
        W0 = m.W(z3.BitVecVal(0, 64))
        wn = m.frontier
        W = off_of(wn, val(wn))
        return Content({}, MLambda(init, lambda o: z3.And(z3.ULE(W0, o), z3.ULT(o, tobv(W, 64))), lambda o: z3.Select(m.arr, o)))
    m.content = content
    return m


# ------------------------------------------------------------------ invariants

def find_invariants(ex, st, S, backs, exits, npc):
    n = S.n
    zero = z3.BitVecVal(0, 64)
    cands = []

    def add_c(name, fn):
        cands.append((name, fn))
    terms = {}
    for v in S.vars:
        if v.ty == 'bv':
            terms[repr(v) + str(v.key)] = v
    # bounds suggested by the comparisons of the body
    seen = set()
    for s in list(backs) + list(exits):
        for c in s.pc[npc:]:
            for t in subterms([c]):
                if z3.is_app(t) and t.num_args() == 2 and t.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ):
                    a, b = t.arg(0), t.arg(1)
                    if not z3.is_bv(a) or a.size() not in (32, 64):
                        continue
                    if t.get_id() in seen or len(seen) > 24:
                        continue
                    fc = free_consts(a) | free_consts(b)
                    if any(fresh_idx(x) > fresh_idx(n.decl().name()) and '@' not in x and not x.startswith('A!') and not x.startswith('n!') for x in fc):
                        continue
                    seen.add(t.get_id())
                    for x, y in ((a, b), (b, a)):
                        add_c('%s <= %s' % (str(x)[:30], str(y)[:30]), lambda k, x=x, y=y: z3.ULE(z3.substitute(x, (n, k)), z3.substitute(y, (n, k))))
                    # solved for a plain counter: n <= bound
                    if a.size() != 64:
                        continue
                    d = z3.simplify(a - b)
                    for sg in (1, -1):
                        bd = z3.simplify(n - d if sg == 1 else n + d)
                        if n.decl().name() not in free_consts(bd) and a.size() == 64:
                            add_c('n <= %s' % str(bd)[:40], lambda k, bd=bd: z3.ULE(k, bd))
    ufs = [v for v in S.ufs if v.ty == 'bv' and not v.junk]
    for v in S.ufs:
        if v.junk:
            continue
        if v.ty in ('bv', 'bool'):
            add_c('%r == init' % v, lambda k, v=v: S.at(v, k) == term(v, v.init))
    for v in ufs:
        i0 = term(v, v.init)
        add_c('%r >= init' % v, lambda k, v=v, i0=i0: z3.UGE(S.at(v, k), i0))
        if v.w == 64:
            for c in (1, 2, 4, 8):
                add_c('%r == init+%dn' % (v, c), lambda k, v=v, i0=i0, c=c: S.at(v, k) == i0 + k * c)
            for c in (1, 2, 3, 4, 6, 8, 16):
                add_c('%r <= init+%dn' % (v, c), lambda k, v=v, i0=i0, c=c: z3.ULE(S.at(v, k), i0 + k * c))
            add_c('%r small' % v, lambda k, v=v: z3.ULT(S.at(v, k), z3.BitVecVal(1 << 56, 64)))
        for u in S.vars:
            if u is v or u.junk or u.ty != 'bv' or u.w != v.w or v.w < 16:
                continue
            j0 = term(u, u.init)
            add_c('%r-%r const' % (v, u), lambda k, v=v, u=u, i0=i0, j0=j0: S.at(v, k) - S.at(u, k) == i0 - j0)
            if v.w == 64 and (u not in ufs or ufs.index(u) > ufs.index(v)):
                add_c('%r+%r const' % (v, u), lambda k, v=v, u=u, i0=i0, j0=j0: S.at(v, k) + S.at(u, k) == i0 + j0)
            add_c('%r <= %r' % (v, u), lambda k, v=v, u=u: z3.ULE(S.at(v, k), S.at(u, k)))
            add_c('%r >= %r' % (v, u), lambda k, v=v, u=u: z3.UGE(S.at(v, k), S.at(u, k)))
    # relations with an earlier loop
    for (T, NT) in st.ghost.get('loops', ()):
        for v in S.ufs:
            for u in T.ufs:
                if v.ty == 'bool' and u.ty == 'bool':
                    add_c('%r ~ %r' % (v, u), lambda k, v=v, u=u, T=T: S.at(v, k) == T.at(u, k))
                elif v.ty == 'bv' and u.ty == 'bv':
                    for nm, rel in relations(v.w, u.w):
                        add_c('%r %s %r' % (v, nm, u), lambda k, v=v, u=u, T=T, rel=rel: rel(S.at(v, k), T.at(u, k)))
                elif v.ty == u.ty and v.ty != 'bv':
                    add_c('%r ~ %r' % (v, u), lambda k, v=v, u=u, T=T: S.at(v, k) == T.at(u, k))
        for m in S.mems:
            for q in T.mems:
                pass
    if not cands:
        return
    # initial
    facts0 = list(st.pc) + S.base
    ini = st.fork()
    ini.pc = facts0
    ini.model = None
    keep = []
    for name, fn in cands:
        g = zb(fn(zero))
        g = z3.simplify(g) if isinstance(g, z3.ExprRef) else g
        if z3.is_true(g):
            keep.append((name, fn))
            continue
        if z3.is_false(g):
            continue
        if ex.query(ini, z3.Not(g), 2000)[0] == 'unsat':
            keep.append((name, fn))
    if ex.debug:
        print('     candidates: %d, initially true %d; variables %s' % (len(cands), len(keep), [(repr(v), v.key, v.w, 'junk' if v.junk else '') for v in S.vars]), flush=True)
    # step (Houdini)
    s = st.fork()
    s.model = None
    s.pc = list(st.pc) + S.base + [z3.ULT(n, z3.BitVecVal(NMAX, 64)), S.step(n)]
    t_end = time.time() + 60
    t_h = time.time()
    while keep:
        hyp = [zb(fn(n)) for _, fn in keep]
        dropped = False
        s2 = s.fork()
        s2.pc = s.pc + hyp
        s2.ghost['focus'] = [n]
        inst = instantiate(ex, s2, s2.pc, [zb(fn(n + 1)) for _, fn in keep]) if s2.qfacts else s2.pc
        goals = [z3.Not(zb(fn(n + 1))) for _, fn in keep]
        sol = z3.Solver()
        sol.add(*inst)

        def ask(g, ms):
            sol.set('timeout', ms)
            sol.push()
            sol.add(g)
            t1 = time.time()
            r = str(sol.check())
            m = sol.model() if r == 'sat' else None
            sol.pop()
            STATS.queries += 1
            STATS.time += time.time() - t1
            return r, m
        alive = list(range(len(keep)))
        hard = []
        # drop by models; goals that take long are set aside
        for i in list(alive):
            if i not in alive:
                continue
            r, m = ask(goals[i], 250)
            if r == 'sat':
                alive = [j for j in alive if j != i and not z3.is_true(m.eval(goals[j], True))]
                dropped = True
            elif r != 'unsat':
                hard.append(i)
        for i in hard:
            if i not in alive:
                continue
            if dropped and time.time() < t_end:
                break           # decided in a later round, with fewer candidates
            r, m = check(inst + [goals[i]], 4000 if time.time() < t_end else 500)
            if r == 'unsat':
                continue
            dropped = True
            alive = [j for j in alive if j != i and not (m is not None and z3.is_true(m.eval(goals[j], True)))]
        keep = [keep[i] for i in alive]
        if ex.debug:
            print('       houdini: %d left, hard %d, %.1fs' % (len(keep), len(hard), time.time() - t_h), flush=True)
        if not dropped:
            break
        if time.time() > t_end + 60:
            keep = []
            break
    S.invs = keep
    if ex.debug:
        print('     invariants: %d of %d candidates' % (len(keep), len(cands)), flush=True)


def relations(wv, wu):
    out = []
    if wv == wu:
        out.append(('==', lambda a, b: a == b))
        if wv == 16:
            out.append(('==swap', lambda a, b: a == z3.Concat(z3.Extract(7, 0, b), z3.Extract(15, 8, b))))
        out.append(('==not', lambda a, b: a == ~b))
    elif wv < wu:
        for lo in range(0, wu - wv + 1, 8):
            out.append(('==[%d]' % lo, lambda a, b, lo=lo: a == z3.Extract(lo + wv - 1, lo, b)))
        out.append(('==zext', lambda a, b: z3.ZeroExt(wu - wv, a) == b))
    else:
        for lo in range(0, wv - wu + 1, 8):
            out.append(('[%d]==' % lo, lambda a, b, lo=lo: z3.Extract(lo + wu - 1, lo, a) == b))
        out.append(('zext==', lambda a, b: a == z3.ZeroExt(wv - wu, b)))
    return out


# ------------------------------------------------------------------ instantiation of quantified facts

def patterns(ex, st, q):
    """[(kind, key, c)]: the body applied to j mentions kind/key at index j + c"""
    if q.pats is not None:
        return q.pats
    j = z3.BitVec('j!pat', 64)
    q.pats = []
    try:
        body = q.body(j, NoDecide())
    except Exception as e:
        return q.pats
    seen = set()
    for t in subterms([body]):
        if z3.is_select(t) and t.arg(1).sort() == z3.BitVecSort(64):
            k, ix = ('s', t.arg(0).get_id()), t.arg(1)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1:
            k, ix = ('f', t.decl().name()), t.arg(0)
        else:
            continue
        c = z3.simplify(ix - j)
        sh = 0
        if 'j!pat' in free_consts(c):
            c = z3.simplify(z3.substitute(ix, (j, z3.BitVecVal(0, 64))))
            d = z3.simplify(z3.substitute(ix, (j, z3.BitVecVal(1, 64))) - c)
            if not z3.is_bv_value(d) or d.as_long() == 0 or d.as_long() & (d.as_long() - 1) or d.as_long() > 4096:
                continue
            if not z3.is_bv_value(z3.simplify(ix - c - d * j)) or z3.simplify(ix - c - d * j).as_long() != 0:
                if check([ix != c + d * j], 1000)[0] != 'unsat':
                    continue
            sh = d.as_long().bit_length() - 1
        kk = (k, c.get_id(), sh)
        if kk in seen:
            continue
        seen.add(kk)
        ex.keep.append((c, t))
        q.pats.append((k, c, sh))
    return q.pats


class NoDecide:
    def decide(self, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        return None


def instantiate(ex, st, pc, extra, light=False):
    """pc plus ground instances of st.qfacts relevant to the goal"""
    out = list(pc)
    done = set()
    terms = list(extra) + list(pc)
    seen = set()
    total = 0
    pool = list(st.indices)
    focus = st.ghost.get('focus', [])
    for rnd in range(3):
        ground = {}
        for t in subterms(terms, seen):
            if z3.is_select(t) and t.arg(1).sort() == z3.BitVecSort(64):
                ground.setdefault(('s', t.arg(0).get_id()), []).append(t.arg(1))
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1:
                ground.setdefault(('f', t.decl().name()), []).append(t.arg(0))
        new = []
        for qi, q in enumerate(st.qfacts):
            if light and q.tag and q.tag[0] == 'step' and q.tag[1].heavy:
                continue        # whether a path is feasible is decided without the history of a heavy loop body
            insts = []
            for k, c, sh in patterns(ex, st, q):
                for ix in ground.get(k, ()):
                    insts.append(z3.simplify(z3.LShR(ix - c, sh) if sh else ix - c))
            if rnd == 0:
                insts += focus
                if q.tag and q.tag[0] == 'step':
                    insts.append(z3.simplify(q.tag[2] - 1))
                    insts.append(z3.BitVecVal(0, 64))
                if q.tag is None or q.tag[0] != 'step':
                    insts += pool[:8]
            cnt = 0
            for j in insts:
                kk = (qi, j.get_id())
                if kk in done:
                    continue
                done.add(kk)
                cnt += 1
                total += 1
                if cnt > 24 or total > 400:
                    break
                body = q.body(j, NoDecide())
                g = q.guard if q.bound is None else z3.And(q.guard, z3.ULT(j, tobv(q.bound, 64)))
                f = z3.simplify(z3.Implies(g, body))
                ex.keep.append((j, f))
                if not z3.is_true(f):
                    new.append(f)
        if not new:
            break
        out += new
        terms = new
    return out

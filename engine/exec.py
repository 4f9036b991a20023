"""Path-wise symbolic execution of LLVM IR (the VC generator proper).

Every function defined in the module is executed instruction by instruction; a callee that the harness
replaces by its contract is simply defined by the harness.  Each load/store/division/library precondition and
each __vf_assert is an obligation, discharged by the SMT solver for all values of the symbolic inputs.
Loops: see loops.py."""
import re, sys, time
from core import *
from ir import *

sys.setrecursionlimit(20000)


class PathEnd(Exception):
    pass


class Stop(Exception):
    """budget of this harness used up"""


class Frame:
    __slots__ = ('fn', 'regs', 'block', 'prev', 'ip', 'call', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.block = 0
        self.prev = -1
        self.ip = 0
        self.call = None
        self.allocas = ()

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.block, f.prev, f.ip, f.call, f.allocas = self.fn, dict(self.regs), self.block, self.prev, self.ip, self.call, self.allocas
        return f


class State:
    def __init__(self, ex):
        self.ex = ex
        self.pc = []
        self.objs = {}
        self.frames = []
        self.log = []
        self.exc = None          # exception being unwound: Ptr
        self.exct = {}           # exception object id -> typeinfo name
        self.caught = []
        self.qfacts = []
        self.model = None
        self.indices = []
        self.digests = []
        self.ghost = {}
        self.covers = set()
        self.divs = {}

    def fork(self):
        s = State.__new__(State)
        s.ex = self.ex
        s.pc = list(self.pc)
        s.objs = dict(self.objs)
        s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        s.log = list(self.log)
        s.exc = self.exc
        s.exct = dict(self.exct)
        s.caught = list(self.caught)
        s.qfacts = list(self.qfacts)
        s.model = self.model
        s.indices = list(self.indices)
        s.digests = list(self.digests)
        s.ghost = dict(self.ghost)
        s.covers = set(self.covers)
        s.divs = self.divs
        return s

    # -- path condition
    def assume(self, c):
        if isinstance(c, (bool, int)):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        if z3.is_and(c):
            self.pc.extend(c.children())
        else:
            self.pc.append(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, True)):
            self.model = None

    def decide(self, c):
        """True/False when c is forced on this path, else None"""
        if isinstance(c, (bool, int)):
            return bool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ex = self.ex
        can_t = can_f = None
        if self.model is not None:
            try:
                v = self.model.eval(c, True)
                if z3.is_true(v):
                    can_t = True
                elif z3.is_false(v):
                    can_f = True
            except z3.Z3Exception:
                pass
        if can_t is None:
            r, m = ex.query(self, c, ex.feas_ms, light=True)
            if r == 'unsat':
                return False
            can_t = True
            if m is not None and self.model is None:
                self.model = m
        if can_f is None:
            r, m = ex.query(self, z3.Not(c), ex.feas_ms, light=True)
            if r == 'unsat':
                return True
            if m is not None and self.model is None:
                self.model = m
        return None

    def top(self):
        return self.frames[-1]


class Violation:
    def __init__(self, label, where, inputs, kind='sat', detail=''):
        self.label, self.where, self.inputs, self.kind, self.detail = label, where, inputs, kind, detail


STD_BASES = {
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt12system_error': '_ZTISt13runtime_error',
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt10bad_typeid': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception',
    '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt18bad_variant_access': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt9exception': None,
    '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
}

THROW = re.compile(r'^_ZSt\d+__throw_([a-z_]+?)(?:_fmt)?(PKc|v|i|PKcz|z)+$')


class Exec:
    def __init__(self, mod, mode='prove', unroll=8, feas_ms=3000, ob_ms=20000, deadline=None, log=None,
                 max_bytes=None, max_paths=20000):
        self.m = mod
        self.mode = mode
        self.unroll = unroll
        self.feas_ms = feas_ms
        self.ob_ms = ob_ms
        self.deadline = deadline
        self.next_obj = 16
        self.gobj = {}
        self.gname = {}
        self.violations = []
        self.unknowns = []
        self.limits = []
        self.obligations = 0
        self.by_solver = 0
        self.bounded = []         # loops explored only up to the bound
        self.summarised = {}
        self.sumloops = set()
        self.replaced = set()     # calls checked against the callee's contract
        self.attempts = []        # unrolling attempts with a time limit: (end, owner)
        self.unrolled = {}
        self.entered = {}
        self.covers = {}
        self.fresh_n = 0
        self.paths = 0
        self.steps = 0
        self.qcache = {}
        self.keep = []
        self.assumed = set()
        self.logf = log
        self.sites = {}
        self.max_bytes = max_bytes
        self.max_paths = max_paths
        self.first_only = False
        self.last_states = []
        self.quiet = 0
        self.debug = False
        self.fallback_s = 40
        self.quiet_div = False
        import builtins_vf
        self.bi = builtins_vf.Builtins(self)
        self.base = State(self)
        self.init_globals()

    # ------------------------------------------------------------ helpers
    def fresh(self, w, hint='x'):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (hint, self.fresh_n), w)

    def fresh_arr(self, hint='m'):
        self.fresh_n += 1
        return z3.Array('%s!%d' % (hint, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))

    def fresh_bool(self, hint='b'):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (hint, self.fresh_n))

    def tick(self):
        self.steps += 1
        if self.steps & 255 == 0 and self.deadline and time.time() > self.deadline:
            raise Stop('time budget')

    # ------------------------------------------------------------ solver
    def slice(self, pc, c):
        """conjuncts of pc connected to c by shared symbols"""
        want = set(free_consts(c))
        rest = [(p, free_consts(p)) for p in pc]
        out = []
        changed = True
        while changed:
            changed = False
            nr = []
            for p, f in rest:
                if f & want or not f:
                    out.append(p)
                    if not f <= want:
                        want |= f
                    changed = True
                else:
                    nr.append((p, f))
            rest = nr
        return out

    def query(self, st, c, ms, full=False, light=False):
        pc = st.pc
        if st.qfacts and len(pc) > 24:
            # the conjuncts that share symbols with the condition often suffice
            want = free_consts(c)
            near = [p for p in pc if free_consts(p) & want]
            key = (c.get_id(), tuple(sorted(p.get_id() for p in near)), 'near')
            r = self.qcache.get(key)
            if r is None:
                r = (check(near + [c], 300)[0], c, near)
                self.qcache[key] = r
            if r[0] == 'unsat':
                return r[0], None
        if st.qfacts and light:
            # quick answer: the part of the path condition that shares symbols with the condition
            part = self.slice(pc, c)
            if len(part) < len(pc):
                key = (c.get_id(), tuple(sorted(p.get_id() for p in part)), 'part')
                r = self.qcache.get(key)
                if r is None:
                    r = (check(part + [c], 500)[0], c, part)
                    self.qcache[key] = r
                if r[0] == 'unsat' or r[0] == 'sat' and len(part) < 8 and not any(self.historic(p) for p in part + [c]):
                    return r[0], None
            ms = min(ms, 700)
        if st.qfacts:
            import loops
            pc = pc + loops.instantiate(self, st, pc, [c], light)
        elif not full:
            pc = self.slice(pc, c)
        key = (c.get_id(), tuple(sorted(p.get_id() for p in pc)), full)
        r = self.qcache.get(key)
        if r is not None and not (full and r[0] == 'sat') and not (r[0] == 'unknown' and ms > r[2]):
            return r[0], None
        t1 = time.time()
        res, model = check(list(pc) + [c], ms, self.fb() if ms >= self.ob_ms else 0)
        if self.debug and time.time() - t1 > 1:
            print('       %5.1fs %s %s pc %d inst %d at %s: %s' % (time.time() - t1, res, 'light' if light else 'full' if full else '', len(st.pc), len(pc), self.where(st), str(c)[:100].replace('\n', ' ')), flush=True)
        self.keep.append((c, pc))
        self.qcache[key] = (res, None, ms)
        if res == 'sat' and not full and len(pc) != len(st.pc):
            model = None
        if st.qfacts:
            model = model if full else None
        return res, model

    def historic(self, p):
        return any(x[:2] in ('A!', 'ki', 'N!', 'C!') for x in free_consts(p))

    def fb(self):
        return self.fallback_s if not self.deadline else int(max(0, min(self.fallback_s, self.deadline - time.time())))

    def where(self, st):
        for f in reversed(st.frames):
            if f.fn.file and not f.fn.file.startswith('/usr') and '/model/' not in f.fn.file:
                i = f.fn.blocks[f.block][min(f.ip, len(f.fn.blocks[f.block]) - 1)]
                return '%s:%s in %s' % (f.fn.file, i.get('ln', '?'), f.fn.dem[:80])
        return st.frames[-1].fn.dem[:80] if st.frames else '?'

    def oblige(self, st, cond, label):
        """proof obligation: cond holds on this path"""
        if self.quiet:
            if isinstance(cond, (bool, int)):
                if not cond:
                    raise PathEnd()
                return
            st.assume(cond)
            return
        self.obligations += 1
        key = (label, self.where(st))
        self.sites.setdefault(key, [0, 0])
        self.sites[key][0] += 1
        if isinstance(cond, (bool, int)):
            if cond:
                return
            c = z3.BoolVal(False)
        else:
            c = z3.simplify(cond)
            if z3.is_true(c):
                return
        self.by_solver += 1
        neg = z3.Not(c)
        if st.model is not None and not st.qfacts and z3.is_true(st.model.eval(neg, True)):
            r = 'sat'
        else:
            r, m = self.query(st, neg, self.ob_ms)
        if r == 'unsat':
            st.assume(c)
            return
        if r == 'sat':
            r2, m = self.query(st, neg, self.ob_ms * 2, full=True)
            if r2 == 'unsat':
                st.assume(c)
                return
            if r2 == 'sat' and m is not None:
                m = self.minimise(st, neg, m) if not st.qfacts else m
                self.violations.append(Violation(label, self.where(st), self.inputs(st, m), 'abstract' if st.ghost.get('abstract') else 'sat'))
            else:
                self.unknowns.append((label, self.where(st), 'solver: ' + r2))
        else:
            self.unknowns.append((label, self.where(st), 'solver: ' + r))
        if self.first_only and self.violations:
            raise Stop('violation')
        st.assume(c)

    def minimise(self, st, neg, m):
        """prefer short byte inputs in the counterexample"""
        lens = [e[2] for e in st.log if e[0] == 'b' and not isinstance(e[2], int)]
        if not lens:
            return m
        for b in (0, 1, 2, 4, 8, 16, 64, 300):
            r, m2 = check(st.pc + [neg] + [z3.ULE(l, b) for l in lens], 3000)
            if r == 'sat':
                return m2
        return m

    def inputs(self, st, m):
        out = []
        for e in st.log:
            if e[0] == 'u':
                v = e[2] if isinstance(e[2], int) else m.eval(e[2], True).as_long()
                out.append({'w': e[1], 'v': v})
            elif e[0] == 'b':
                n = e[2] if isinstance(e[2], int) else m.eval(e[2], True).as_long()
                n = min(n, 1 << 16)
                if isinstance(e[1], list):
                    out.append({'b': [x if isinstance(x, int) else m.eval(x, True).as_long() for x in e[1]][:n]})
                    continue
                arr = m.eval(e[1], True)
                out.append({'b': [z3.simplify(z3.Select(arr, z3.BitVecVal(i, 64))).as_long() for i in range(n)]})
        return out

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, kind, name='', mem=None):
        i = self.next_obj
        self.next_obj += 1
        st.objs[i] = Obj(i, size, Content({}, mem if mem is not None else MFresh(self.fresh_arr('u'))), name, kind)
        return Ptr(i, 0)

    def flat_init(self, c, off, ty, cells):
        k = c[0]
        if k == 'agg':
            if ty[0] == 's':
                for j, e in enumerate(c[2]):
                    self.flat_init(e, off + ty[2][j], ty[1][j], cells)
            else:
                for j, e in enumerate(c[2]):
                    self.flat_init(e, off + j * ty[3], ty[2], cells)
            return
        if k in ('zero', 'undef'):
            if ty[0] in ('s', 'a', 'vec', 'opaque'):
                return
            cells[off] = (size_of(ty), 0)
            return
        cells[off] = (size_of(ty), self.const(c))

    def init_globals(self):
        for name in self.m.globals:
            self.gobj[name] = self.next_obj
            self.gname[self.next_obj] = name
            self.next_obj += 1
        for name in self.m.funcs:
            self.gobj[name] = self.next_obj
            self.gname[self.next_obj] = name
            self.next_obj += 1

    def gptr(self, name, off=0):
        if name not in self.gobj:
            self.gobj[name] = self.next_obj
            self.gname[self.next_obj] = name
            self.next_obj += 1
        return Ptr(self.gobj[name], off & mask(64))

    def get_obj(self, st, i):
        o = st.objs.get(i)
        if o is not None:
            return o
        name = self.gname.get(i)
        if name is None:
            return None
        o = self.base.objs.get(i)
        if o is not None:
            return o
        if name in self.m.funcs:
            o = Obj(i, 1, Content({}, MZero()), name, 'func', ro=True)
        else:
            g = self.m.globals.get(name)
            if g is None or g['ext'] or 'init' not in g:
                o = Obj(i, (g or {}).get('size', 8) if (g or {}).get('size') else 4096, Content({}, MFresh(z3.Array('ext!' + name, z3.BitVecSort(64), z3.BitVecSort(8)))), name, 'global')
            else:
                cells = {}
                self.flat_init(g['init'], 0, g['ty'], cells)
                o = Obj(i, g['size'], Content({}, MConst(g['size'], cells)), name, 'global', ro=g['const'])
                if not g['const'] and g['size'] <= 512:
                    # small mutable globals are kept as cells
                    o = Obj(i, g['size'], Content(cells, MZero()), name, 'global')
        self.base.objs[i] = o
        return o

    def resolve(self, st, p, forks):
        """pointer value -> Ptr, or fork. Returns Ptr; appends extra states to forks (re-executing the instruction)"""
        if isinstance(p, Ptr):
            return p
        if isinstance(p, int):
            o = p >> BASE_SHIFT
            if o and (o in st.objs or o in self.gname):
                return Ptr(o, p & ((1 << BASE_SHIFT) - 1))
            return None
        hi = z3.simplify(z3.LShR(p, BASE_SHIFT))
        if z3.is_bv_value(hi):
            o = hi.as_long()
            if o and (o in st.objs or o in self.gname):
                return Ptr(o, fold(p - z3.BitVecVal(o << BASE_SHIFT, 64)))
            return None
        # pick a feasible object and fork on it
        r, m = check(st.pc + [hi == hi], self.feas_ms)
        if m is None:
            raise ToolLimit('cannot resolve a symbolic pointer')
        o = m.eval(hi, True).as_long()
        c = z3.simplify(hi == o)
        other = st.fork()
        try:
            other.assume(z3.Not(c))
            if self.query(other, z3.BoolVal(True), self.feas_ms, full=True)[0] != 'unsat':
                forks.append(other)
        except PathEnd:
            pass
        st.assume(c)
        if len(forks) > 64:
            raise ToolLimit('pointer with too many targets')
        if not o or not (o in st.objs or o in self.gname):
            return None
        return Ptr(o, fold(p - z3.BitVecVal(o << BASE_SHIFT, 64)))

    def deref(self, st, p, n, what, forks, write=False):
        q = self.resolve(st, p, forks)
        if q is None:
            self.oblige(st, False, '%s through a null or invalid pointer' % what)
        o = self.get_obj(st, q.obj)
        if o is None or not o.alive:
            self.oblige(st, False, '%s of released storage' % what)
        if o.kind == 'func':
            self.oblige(st, False, '%s of code' % what)
        if write and o.ro:
            self.oblige(st, False, 'write to a constant')
        if n == 0:
            return q, o
        if isinstance(q.off, int) and isinstance(o.size, int) and isinstance(n, int):
            ok = q.off + n <= o.size
        else:
            off, sz, nn = q.off, o.size, n
            if isinstance(n, int):
                ok = b_and(ule(nn, sz), ule(off, sub(sz, nn)))
            else:
                ok = b_or(eqv(nn, 0), b_and(ule(nn, sz), ule(off, sub(sz, nn))))
        self.oblige(st, ok, '%s inside its object' % what)
        return q, o

    def load(self, st, p, n, forks, what='read'):
        q, o = self.deref(st, p, n, what, forks)
        return mem_read(st, o.content, q.off, n)

    def store(self, st, p, n, v, forks, what='write'):
        q, o = self.deref(st, p, n, what, forks, True)
        st.objs[q.obj] = o.clone(content=mem_write(o.content, q.off, n, v))

    # ------------------------------------------------------------ operands
    def const(self, c):
        k = c[0]
        if k == 'i':
            return int(c[2])
        if k == 'null':
            return 0
        if k == 'g':
            return self.gptr(c[1], c[2])
        if k == 'fp':
            s = {32: z3.Float32(), 64: z3.Float64()}.get(c[1])
            if s is None:
                raise ToolLimit('long double')
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(c[2]), c[1]), s))
        if k == 'undef':
            return self.undef(c[1])
        if k == 'zero':
            return self.zero(c[1])
        if k == 'agg':
            return [self.const(e) for e in c[2]]
        if k == 'ce':
            op, ty, a = c[1], c[2], [self.const(x) for x in c[3]]
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return a[0]
            if op == 'add':
                return add(a[0], a[1], width(ty))
            if op == 'sub':
                return sub(a[0], a[1], width(ty))
        raise ToolLimit('constant %r' % (c,))

    def undef(self, ty):
        if ty[0] == 'i':
            return self.fresh(ty[1], 'undef') if ty[1] > 1 else self.fresh_bool('undef')
        if ty[0] == 'p':
            return 0
        if ty[0] == 's':
            return [self.undef(t) for t in ty[1]]
        if ty[0] == 'a':
            return [self.undef(ty[2]) for _ in range(ty[1])]
        if ty[0] == 'f':
            return z3.fpBVToFP(self.fresh(ty[1]), z3.Float64() if ty[1] == 64 else z3.Float32())
        return 0

    def zero(self, ty):
        if ty[0] == 's':
            return [self.zero(t) for t in ty[1]]
        if ty[0] == 'a':
            return [self.zero(ty[2]) for _ in range(ty[1])]
        if ty[0] == 'f':
            return z3.FPVal(0.0, z3.Float64() if ty[1] == 64 else z3.Float32())
        return 0

    def v(self, st, o):
        if o[0] == 'l':
            return st.frames[-1].regs[o[1]]
        if o[0] == 'i':
            return int(o[2])
        return self.const(o)

    # ------------------------------------------------------------ control flow
    def goto(self, st, target):
        f = st.frames[-1]
        blk = f.fn.blocks[target]
        f.prev = f.block
        vals = []
        for i in blk:
            if i['op'] != 'phi':
                break
            for b, v in i['in']:
                if b == f.prev:
                    vals.append((i['id'], self.v(st, v)))
                    break
            else:
                raise ToolLimit('phi without edge')
        for k, x in vals:
            f.regs[k] = x
        f.block = target
        f.ip = len(vals)

    def call(self, st, fn, args, inst):
        f = Frame(fn)
        if len(args) < len(fn.args):
            raise ToolLimit('call with too few arguments: ' + fn.dem)
        for (aid, aty, byval), a in zip(fn.args, args):
            if byval:
                p = self.new_obj(st, byval, 'stack', 'byval')
                q, o = self.deref(st, a, byval, 'read of argument', [])
                cells = {}
                src = o.content
                st.objs[p.obj] = st.objs[p.obj].clone(content=self.copy_content(st, st.objs[p.obj].content, 0, byval, src, q.off))
                f.allocas = f.allocas + (p.obj,)
                a = p
            f.regs[aid] = a
        f.call = inst
        st.frames.append(f)
        if len(st.frames) > 200:
            raise ToolLimit('recursion too deep')
        if fn.file:
            self.entered.setdefault((fn.file, fn.dem), 0)
            self.entered[(fn.file, fn.dem)] += 1

    def pop_frame(self, st):
        f = st.frames.pop()
        for a in f.allocas:
            st.objs.pop(a, None)
        if st.frames:
            st.frames[-1] = st.frames[-1].copy()
        return f

    def ret(self, st, val):
        f = self.pop_frame(st)
        if not st.frames:
            return 'done'
        self.finish_call(st, f.call, val)
        return None

    def finish_call(self, st, inst, val):
        t = st.frames[-1]
        if inst['ty'][0] != 'v':
            t.regs[inst['id']] = val
        if inst['op'] == 'invoke':
            self.goto_pending(st, inst['n'])
        else:
            t.ip += 1

    def goto_pending(self, st, target):
        st.ghost['goto'] = target

    # ------------------------------------------------------------ exceptions
    def type_chain(self, name, others=None):
        out = []
        while name:
            out.append(name)
            if name in STD_BASES:
                name = STD_BASES[name]
                continue
            g = self.m.globals.get(name)
            if g is None or 'init' not in g:
                break
            init = g['init'][2]
            if len(init) == 3:
                name = init[2][1]
            elif len(init) == 2:
                name = None
            elif init[0][0] == 'g' and init[0][1].startswith('_ZTVN10__cxxabiv121__vmi') and others is not None:
                # the base at offset 0 continues the chain, the others are returned
                nxt = None
                for b, fl in zip(init[4::2], init[5::2]):
                    if int(fl[2]) >> 8 == 0 and not int(fl[2]) & 1:
                        nxt = b[1]
                    else:
                        others.append(b[1])
                name = nxt
            else:
                raise ToolLimit('multiple inheritance in an exception type ' + name)
        return out

    def catch_matches(self, exc, clause):
        if clause[0] == 'null':
            return True
        return clause[1] in self.type_chain(exc)

    def unwind(self, st, depth):
        """st.exc is set; pop frames to the first landing pad. Returns False if it leaves depth"""
        while True:
            if len(st.frames) <= depth:
                return False
            f = st.frames[-1]
            i = f.fn.blocks[f.block][f.ip] if f.ip < len(f.fn.blocks[f.block]) else None
            if i is not None and i['op'] == 'invoke':
                blk = f.fn.blocks[i['u']]
                lp = next(x for x in blk if x['op'] == 'landingpad')
                tn = st.exct[st.exc.obj]
                sel = None
                for kind, cl in lp['cl']:
                    if kind != 'catch':
                        raise ToolLimit('exception filter')
                    if self.catch_matches(tn, cl):
                        sel = self.bi.typeid(cl[1] if cl[0] == 'g' else '')
                        break
                if sel is None and lp['cleanup']:
                    sel = 0
                if sel is not None:
                    st.ghost['lpad'] = [st.exc, sel]
                    st.exc = None
                    self.goto_pending(st, i['u'])
                    return True
            self.pop_frame(st)

    def throw(self, st, ptr, tname):
        st.exct[ptr.obj] = tname
        st.exc = ptr
        if self.logf:
            self.logf('throw %s at %s' % (tname, self.where(st)))

    # ------------------------------------------------------------ main loop
    def run(self, harness):
        """verifies one harness function"""
        st = self.base_state()
        fn = self.m.funcs[harness]
        self.call(st, fn, [], None)
        try:
            out = self.explore([st], 0, None)
        except Stop as e:
            self.limits.append('stopped: %s' % e)
            return
        except ToolLimit as e:
            self.limits.append(str(e))
            return

    def base_state(self):
        if getattr(self, 'ready', None) is None:
            st = State(self)
            g = self.m.globals.get('llvm.global_ctors')
            if g and 'init' in g and g['init'][0] == 'agg':
                for e in g['init'][2]:
                    fn = self.m.funcs[e[2][1][1]]
                    self.call(st, fn, [], None)
                    ends = []
                    self.explore([st], 0, None, ends)
                    if len(ends) != 1:
                        raise ToolLimit('global constructors do not run to one state')
                    st = ends[0]
            for i, o in st.objs.items():
                self.base.objs[i] = o
            st.objs = dict(st.objs)
            self.ready = st
            self.entered = {}
            self.obligations = self.by_solver = 0
            self.sites = {}
            self.paths = 0
        return self.ready.fork()

    def explore(self, work, depth, loop, ends=None):
        """runs states; depth/loop give the region (frame index depth, loop record).
        Returns (exits, backs) for a loop region."""
        exits, backs = [], []
        if ends is None:
            ends = []
        work = list(work)
        while work:
            st = work.pop()
            try:
                while True:
                    if st.exc is not None:
                        if not self.unwind(st, depth):
                            if loop is None:
                                self.oblige_uncaught(st)
                                self.end_path(st)
                                ends.append(st)
                            else:
                                exits.append(st)
                            break
                    tgt = st.ghost.pop('goto', None)
                    if tgt is not None:
                        f = st.frames[-1]
                        src = f.block
                        if loop is not None and len(st.frames) == depth + 1:
                            if tgt == loop['h'] and src in loop['b']:
                                st.ghost['goto'] = tgt
                                backs.append(st)
                                break
                            if tgt not in loop['b']:
                                st.ghost['goto'] = tgt
                                exits.append(st)
                                break
                        l2 = f.fn.loops.get(tgt)
                        if l2 is not None and src not in l2['b']:
                            self.goto(st, tgt)
                            import loops
                            res = loops.run_loop(self, st, l2)
                            work.extend(res)
                            break
                        self.goto(st, tgt)
                        continue
                    if self.attempts and time.time() > self.attempts[0][0]:
                        import loops
                        raise loops.AttemptOver(self.attempts[0][1])
                    r = self.step(st, work)
                    if r is not None:
                        if r == 'done':
                            self.end_path(st)
                            ends.append(st)
                        break
            except PathEnd:
                pass
            if len(work) > self.max_paths:
                raise ToolLimit('too many paths')
        return exits, backs

    def end_path(self, st):
        self.paths += 1
        for c in st.covers:
            self.covers[c] = self.covers.get(c, 0) + 1

    def oblige_uncaught(self, st):
        if self.quiet:
            return
        self.obligations += 1
        r, m = self.query(st, z3.BoolVal(True), self.ob_ms, full=True)
        if r == 'unsat':
            return
        where = st.ghost.get('throw_where', '?')
        lab = 'no unexpected exception escapes (%s)' % st.exct.get(st.exc.obj)
        if m is not None:
            self.violations.append(Violation(lab, where, self.inputs(st, m)))
        else:
            self.unknowns.append((lab, where, r))
        if self.first_only and self.violations:
            raise Stop('violation')

    def branch(self, st, c, work):
        """truth of i1 value c on this path; pushes the other side"""
        if isinstance(c, int):
            return bool(c)
        c = tobool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = st.decide(c)
        if d is not None:
            st.assume(c if d else z3.Not(c))
            return d
        other = st.fork()
        other.assume(z3.Not(c))
        st.assume(c)
        work.append(other)
        other.ghost['branch'] = False
        return None

    def step(self, st, work):
        self.tick()
        f = st.frames[-1]
        i = f.fn.blocks[f.block][f.ip]
        op = i['op']
        h = DISPATCH.get(op)
        if h is None:
            raise ToolLimit('instruction %s in %s' % (op, f.fn.dem))
        return h(self, st, f, i, work)

    # instruction handlers -------------------------------------------------
    def i_br(self, st, f, i, work):
        if 'c' not in i:
            self.goto_pending(st, i['t'])
            return
        if i['t'] == i['f']:
            self.goto_pending(st, i['t'])
            return
        c = self.v(st, i['c'])
        if isinstance(c, int):
            self.goto_pending(st, i['t'] if c else i['f'])
            return
        c = z3.simplify(tobool(c))
        d = st.decide(c)
        if d is not None:
            if not (z3.is_true(c) or z3.is_false(c)):
                st.assume(c if d else z3.Not(c))
            self.goto_pending(st, i['t'] if d else i['f'])
            return
        other = st.fork()
        try:
            other.assume(z3.Not(c))
            other.ghost['goto'] = i['f']
            work.append(other)
        except PathEnd:
            pass
        st.assume(c)
        self.goto_pending(st, i['t'])

    def i_switch(self, st, f, i, work):
        c = self.v(st, i['c'])
        if isinstance(c, int):
            for k, b in i['cases']:
                if int(k[2]) == c:
                    self.goto_pending(st, b)
                    return
            self.goto_pending(st, i['d'])
            return
        groups = {}
        for k, b in i['cases']:
            groups.setdefault(b, []).append(c == z3.BitVecVal(int(k[2]), int(k[1])))
        default = b_and(*[b_not(x) for xs in groups.values() for x in xs])
        first = True
        alts = []
        for b, cs in groups.items():
            if b == i['d']:
                default = b_or(default, *cs)
            else:
                alts.append((b_or(*cs), b))
        alts.append((zb(default), i['d']))
        live = []
        for cond, b in alts:
            if self.query(st, z3.simplify(cond), self.feas_ms)[0] != 'unsat':
                live.append((cond, b))
        if not live:
            raise PathEnd()
        for cond, b in live[1:]:
            o = st.fork()
            try:
                o.assume(cond)
                o.ghost['goto'] = b
                work.append(o)
            except PathEnd:
                pass
        st.assume(live[0][0])
        self.goto_pending(st, live[0][1])

    def i_ret(self, st, f, i, work):
        val = self.v(st, i['a'][0]) if i.get('a') else None
        return self.ret(st, val)

    def i_unreachable(self, st, f, i, work):
        self.oblige(st, False, 'unreachable code is not reached')
        raise PathEnd()

    def i_alloca(self, st, f, i, work):
        n = self.v(st, i['n'])
        if not isinstance(n, int):
            raise ToolLimit('variable length array')
        p = self.new_obj(st, i['sz'] * n, 'stack', f.fn.dem[:40])
        f.allocas = f.allocas + (p.obj,)
        f.regs[i['id']] = p
        f.ip += 1

    def i_load(self, st, f, i, work):
        ty = i['ty']
        n = size_of(ty)
        p = self.v(st, i['p'])
        if ty[0] in ('s', 'a'):
            val = self.load_agg(st, p, ty, work)
        else:
            if ty[0] == 'p':
                p = self.pin(st, p, work)
            val = self.load(st, p, n, work)
            if ty[0] == 'i' and ty[1] != n * 8:
                val = self.trunc(val, n * 8, ty[1])
            elif ty[0] == 'f':
                val = self.to_fp(val, ty[1])
            elif z3.is_expr(val) and z3.is_fp(val):
                val = fold(z3.fpToIEEEBV(val))
        f.regs[i['id']] = val
        f.ip += 1

    def load_agg(self, st, p, ty, work):
        if ty[0] == 's':
            return [self.load_agg(st, add(p, o), t, work) for t, o in zip(ty[1], ty[2])]
        if ty[0] == 'a':
            return [self.load_agg(st, add(p, k * ty[3]), ty[2], work) for k in range(ty[1])]
        v = self.load(st, p, size_of(ty), work)
        if ty[0] == 'f':
            v = self.to_fp(v, ty[1])
        elif ty[0] == 'i' and ty[1] != size_of(ty) * 8:
            v = self.trunc(v, size_of(ty) * 8, ty[1])
        return v

    def to_fp(self, v, w):
        if isinstance(v, z3.ExprRef) and z3.is_fp(v):
            return v
        s = {32: z3.Float32(), 64: z3.Float64()}.get(w)
        if s is None:
            raise ToolLimit('long double')
        return z3.simplify(z3.fpBVToFP(tobv(v, w), s))

    def i_store(self, st, f, i, work):
        ty = i['xt']
        p = self.v(st, i['p'])
        if ty[0] == 'p':
            p = self.pin(st, p, work)
        self.store_val(st, p, ty, self.v(st, i['x']), work)
        f.ip += 1

    def pin(self, st, p, work):
        """case split on the place of a pointer-sized cell chosen by a condition (left or right child)"""
        if not isinstance(p, Ptr) or isinstance(p.off, int):
            return p
        t, c = [p.off], None
        for _ in range(40):
            if not t:
                break
            x = t.pop()
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c = x.arg(0)
                break
            t += x.children()
        if c is None:
            return p
        a = fold(z3.substitute(p.off, (c, z3.BoolVal(True))))
        b = fold(z3.substitute(p.off, (c, z3.BoolVal(False))))
        if not isinstance(a, int) or not isinstance(b, int):
            return p
        d = st.decide(c)
        if d is None:
            other = st.fork()
            try:
                other.assume(z3.Not(c))
                work.append(other)
            except PathEnd:
                pass
            st.assume(c)
            d = True
        return Ptr(p.obj, a if d else b)

    def store_val(self, st, p, ty, v, work):
        if ty[0] == 's':
            for k, (t, o) in enumerate(zip(ty[1], ty[2])):
                self.store_val(st, add(p, o), t, v[k], work)
            return
        if ty[0] == 'a':
            for k in range(ty[1]):
                self.store_val(st, add(p, k * ty[3]), ty[2], v[k], work)
            return
        n = size_of(ty)
        if ty[0] == 'i' and ty[1] != n * 8:
            v = self.zext(v, ty[1], n * 8)
        self.store(st, p, n, v, work)

    def i_gep(self, st, f, i, work):
        p = self.v(st, i['b'])
        p = add(p, i['off'] & mask(64)) if i['off'] else p
        for v, ty, sc in i['v']:
            x = self.v(st, v)
            w = width(ty)
            if w < 64:
                x = self.sext(x, w, 64)
            p = add(p, mul(x, sc & mask(64)))
        f.regs[i['id']] = p
        f.ip += 1

    def trunc(self, a, fw, tw):
        if isinstance(a, Ptr):
            a = tobv(a, 64)
        if isinstance(a, int):
            return a & mask(tw)
        if tw == 1:
            return fold(z3.Extract(0, 0, tobv(a, fw)) == 1)
        return fold(z3.Extract(tw - 1, 0, tobv(a, fw)))

    def zext(self, a, fw, tw):
        if isinstance(a, int):
            return a & mask(fw)
        if fw == 1:
            return fold(z3.If(tobool(a), z3.BitVecVal(1, tw), z3.BitVecVal(0, tw)))
        return fold(z3.ZeroExt(tw - fw, tobv(a, fw)))

    def sext(self, a, fw, tw):
        if isinstance(a, int):
            return sgn(a, fw) & mask(tw)
        if fw == 1:
            return fold(z3.If(tobool(a), z3.BitVecVal(mask(tw), tw), z3.BitVecVal(0, tw)))
        return fold(z3.SignExt(tw - fw, tobv(a, fw)))

    def i_cast(self, st, f, i, work):
        a = self.v(st, i['a'][0])
        op, fw, ty = i['op'], i['ot'], i['ty']
        if op == 'trunc':
            r = self.trunc(a, width(fw), width(ty))
        elif op == 'zext':
            r = self.zext(a, width(fw), width(ty))
        elif op == 'sext':
            r = self.sext(a, width(fw), width(ty))
        elif op in ('ptrtoint', 'inttoptr', 'freeze'):
            r = a
            if op == 'ptrtoint' and width(ty) < 64:
                r = self.trunc(a, 64, width(ty))
        elif op == 'bitcast':
            if fw[0] == 'f' and ty[0] == 'i':
                r = fold(z3.fpToIEEEBV(a))
            elif fw[0] == 'i' and ty[0] == 'f':
                r = self.to_fp(a, ty[1])
            else:
                r = a
        elif op in ('sitofp', 'uitofp'):
            s = self.fs(ty)
            x = tobv(a, width(fw))
            r = z3.simplify(z3.fpSignedToFP(z3.RNE(), x, s) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), x, s))
        elif op in ('fptosi', 'fptoui'):
            x = a
            w = width(ty)
            r = fold(z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(w)))
        elif op in ('fpext', 'fptrunc'):
            r = z3.simplify(z3.fpFPToFP(z3.RNE(), a, self.fs(ty)))
        else:
            raise ToolLimit('cast ' + op)
        f.regs[i['id']] = r
        f.ip += 1

    def fs(self, ty):
        s = {32: z3.Float32(), 64: z3.Float64()}.get(ty[1])
        if s is None:
            raise ToolLimit('long double')
        return s

    def i_bin(self, st, f, i, work):
        a = self.v(st, i['a'][0])
        b = self.v(st, i['a'][1])
        w = width(i['ty'])
        f.regs[i['id']] = self.binop(st, i['op'], a, b, w, i)
        f.ip += 1

    def binop(self, st, op, a, b, w, i=None):
        if op == 'add':
            return add(a, b, w) if w > 1 else self.bool_xor(a, b)
        if op == 'sub':
            return sub(a, b, w) if w > 1 else self.bool_xor(a, b)
        if op == 'mul':
            return mul(a, b, w)
        if isinstance(a, Ptr):
            # alignment style masks
            if op == 'and' and isinstance(b, int) and isinstance(a.off, int) and b < (1 << BASE_SHIFT):
                return a.off & b
            a = tobv(a, 64)
        if isinstance(b, Ptr):
            b = tobv(b, 64)
        if w == 1 and op in ('and', 'or', 'xor'):
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            x, y = tobool(a), tobool(b)
            return fold({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            nz = b_not(eqv(b, 0, w))
            self.oblige(st, nz, 'division by zero')
            if op[0] == 's' and not (isinstance(b, int) and b != mask(w)):
                self.oblige(st, b_not(b_and(eqv(a, 1 << (w - 1), w), eqv(b, mask(w), w))), 'signed division overflow')
        if isinstance(a, int) and isinstance(b, int):
            m = mask(w)
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & m
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            if op == 'srem':
                return (sa - q * sb) & m
        x, y = tobv(a, w), tobv(b, w)
        if op in ('udiv', 'urem') and w >= 16 and isinstance(b, int) and b & (b - 1) and not self.quiet_div:
            # division by a constant: quotient and remainder by their definition, at the width of the operand
            w0, z = w, z3.simplify(x)
            while z3.is_app(z) and z.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(z.arg(0)) and z.arg(0).as_long() == 0:
                z = z.arg(1) if z.num_args() == 2 else z3.Concat(*z.children()[1:])
            if z.size() < w and z.size() > b.bit_length():
                x, w = z, z.size()
            d = self.const_div(st, x, b, w)
            if w < w0:
                d = tuple(z3.ZeroExt(w0 - w, t) for t in d)
            return d[0] if op == 'udiv' else d[1]
        if op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op == 'udiv':
            r = z3.UDiv(x, y)
        elif op == 'urem':
            r = z3.URem(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'srem':
            r = z3.SRem(x, y)
        else:
            raise ToolLimit('binary ' + op)
        return fold(r)

    def const_div(self, st, x, b, w):
        key = (x.get_id(), b, w)
        d = st.divs.get(key)
        if d is not None:
            return d
        self.keep.append(x)
        r = self.fresh(w, 'r')
        org = st.divs.get(('q', x.get_id()))
        if org is not None and org[1] * b <= mask(w):
            # (y / c) / b == y / (c * b)
            q = self.const_div(st, org[0], org[1] * b, w)[0]
        else:
            q = self.fresh(w, 'q')
            st.divs = dict(st.divs)
            st.divs[('q', q.get_id())] = (x, b)
            self.keep.append(q)
        st.pc.append(z3.And(x == q * b + r, z3.ULT(r, b), z3.ULE(q, mask(w) // b), z3.ULE(q * b, x)))
        st.model = None
        st.divs = dict(st.divs)
        st.divs[key] = (q, r)
        return q, r

    def bool_xor(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        return fold(z3.Xor(tobool(a), tobool(b)))

    def i_fbin(self, st, f, i, work):
        a = self.v(st, i['a'][0])
        op = i['op']
        if op == 'fneg':
            r = z3.simplify(z3.fpNeg(a))
        else:
            b = self.v(st, i['a'][1])
            r = z3.simplify({'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](z3.RNE(), a, b)
                            if op != 'frem' else z3.fpRem(a, b))
        f.regs[i['id']] = r
        f.ip += 1

    def i_fcmp(self, st, f, i, work):
        a, b = self.v(st, i['a'][0]), self.v(st, i['a'][1])
        pr = i['pr']
        if pr in ('true', 'false'):
            r = int(pr == 'true')
        else:
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
            if pr == 'ord':
                r = z3.Not(un)
            elif pr == 'uno':
                r = un
            elif pr[1:] == 'ne':
                r = z3.Not(z3.fpEQ(a, b))
                if pr[0] == 'o':
                    r = z3.And(r, z3.Not(un))
            else:
                r = base[pr[1:]](a, b)
                if pr[0] == 'u':
                    r = z3.Or(r, un)
            r = fold(r)
        f.regs[i['id']] = r
        f.ip += 1

    def i_icmp(self, st, f, i, work):
        a, b = self.v(st, i['a'][0]), self.v(st, i['a'][1])
        f.regs[i['id']] = self.icmp(i['pr'], a, b, width(i['ot']))
        f.ip += 1

    def icmp(self, pr, a, b, w):
        if pr in ('eq', 'ne'):
            if w == 1:
                r = fold(tobool(a) == tobool(b))
            else:
                r = eqv(a, b, w)
            if pr == 'ne':
                r = b_not(r) if not (isinstance(r, int) and not isinstance(r, bool)) else not r
            return self.mkbool(r)
        if w == 1:
            a, b = tobv(a, 1), tobv(b, 1)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            a, b = a.off, b.off
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]])
        x, y = tobv(a, w), tobv(b, w)
        r = {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE,
             'sgt': lambda p, q: p > q, 'sge': lambda p, q: p >= q, 'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q}[pr](x, y)
        return self.mkbool(fold(r))

    def mkbool(self, r):
        if isinstance(r, bool):
            return int(r)
        return r

    def i_select(self, st, f, i, work):
        c = self.v(st, i['a'][0])
        a, b = self.v(st, i['a'][1]), self.v(st, i['a'][2])
        ty = i['ty']
        if isinstance(c, int):
            r = a if c else b
        else:
            c = z3.simplify(tobool(c))
            d = True if z3.is_true(c) else False if z3.is_false(c) else None
            if d is not None:
                r = a if d else b
            elif ty[0] == 'f':
                r = z3.If(c, a, b)
            elif ty[0] in ('s', 'a') or ((isinstance(a, Ptr) or isinstance(b, Ptr)) and not
                                         (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj)):
                d = st.decide(c)
                if d is None:
                    o = st.fork()
                    try:
                        o.assume(z3.Not(c))
                        of = o.frames[-1]
                        of.regs[i['id']] = b
                        of.ip += 1
                        work.append(o)
                    except PathEnd:
                        pass
                    st.assume(c)
                    d = True
                r = a if d else b
            else:
                r = ite(c, a, b, width(ty))
        f.regs[i['id']] = r
        f.ip += 1

    def i_extractvalue(self, st, f, i, work):
        v = self.v(st, i['a'][0])
        for k in i['ix']:
            v = v[k]
        f.regs[i['id']] = v
        f.ip += 1

    def i_insertvalue(self, st, f, i, work):
        def ins(v, ix, x):
            v = list(v)
            v[ix[0]] = x if len(ix) == 1 else ins(v[ix[0]], ix[1:], x)
            return v
        f.regs[i['id']] = ins(self.v(st, i['a'][0]), i['ix'], self.v(st, i['a'][1]))
        f.ip += 1

    def i_landingpad(self, st, f, i, work):
        f.regs[i['id']] = st.ghost.pop('lpad')
        f.ip += 1

    def i_resume(self, st, f, i, work):
        v = self.v(st, i['a'][0])
        st.exc = v[0]
        self.pop_frame(st)
        return None if st.frames else self.resume_top(st)

    def resume_top(self, st):
        return None

    def i_fence(self, st, f, i, work):
        f.ip += 1

    def i_atomicrmw(self, st, f, i, work):
        n = size_of(i['ty'])
        p, x = self.v(st, i['a'][0]), self.v(st, i['a'][1])
        old = self.load(st, p, n, work)
        rop = i['rop']
        if rop == 'xchg':
            nv = x
        else:
            nv = self.binop(st, rop, old, x, n * 8)
        self.store(st, p, n, nv, work)
        f.regs[i['id']] = old
        f.ip += 1

    def i_cmpxchg(self, st, f, i, work):
        p, e, x = [self.v(st, a) for a in i['a'][:3]]
        n = size_of(i['ty'][1][0])
        old = self.load(st, p, n, work)
        eq = eqv(old, e, n * 8)
        self.store(st, p, n, ite(eq, x, old, n * 8), work)
        f.regs[i['id']] = [old, self.mkbool(eq)]
        f.ip += 1

    def i_call(self, st, f, i, work):
        args = [self.v(st, a) if a[0] not in ('md', 'asm') else None for a in i['args']]
        callee = i.get('callee')
        if callee is None:
            if i['fn'][0] == 'asm':
                f.ip += 1
                return
            p = self.v(st, i['fn'])
            q = self.resolve(st, p, work)
            if q is None:
                self.oblige(st, False, 'call through a null or invalid pointer')
            callee = self.gname.get(q.obj)
            if callee is None or q.off != 0:
                self.oblige(st, False, 'call through an invalid pointer')
        fn = self.m.funcs.get(callee)
        if 'callees' in st.ghost and fn is not None and not f.fn.file.startswith('contracts'):
            for pre, repl in st.ghost['callees']:
                if fn.dem.startswith(pre):
                    callee = repl
                    self.replaced.add((fn.dem, self.m.funcs[repl].dem))
                    fn = self.m.funcs[repl]
                    break
        b = self.bi.lookup(callee)
        if b is not None and (fn is None or fn.blocks is None or b[1]):
            self.cur = (f, i, work)
            r = b[0](st, i, args, work)
            if r is NotImplemented:
                return None
            if st.exc is not None:
                st.ghost['throw_where'] = self.where(st)
                return None
            self.finish_call(st, i, r)
            return None
        if fn is None or fn.blocks is None:
            raise ToolLimit('no contract for external function %s (%s)' % (callee, fn.dem if fn else ''))
        self.call(st, fn, args, i)
        return None


DISPATCH = {
    'br': Exec.i_br, 'switch': Exec.i_switch, 'ret': Exec.i_ret, 'unreachable': Exec.i_unreachable,
    'alloca': Exec.i_alloca, 'load': Exec.i_load, 'store': Exec.i_store, 'gep': Exec.i_gep,
    'select': Exec.i_select, 'icmp': Exec.i_icmp, 'fcmp': Exec.i_fcmp, 'call': Exec.i_call, 'invoke': Exec.i_call,
    'extractvalue': Exec.i_extractvalue, 'insertvalue': Exec.i_insertvalue, 'landingpad': Exec.i_landingpad,
    'resume': Exec.i_resume, 'fence': Exec.i_fence, 'atomicrmw': Exec.i_atomicrmw, 'cmpxchg': Exec.i_cmpxchg,
}
for o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
    DISPATCH[o] = Exec.i_cast
for o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
    DISPATCH[o] = Exec.i_bin
for o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
    DISPATCH[o] = Exec.i_fbin


def copy_content(self, st, dst, doff, n, src, soff):
    """dst[doff..doff+n) := src[soff..soff+n)"""
    if isinstance(n, int) and n <= 256 and isinstance(doff, int):
        if isinstance(soff, int):
            c = dst
            k = 0
            pend = []
            while k < n:
                cell = src.cells.get(soff + k)
                if cell is not None and k + cell[0] <= n:
                    pend.append((doff + k, cell[0], cell[1]))
                    k += cell[0]
                    continue
                # keep aligned words of constant tables
                done = False
                if cell is None:
                    for sz in (8, 4, 2):
                        if k + sz <= n and isinstance(src.mem, MConst) and not any((soff + k + j) in src.cells for j in range(-15, sz)):
                            cc = src.mem.cells.get(soff + k)
                            if cc is not None and cc[0] == sz:
                                pend.append((doff + k, sz, cc[1]))
                                k += sz
                                done = True
                                break
                if done:
                    continue
                pend.append((doff + k, 1, mem_read(st, src, soff + k, 1)))
                k += 1
            for o, sz, v in pend:
                c = mem_write(c, o, sz, v)
            return c
        if n <= 16:
            c = dst
            vals = [mem_read(st, src, add(soff, k), 1) for k in range(n)]
            for k in range(n):
                c = mem_write(c, doff + k, 1, vals[k])
            return c
    return Content({}, MCopy(dst.flush(), doff, n, src.flush(), soff))


Exec.copy_content = copy_content

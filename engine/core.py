"""Values, memory and solver layer of the VC generator."""
import z3, time, itertools

z3.set_param('model.completion', True)
MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 24, 32, 40, 48, 56, 64, 128)}


def mask(w):
    m = MASK.get(w)
    if m is None:
        m = MASK[w] = (1 << w) - 1
    return m


class ToolLimit(Exception):
    """The verifier cannot express or decide something: never a violation by itself."""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


BASE_SHIFT = 44


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def tobv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, Ptr):
        return simp(z3.BitVecVal(v.obj << BASE_SHIFT, 64) + tobv(v.off, 64))
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_fp(v):
        return z3.fpToIEEEBV(v)
    return v


def tobool(v):
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if z3.is_bool(v):
        return v
    if isinstance(v, Ptr):
        return z3.BoolVal(True)
    return v == 1


def simp(e):
    return z3.simplify(e)


def conc(e):
    """Fold a z3 expression to a Python int when it is a literal."""
    if isinstance(e, (int, Ptr)):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def fold(e):
    if isinstance(e, (int, Ptr, list)):
        return e
    return conc(z3.simplify(e))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- arithmetic

def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, Ptr):
        if isinstance(b, Ptr):
            return fold(tobv(a, 64) + tobv(b, 64))
        return Ptr(a.obj, add(a.off, b))
    if isinstance(b, Ptr):
        return Ptr(b.obj, add(a, b.off))
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return fold(tobv(a, w) + tobv(b, w))


def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj == b.obj:
            return sub(a.off, b.off)
        return fold(tobv(a, 64) - tobv(b, 64))
    if isinstance(a, Ptr):
        return Ptr(a.obj, sub(a.off, b))
    if isinstance(b, int) and b == 0:
        return a
    return fold(tobv(a, w) - tobv(b, w))


def mul(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
        return 0
    return fold(tobv(a, w) * tobv(b, w))


def b_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, (int, bool)):
            if not c:
                return False
            continue
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, (int, bool)):
            if c:
                return True
            continue
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(c):
    if isinstance(c, (int, bool)):
        return not c
    return z3.Not(c)


def zb(c):
    """python/z3 condition -> z3 Bool"""
    if isinstance(c, (bool, int)):
        return z3.BoolVal(bool(c))
    return c


def ite(c, a, b, w):
    if isinstance(c, (bool, int)):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return Ptr(a.obj, ite(c, a.off, b.off, 64))
    if w == 1:
        return fold(z3.If(c, tobool(a), tobool(b)))
    x, y = tobv(a, w), tobv(b, w)
    if x.eq(y):
        return a
    return z3.If(c, x, y)


def eqv(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj == b.obj:
            return eqv(a.off, b.off)
        return False
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        p, q = (a, b) if isinstance(a, Ptr) else (b, a)
        if isinstance(q, int):
            if q >> BASE_SHIFT != p.obj:
                return False
            return eqv(p.off, q - (p.obj << BASE_SHIFT))
    x, y = tobv(a, w), tobv(b, w)
    if z3.is_fp(a) or z3.is_fp(b):
        pass
    if x.eq(y):
        return True
    r = z3.simplify(x == y)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def ult(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    r = z3.simplify(z3.ULT(tobv(a, w), tobv(b, w)))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def ule(a, b, w=64):
    return b_not(ult(b, a, w))


# ---------------------------------------------------------------- memory contents
# A Mem is a persistent chain of layers; it answers byte reads with quantifier-free terms.

class Mem:
    pass


class MZero(Mem):
    pass


class MFresh(Mem):
    """arbitrary contents: byte at o is Select(arr, o)"""

    def __init__(self, arr):
        self.arr = arr


class MDead(MFresh):
    """a local variable outside its lifetime"""


def is_dead(c):
    return not c.cells and isinstance(c.mem, MDead)


class MFun(Mem):
    """contents given by a closure off(BV64)->BV8"""

    def __init__(self, fn):
        self.fn = fn


class MConst(Mem):
    def __init__(self, size, cells):
        self.size = size
        self.cells = cells      # dict off -> (n, val)
        self.flat = None


class MStore(Mem):
    def __init__(self, prev, off, n, val):
        self.prev, self.off, self.n, self.val = prev, off, n, val


class MFill(Mem):
    def __init__(self, prev, off, ln, val):
        self.prev, self.off, self.ln, self.val = prev, off, ln, val


class MCopy(Mem):
    def __init__(self, prev, off, ln, src, srcoff):
        self.prev, self.off, self.ln, self.src, self.srcoff = prev, off, ln, src, srcoff


class MLambda(Mem):
    """bytes o with cond(o) read val(o), others read prev"""

    def __init__(self, prev, cond, val):
        self.prev, self.cond, self.val = prev, cond, val


class Content:
    """cells (concrete offsets) over a layer chain. Immutable."""
    __slots__ = ('cells', 'mem')

    def __init__(self, cells, mem):
        self.cells = cells
        self.mem = mem

    def flush(self):
        if not self.cells:
            return self.mem
        m = self.mem
        for off in sorted(self.cells):
            n, v = self.cells[off]
            m = MStore(m, off, n, v)
        return m


def byte_of(val, n, i):
    """i-th (little endian) byte of an n-byte value"""
    if isinstance(val, int):
        return (val >> (8 * i)) & 0xFF
    if n == 1:
        return val if not z3.is_bool(val) else tobv(val, 8)
    v = tobv(val, 8 * n)
    return fold(z3.Extract(8 * i + 7, 8 * i, v))


def join_bytes(bs):
    """little endian list of byte values -> value"""
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    return fold(z3.Concat(*[tobv(b, 8) for b in reversed(bs)]))


def read_byte(st, mem, o):
    """byte of a layer chain at offset o (int or BV64)"""
    # iterative over prev, building ITEs from the front
    conds = []
    while True:
        if isinstance(mem, MZero):
            r = 0
            break
        if isinstance(mem, MFresh):
            r = z3.Select(mem.arr, tobv(o, 64))
            break
        if isinstance(mem, MFun):
            r = mem.fn(tobv(o, 64))
            break
        if isinstance(mem, MConst):
            r = const_byte(mem, o)
            break
        if isinstance(mem, MStore):
            d = sub(o, mem.off)
            if isinstance(d, int):
                if d < mem.n:
                    r = byte_of(mem.val, mem.n, d)
                    break
                mem = mem.prev
                continue
            c = ult(d, mem.n)
            if c is True or c is False:
                dec = c
            else:
                dec = st.decide(c)
            if dec is False:
                mem = mem.prev
                continue
            if mem.n == 1:
                v = byte_of(mem.val, 1, 0)
            else:
                v = byte_of(mem.val, mem.n, mem.n - 1)
                for i in range(mem.n - 2, -1, -1):
                    v = ite(eqv(d, i), byte_of(mem.val, mem.n, i), v, 8)
            if dec is True:
                r = v
                break
            conds.append((c, v))
            mem = mem.prev
            continue
        if isinstance(mem, MFill):
            d = sub(o, mem.off)
            c = ult(d, mem.ln)
            if not isinstance(c, bool):
                t = st.decide(c)
                if t is not None:
                    c = t
            if c is False:
                mem = mem.prev
                continue
            if c is True:
                r = mem.val
                break
            conds.append((c, mem.val))
            mem = mem.prev
            continue
        if isinstance(mem, MCopy):
            d = sub(o, mem.off)
            c = ult(d, mem.ln)
            if not isinstance(c, bool):
                t = st.decide(c)
                if t is not None:
                    c = t
            if c is False:
                mem = mem.prev
                continue
            v = read_byte(st, mem.src, add(d, mem.srcoff))
            if c is True:
                r = v
                break
            conds.append((c, v))
            mem = mem.prev
            continue
        if isinstance(mem, MLambda):
            c = mem.cond(tobv(o, 64))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
                else:
                    t = st.decide(c)
                    if t is not None:
                        c = t
            if c is False:
                mem = mem.prev
                continue
            v = mem.val(tobv(o, 64))
            if c is True:
                r = v
                break
            conds.append((c, v))
            mem = mem.prev
            continue
        raise ToolLimit('memory layer %r' % mem)
    for c, v in reversed(conds):
        r = ite(c, v, r, 8)
    return r


def const_byte(mem, o):
    if mem.flat is None:
        flat = [0] * mem.size
        for off, (n, v) in mem.cells.items():
            for i in range(n):
                flat[off + i] = byte_of(v, n, i)
        mem.flat = flat
    if isinstance(o, int):
        return mem.flat[o] if o < mem.size else 0
    n = mem.size
    if n > 8192:
        raise ToolLimit('symbolic index into a %d byte constant' % n)
    bits = max(1, (n - 1).bit_length())

    def rec(lo, b):
        if lo >= n:
            return 0
        if b < 0:
            return mem.flat[lo]
        z = rec(lo, b - 1)
        oo = rec(lo | (1 << b), b - 1)
        if isinstance(z, int) and isinstance(oo, int) and z == oo:
            return z
        bit = z3.simplify(z3.Extract(b, b, o))
        if z3.is_bv_value(bit):
            return oo if bit.as_long() else z
        x, y = tobv(oo, 8), tobv(z, 8)
        if x.eq(y):
            return x
        return z3.If(bit == 1, x, y)
    return rec(0, bits - 1)


def mem_read(st, content, off, n):
    cells = content.cells
    if isinstance(off, int):
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        out = []
        for i in range(n):
            b = None
            for back in range(0, 16):
                cc = cells.get(off + i - back)
                if cc is not None:
                    if back < cc[0]:
                        b = byte_of(cc[1], cc[0], back)
                    break
            if b is None:
                b = read_chain(st, content.mem, off + i, 1) if n > 1 else None
            out.append(b)
        if n == 1 and out[0] is None:
            return read_chain(st, content.mem, off, 1)
        if all(x is None for x in out):
            return read_chain(st, content.mem, off, n)
        # try a whole read from the chain when no cell is involved
        if not any(k in cells for k in range(off - 15, off + n)):
            return read_chain(st, content.mem, off, n)
        return join_bytes(out)
    return read_chain(st, content.flush(), off, n)


def read_chain(st, mem, off, n):
    """multi byte read; keeps whole values (and pointers) when a layer matches exactly"""
    if n > 1:
        m = mem
        while True:
            if isinstance(m, MStore):
                d = sub(off, m.off)
                if isinstance(d, int):
                    if d == 0 and m.n == n:
                        return m.val
                    dd = sgn(d, 64)
                    if dd >= m.n or dd <= -n:
                        m = m.prev
                        continue
                break
            if isinstance(m, MCopy):
                d = sub(off, m.off)
                inside = b_and(ult(d, m.ln), ule(add(d, n), m.ln))
                if not isinstance(inside, bool):
                    t = st.decide(zb(inside))
                    inside = t
                if inside is True:
                    return read_content_or_chain(st, m.src, add(d, m.srcoff), n)
                dd = sub(m.off, off)
                outside = b_and(b_not(ult(d, m.ln)), b_not(ult(dd, n)))
                if not isinstance(outside, bool):
                    outside = st.decide(zb(outside))
                if outside is True:
                    m = m.prev
                    continue
                break
            if isinstance(m, MFill):
                d = sub(off, m.off)
                if isinstance(d, int) and isinstance(m.ln, int):
                    dd = sgn(d, 64)
                    if dd >= m.ln or dd <= -n:
                        m = m.prev
                        continue
                break
            if isinstance(m, MConst) and isinstance(off, int):
                c = m.cells.get(off)
                if c is not None and c[0] == n:
                    return c[1]
                break
            if isinstance(m, MConst) and n == 8:
                # table of pointers
                v = const_word(m, off, n)
                if v is not None:
                    return v
            break
    return join_bytes([read_byte(st, mem, add(off, i)) for i in range(n)])


def const_word(m, off, n):
    """symbolic read of an aligned element from a constant table of n-byte elements"""
    o = tobv(off, 64)
    lowbits = n.bit_length() - 1
    if (1 << lowbits) != n:
        return None
    low = z3.simplify(z3.Extract(lowbits - 1, 0, o))
    if not z3.is_bv_value(low) or low.as_long() != 0:
        return None
    cnt = m.size // n
    if cnt > 1024:
        return None
    vals = []
    for i in range(cnt):
        c = m.cells.get(i * n)
        if c is None or c[0] != n:
            return None
        vals.append(tobv(c[1], 8 * n))
    if not vals:
        return None
    r = vals[-1]
    for i in range(cnt - 2, -1, -1):
        r = z3.If(o == i * n, vals[i], r)
    return r


def read_content_or_chain(st, src, off, n):
    if isinstance(src, Content):
        return mem_read(st, src, off, n)
    return read_chain(st, src, off, n)


def mem_write(content, off, n, val):
    if isinstance(off, int):
        cells = dict(content.cells)
        # resolve overlaps
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None:
                continue
            cn, cv = c
            if k + cn <= off or k >= off + n:
                continue
            del cells[k]
            for i in range(cn):
                p = k + i
                if p < off or p >= off + n:
                    cells[p] = (1, byte_of(cv, cn, i))
        cells[off] = (n, val)
        return Content(cells, content.mem)
    return Content({}, MStore(content.flush(), off, n, val))


class Obj:
    __slots__ = ('id', 'size', 'content', 'alive', 'name', 'kind', 'ro')

    def __init__(self, id, size, content, name, kind, alive=True, ro=False):
        self.id, self.size, self.content, self.name, self.kind, self.alive, self.ro = id, size, content, name, kind, alive, ro

    def clone(self, **kw):
        o = Obj(self.id, self.size, self.content, self.name, self.kind, self.alive, self.ro)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


# ---------------------------------------------------------------- solver

class SolverStats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


STATS = SolverStats()


def subterms(es, seen=None):
    seen = set() if seen is None else seen
    stack = list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield e
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())


_vars_cache = {}


def free_consts(e):
    """ids of uninterpreted constants/functions in e"""
    k = e.get_id()
    r = _vars_cache.get(k)
    if r is not None:
        return r[1]
    s = set()
    for t in subterms([e]):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            s.add(t.decl().name())
    _vars_cache[k] = (e, s)
    return s


PORTFOLIO = [
    ('cvc5-int', ['cvc5', '--solve-bv-as-int=sum', '-q']),
    ('z3-new', ['z3-new', '-smt2']),
    ('cvc5', ['cvc5', '-q']),
]
BACKENDS = {'z3': 0}


def portfolio(assertions, timeout_s):
    """other back ends on an undecided query (unsat/unknown only matter)"""
    import os, subprocess, tempfile
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    fd, path = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write('(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', ''))
    procs = []
    try:
        for name, cmd in PORTFOLIO:
            lim = ['--tlimit=%d' % (timeout_s * 1000)] if cmd[0] == 'cvc5' else ['-T:%d' % timeout_s, 'memory_max_size=4000']
            procs.append((name, subprocess.Popen(cmd + lim + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + timeout_s + 5
        left = list(procs)
        while left and time.time() < end:
            for e in list(left):
                if e[1].poll() is not None:
                    left.remove(e)
                    o = e[1].stdout.read().split()
                    if o and o[0] in ('sat', 'unsat'):
                        BACKENDS[e[0]] = BACKENDS.get(e[0], 0) + 1
                        return o[0]
            time.sleep(0.02)
        return 'unknown'
    finally:
        for n, q in procs:
            if q.poll() is None:
                q.kill()
            q.wait()
            q.stdout.close()
        os.unlink(path)


def check(assertions, timeout_ms, fallback=0):
    """sat/unsat/unknown, model"""
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    t0 = time.time()
    for a in assertions:
        s.add(a)
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == z3.sat:
        BACKENDS['z3'] += 1
        return 'sat', s.model()
    if r == z3.unsat:
        BACKENDS['z3'] += 1
        return 'unsat', None
    STATS.unknown += 1
    if fallback:
        r = portfolio(assertions, fallback)
        STATS.time += time.time() - t0
        return r, None
    return 'unknown', None

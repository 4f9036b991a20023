"""Assumed contracts of intrinsics, the C/C++ runtime and the harness primitives (__vf_*)."""
import re
from core import *
from ir import *

NOOP = re.compile(r'^(llvm\.(dbg|assume|experimental\.noalias|prefetch|invariant|var\.annotation|donothing|stackrestore|va_|codeview).*|'
                  r'__cxa_atexit|__cxa_free_exception|pthread_mutex_(lock|unlock|init|destroy)|'
                  r'_ZNSt13runtime_errorD[012]Ev|_ZNSt9exceptionD[012]Ev|_ZNSt11logic_errorD[012]Ev|'
                  r'_ZNSt(12out_of_range|16invalid_argument|12length_error|12domain_error|11range_error|14overflow_error|12system_error|9bad_alloc)D[012]Ev|'
                  r'_ZNSt15basic_streambuf.*D[012]Ev|_ZNSt6localeD1Ev|_ZNSt6localeC1Ev|_ZNSt8ios_base4InitC1Ev|_ZNSt8ios_base4InitD1Ev)$')
EXC_CTOR = re.compile(r'^_ZNSt(13runtime_error|11logic_error|12out_of_range|16invalid_argument|12length_error|12domain_error|11range_error|14overflow_error|15underflow_error)C[12]E.*$')
EXC_ASSIGN = re.compile(r'^_ZNSt(13runtime_error|11logic_error)aSE.*$')
DIES = {'abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual', '__assert_fail', 'llvm.trap', 'llvm.ubsantrap',
        '_ZSt21__glibcxx_assert_failPKciS0_S0_', 'exit', '_exit', 'llvm.debugtrap'}


class Builtins:
    def __init__(self, ex):
        self.ex = ex
        self.tid = {}
        self.cache = {}

    def typeid(self, name):
        if name not in self.tid:
            self.tid[name] = len(self.tid) + 1
        return self.tid[name]

    def lookup(self, name):
        if name in self.cache:
            return self.cache[name]
        r = self._lookup(name)
        self.cache[name] = r
        return r

    def _lookup(self, name):
        import exec as E
        if name.startswith('llvm.ubsantrap'):
            return self.dies, True
        if name in DIES:
            return self.dies, True
        if NOOP.match(name):
            return self.noop, True
        if EXC_CTOR.match(name) or EXC_ASSIGN.match(name):
            return self.exc_ctor, True
        m = E.THROW.match(name)
        if m:
            return self.std_throw(m.group(1)), True
        if name.startswith('llvm.lifetime.'):
            return self.lifetime, True
        if name.startswith('llvm.'):
            base = name[5:]
            for k in sorted(INTR, key=len, reverse=True):
                if base == k or base.startswith(k + '.'):
                    return (lambda st, i, a, w, fn=INTR[k]: fn(self, st, i, a, w)), True
            return None
        fn = getattr(self, 'f_' + name, None)
        if fn is not None:
            return fn, True
        if name in ALIAS:
            return getattr(self, ALIAS[name]), True
        if re.match(r'^_ZNKSt\w*4whatEv$', name) or name == '_ZNKSt9exception4whatEv':
            return self.what, True
        return None

    # ---------------------------------------------------------- generic
    def noop(self, st, i, a, work):
        return None if i['ty'][0] == 'v' else 0

    def lifetime(self, st, i, a, work):
        p = a[-1]
        if isinstance(p, Ptr) and p.off == 0 and p.obj in st.objs:
            o = st.objs[p.obj]
            if o.kind == 'stack' and not is_dead(o.content):
                st.objs[p.obj] = o.clone(content=Content({}, MDead(self.ex.fresh_arr('dead'))))

    def dies(self, st, i, a, work):
        lab = 'the program does not abort'
        if i.get('callee', '').startswith('llvm.ubsantrap'):
            lab = 'no undefined behaviour (%s)' % UBSAN.get(a[0] if a else -1, 'ubsan trap')
        import exec as E
        self.ex.oblige(st, False, lab)
        raise E.PathEnd()

    def exc_ctor(self, st, i, a, work):
        return None if i['ty'][0] == 'v' else a[0]

    def what(self, st, i, a, work):
        p = self.ex.new_obj(st, 1, 'heap', 'what')
        st.objs[p.obj] = st.objs[p.obj].clone(content=Content({0: (1, 0)}, MZero()))
        return p

    def std_throw(self, kind):
        t = {'out_of_range': '12out_of_range', 'length_error': '12length_error', 'logic_error': '11logic_error',
             'invalid_argument': '16invalid_argument', 'bad_alloc': '9bad_alloc', 'runtime_error': '13runtime_error',
             'bad_array_new_length': '20bad_array_new_length', 'bad_function_call': '17bad_function_call',
             'domain_error': '12domain_error', 'range_error': '11range_error', 'system_error': '12system_error',
             'bad_cast': '8bad_cast', 'regex_error': '11regex_error', 'bad_weak_ptr': '12bad_weak_ptr'}
        if kind not in t:
            raise ToolLimit('std::__throw_' + kind)

        def f(st, i, a, work):
            p = self.ex.new_obj(st, 64, 'exc', kind)
            self.ex.throw(st, p, '_ZTISt' + t[kind])
        return f

    # ---------------------------------------------------------- exceptions
    def f___cxa_allocate_exception(self, st, i, a, work):
        return self.ex.new_obj(st, a[0], 'exc', 'exception')

    def f___cxa_throw(self, st, i, a, work):
        self.ex.throw(st, a[0], self.ex.gname[a[1].obj])

    def f___cxa_begin_catch(self, st, i, a, work):
        st.caught.append(a[0])
        return a[0]

    def f___cxa_get_exception_ptr(self, st, i, a, work):
        return a[0]

    def f___cxa_end_catch(self, st, i, a, work):
        if st.caught:
            st.caught.pop()

    def f___cxa_rethrow(self, st, i, a, work):
        if not st.caught:
            raise ToolLimit('rethrow without exception')
        e = st.caught[-1]
        self.ex.throw(st, e, st.exct[e.obj])

    def f___cxa_guard_acquire(self, st, i, a, work):
        v = self.ex.load(st, a[0], 1, work)
        if not isinstance(v, int):
            raise ToolLimit('symbolic guard')
        return 0 if v else 1

    def f___cxa_guard_release(self, st, i, a, work):
        self.ex.store(st, a[0], 1, 1, work)

    def f___cxa_guard_abort(self, st, i, a, work):
        return None

    def f___dynamic_cast(self, st, i, a, work):
        ex = self.ex
        vp = ex.resolve(st, ex.load(st, a[0], 8, work), work)
        vt = ex.get_obj(st, vp.obj)
        top = mem_read(st, vt.content, vp.off - 16, 8)
        ti = mem_read(st, vt.content, vp.off - 8, 8)
        if top != 0:
            raise ToolLimit('dynamic_cast across multiple inheritance')
        dst = ex.gname[a[2].obj]
        others = []
        if dst in ex.type_chain(ex.gname[ti.obj], others):
            return a[0]
        if any(dst in ex.type_chain(o) for o in others):
            raise ToolLimit('dynamic_cast to a base at another offset')
        return 0

    # ---------------------------------------------------------- memory
    def _new(self, st, n):
        ex = self.ex
        if not isinstance(n, int):
            ex.oblige(st, z3.ULT(n, z3.BitVecVal(1 << 42, 64)), 'allocation size is sane')
        return ex.new_obj(st, n, 'heap', 'new')

    def f__Znwm(self, st, i, a, work):
        return self._new(st, a[0])

    f__Znam = f__Znwm

    def f___vf_alloc(self, st, i, a, work):
        return self._new(st, a[0])

    def f___vf_resize(self, st, i, a, work):
        ex = self.ex
        p = ex.resolve(st, a[0], work)
        o = ex.get_obj(st, p.obj) if p is not None else None
        if o is None or not o.alive:
            ex.oblige(st, False, 'container storage is alive')
        if not isinstance(a[1], int):
            ex.oblige(st, z3.ULT(a[1], z3.BitVecVal(1 << 42, 64)), 'allocation size is sane')
        st.objs[p.obj] = o.clone(size=a[1])
        return None

    def _free(self, st, p, work, what):
        ex = self.ex
        if isinstance(p, int) and p == 0:
            return None
        q = ex.resolve(st, p, work)
        if q is None:
            if isinstance(p, int) or st.decide(tobv(p, 64) == 0) is True:
                return None
            ex.oblige(st, False, what + ' of a valid pointer')
        o = ex.get_obj(st, q.obj)
        if o is None or not o.alive or o.kind != 'heap':
            ex.oblige(st, False, what + ' of live heap storage')
        ex.oblige(st, eqv(q.off, 0), what + ' of the start of an allocation')
        st.objs[q.obj] = o.clone(alive=False, content=Content({}, MZero()))
        return None

    def f___vf_free(self, st, i, a, work):
        return self._free(st, a[0], work, 'release')

    def f__ZdlPv(self, st, i, a, work):
        return self._free(st, a[0], work, 'delete')

    f__ZdlPvm = f__ZdaPv = f__ZdaPvm = f__ZdlPv

    def memcpy(self, st, i, a, work):
        self._move(st, a[0], a[1], a[2], work)
        return None if i['ty'][0] == 'v' else a[0]

    f_memcpy = f_memmove = memcpy

    def _move(self, st, d, s, n, work):
        ex = self.ex
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int) and st.decide(n == 0) is True:
            return
        if not isinstance(n, int):
            # a null source is legal when nothing is copied
            if (isinstance(s, int) or isinstance(d, int)):
                ex.oblige(st, n == 0, 'copy through a null pointer')
                return
        sq, so = ex.deref(st, s, n, 'read by copy', work)
        dq, do = ex.deref(st, d, n, 'write by copy', work, True)
        st.objs[dq.obj] = do.clone(content=ex.copy_content(st, do.content, dq.off, n, so.content, sq.off))

    def memset(self, st, i, a, work):
        ex = self.ex
        d, v, n = a[0], a[1], a[2]
        if i.get('callee') == 'memset':
            v = ex.trunc(v, 32, 8)
        if isinstance(n, int) and n == 0:
            return None if i['ty'][0] == 'v' else d
        if not isinstance(n, int) and st.decide(n == 0) is True:
            return None if i['ty'][0] == 'v' else d
        q, o = ex.deref(st, d, n, 'write by fill', work, True)
        if isinstance(n, int) and n <= 4096 and isinstance(q.off, int) and isinstance(o.size, int):
            c = o.content
            if n <= 512:
                k = 0
                while k < n:
                    sz = 8 if n - k >= 8 and (q.off + k) % 8 == 0 else 4 if n - k >= 4 and (q.off + k) % 4 == 0 else 1
                    if not isinstance(v, int):
                        sz = 1
                    val = int.from_bytes(bytes([v] * sz), 'little') if isinstance(v, int) else v
                    c = mem_write(c, q.off + k, sz, val)
                    k += sz
            else:
                c = Content({}, MFill(c.flush(), q.off, n, v))
        else:
            c = Content({}, MFill(o.content.flush(), q.off, n, v))
        st.objs[q.obj] = o.clone(content=c)
        return None if i['ty'][0] == 'v' else d

    f_memset = memset

    def f_strlen(self, st, i, a, work):
        ex = self.ex
        p = ex.resolve(st, a[0], work)
        n = 0
        while True:
            b = ex.load(st, add(p, n), 1, work, 'strlen')
            if isinstance(b, int):
                if b == 0:
                    return n
            else:
                d = st.decide(b == 0)
                if d is True:
                    return n
                if d is None:
                    raise ToolLimit('strlen of an arbitrary string')
            n += 1
            if n > 4096:
                raise ToolLimit('strlen')

    def f_memcmp(self, st, i, a, work):
        ex = self.ex
        n = a[2]
        if isinstance(n, int) and n == 0:
            return 0
        if not isinstance(n, int):
            d = st.decide(n == 0)
            if d is True:
                return 0
        p, po = ex.deref(st, a[0], n, 'read by compare', work)
        q, qo = ex.deref(st, a[1], n, 'read by compare', work)
        if isinstance(n, int) and n <= 64:
            r = 0
            for k in range(n - 1, -1, -1):
                x = mem_read(st, po.content, add(p.off, k), 1)
                y = mem_read(st, qo.content, add(q.off, k), 1)
                e = eqv(x, y, 8)
                if e is True:
                    continue
                lt = ult(x, y, 8)
                r = ite(e, r, ite(lt, mask(32), 1, 32), 32)
            return r
        # contract of memcmp: r is the sign of the first difference
        k = ex.fresh(64, 'memcmp_k')
        r = ex.fresh(32, 'memcmp_r')
        nn = tobv(n, 64)
        s2 = st
        x = tobv(mem_read(s2, po.content, add(p.off, k), 1), 8)
        y = tobv(mem_read(s2, qo.content, add(q.off, k), 1), 8)
        st.assume(z3.Or(z3.And(r == 0, k == nn),
                        z3.And(r == 1, z3.ULT(k, nn), z3.UGT(x, y)),
                        z3.And(r == -1, z3.ULT(k, nn), z3.ULT(x, y))))
        pc, qc = po.content, qo.content
        st.qfacts.append(QFact(z3.BoolVal(True), k, lambda j, st_: tobv(mem_read(st_, pc, add(p.off, j), 1), 8) == tobv(mem_read(st_, qc, add(q.off, j), 1), 8)))
        return r

    f_bcmp = f_memcmp

    def f_memchr(self, st, i, a, work):
        ex = self.ex
        n, c = a[2], fold(z3.Extract(7, 0, tobv(a[1], 32)))
        if isinstance(n, int) and n == 0:
            return 0
        if not isinstance(n, int) and st.decide(n == 0) is True:
            return 0
        p, po = ex.deref(st, a[0], n, 'read by memchr', work)
        if isinstance(n, int) and n <= 64:
            r = 0
            for k in range(n - 1, -1, -1):
                r = ite(eqv(mem_read(st, po.content, add(p.off, k), 1), c, 8), add(p, k), r, 64)
            return r
        k = ex.fresh(64, 'memchr_k')
        nn = tobv(n, 64)
        st.assume(z3.Or(k == nn, z3.And(z3.ULT(k, nn), tobv(mem_read(PlainDecide(st, [z3.ULT(k, nn)]), po.content, add(p.off, k), 1), 8) == tobv(c, 8))))
        pc = po.content
        st.qfacts.append(QFact(z3.BoolVal(True), k, lambda j, st_: tobv(mem_read(st_, pc, add(p.off, j), 1), 8) != tobv(c, 8)))
        return z3.If(k == nn, z3.BitVecVal(0, 64), tobv(add(p, k), 64))

    # ---------------------------------------------------------- numbers
    def f_isdigit(self, st, i, a, work):
        return self._ctype(st, a[0], lambda c: z3.And(z3.UGE(c, 48), z3.ULE(c, 57)))

    def f_isalpha(self, st, i, a, work):
        return self._ctype(st, a[0], lambda c: z3.Or(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), z3.And(z3.UGE(c, 97), z3.ULE(c, 122))))

    def f_isspace(self, st, i, a, work):
        return self._ctype(st, a[0], lambda c: z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13))))

    def _ctype(self, st, c, f):
        # "C" locale; the argument range of the C standard (EOF or unsigned char) is not imposed because glibc
        # accepts -128..255
        x = tobv(c, 32)
        return fold(z3.If(f(x), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

    def f_tolower(self, st, i, a, work):
        x = tobv(a[0], 32)
        return fold(z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x))

    # ---------------------------------------------------------- harness primitives
    def _nd(self, st, w):
        x = self.ex.fresh(w, 'in')
        st.log.append(('u', w, x))
        return x

    def f___vf_u8(self, st, i, a, work):
        return self._nd(st, 8)

    def f___vf_u16(self, st, i, a, work):
        return self._nd(st, 16)

    def f___vf_u32(self, st, i, a, work):
        return self._nd(st, 32)

    def f___vf_u64(self, st, i, a, work):
        return self._nd(st, 64)

    def f___vf_size(self, st, i, a, work):
        x = self._nd(st, 64)
        lim = a[0]
        if self.ex.max_bytes is not None and isinstance(lim, int):
            lim = min(lim, self.ex.max_bytes)
        st.assume(z3.ULE(x, tobv(lim, 64)))
        return x

    def f___vf_index(self, st, i, a, work):
        x = self._nd(st, 64)
        st.indices.append(x)
        return x

    def f___vf_assume(self, st, i, a, work):
        c = a[0]
        import exec as E
        if isinstance(c, int):
            if not c:
                raise E.PathEnd()
            return None
        st.assume(tobool(c))
        if st.model is None and self.ex.query(st, z3.BoolVal(True), self.ex.feas_ms, full=True)[0] == 'unsat':
            raise E.PathEnd()
        return None

    def cstr(self, st, p):
        ex = self.ex
        o = ex.get_obj(st, p.obj)
        s = bytearray()
        k = p.off
        while True:
            b = mem_read(st, o.content, k, 1)
            if not isinstance(b, int) or b == 0:
                break
            s.append(b)
            k += 1
        return s.decode('latin1')

    def f___vf_assert(self, st, i, a, work):
        c = a[0]
        self.ex.oblige(st, bool(c) if isinstance(c, int) else tobool(c), self.cstr(st, a[1]))

    f___vf_require = f___vf_assert

    def f___vf_cover(self, st, i, a, work):
        st.covers.add(self.cstr(st, a[0]))

    def f___vf_bytes(self, st, i, a, work):
        """arbitrary bytes p[0..n)"""
        ex = self.ex
        n = a[1]
        if isinstance(n, int) and n == 0:
            st.log.append(('b', [], 0))
            return None
        if isinstance(n, int) and n <= 64:
            q, o = ex.deref(st, a[0], n, 'write of input', work, True)
            bs = [ex.fresh(8, 'inb') for _ in range(n)]
            st.log.append(('b', bs, n))
            c = o.content
            for k in range(n):
                c = mem_write(c, add(q.off, k), 1, bs[k])
            st.objs[q.obj] = o.clone(content=c)
            return None
        if not isinstance(n, int) and st.decide(n == 0) is True:
            st.log.append(('b', [], 0))
            return None
        q, o = ex.deref(st, a[0], n, 'write of input', work, True)
        arr = ex.fresh_arr('inb')
        st.log.append(('b', arr, n))
        if q.off == 0 and eqv(n, o.size) is True:
            c = Content({}, MFresh(arr))
        else:
            c = Content({}, MCopy(o.content.flush(), q.off, n, MFresh(arr), 0))
        st.objs[q.obj] = o.clone(content=c)
        return None

    def f___vf_havoc(self, st, i, a, work):
        """unlogged arbitrary bytes (result of an abstracted computation)"""
        ex = self.ex
        q, o = ex.deref(st, a[0], a[1], 'havoc', work, True)
        st.objs[q.obj] = o.clone(content=Content({}, MCopy(o.content.flush(), q.off, a[1], MFresh(ex.fresh_arr('h')), 0)))

    def f___vf_digest(self, st, i, a, work):
        """uninterpreted function of (tag, bytes p[0..n)): equal contents give equal results"""
        ex = self.ex
        tag, p, n = a
        n64 = n
        if isinstance(n, int) and n == 0:
            p, cont, off = None, Content({}, MZero()), 0
        else:
            q, o = ex.deref(st, p, n, 'read', work)
            cont, off = o.content, q.off
        r = ex.fresh(64, 'digest')
        for (t2, c2, o2, n2, r2) in st.digests:
            if t2 != tag:
                continue
            if c2 is cont and eqv(o2, off) is True and eqv(n2, n) is True:
                return r2
            ne = b_not(eqv(n, n2))
            if ne is True:
                continue
            if isinstance(n, int) and isinstance(n2, int) and n <= 32:
                same = b_and(*[eqv(mem_read(st, cont, add(off, k), 1), mem_read(st, c2, add(o2, k), 1), 8) for k in range(n)])
                st.assume(zb(b_or(b_not(same), r == r2)))
                continue
            k = ex.fresh(64, 'digest_k')
            # choose k as a witness of a difference
            s3 = st.fork()
            x = tobv(mem_read(PlainDecide(st, [z3.ULT(k, tobv(n, 64))]), cont, add(off, k), 1), 8)
            y = tobv(mem_read(PlainDecide(st, [z3.ULT(k, tobv(n, 64))]), c2, add(o2, k), 1), 8)
            st.assume(z3.Or(zb(ne), z3.And(z3.ULT(k, tobv(n, 64)), x != y), r == r2))
        st.digests.append((tag, cont, off, n, r))
        return r

    def f___vf_any(self, st, i, a, work):
        v = self.ex.fresh(64, 'any')
        st.assume(z3.ULE(v, tobv(a[0], 64)))
        return v

    def f___vf_split(self, st, i, a, work):
        """enumerates the values of a small argument (case split): returns a constant on every path"""
        x = a[0]
        if isinstance(x, int):
            return x
        ex = self.ex
        m = None
        r, m = check(st.pc + [x == x], ex.feas_ms)
        if r == 'unsat':
            import exec as E
            raise E.PathEnd()
        if m is None:
            raise ToolLimit('split')
        val = m.eval(x, True).as_long()
        other = st.fork()
        try:
            other.assume(x != val)
            if ex.query(other, z3.BoolVal(True), ex.feas_ms, full=True)[0] != 'unsat':
                st.ghost['nsplit'] = other.ghost['nsplit'] = st.ghost.get('nsplit', 0) + 1
                if st.ghost['nsplit'] > 4096:
                    raise ToolLimit('split into too many cases')
                work.append(other)
        except Exception as e:
            if type(e).__name__ != 'PathEnd':
                raise
        st.assume(x == val)
        return val

    def f___vf_unroll(self, st, i, a, work):
        st.ghost['unroll'] = a[0]

    def f___vf_callee(self, st, i, a, work):
        ex = self.ex
        name = self.cstr(st, a[0])
        q = ex.resolve(st, a[1], work)
        st.ghost['callees'] = st.ghost.get('callees', ()) + ((name, ex.gname[q.obj]),)

    def f___vf_proving(self, st, i, a, work):
        return 1


class PlainDecide:
    """decide() under extra assumptions"""

    def __init__(self, st, extra):
        self.st, self.extra = st, extra

    def decide(self, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        s = self.st.fork()
        s.model = None
        s.pc = s.pc + self.extra
        return s.decide(c)


class QFact:
    """forall 0 <= j < bound (unsigned), under guard: body(j)"""
    __slots__ = ('guard', 'bound', 'body', 'pats', 'done', 'tag')

    def __init__(self, guard, bound, body, tag=None):
        self.guard, self.bound, self.body = guard, bound, body
        self.pats = None
        self.tag = tag


UBSAN = {0: 'add overflow', 1: 'builtin unreachable', 3: 'division', 6: 'float cast', 8: 'load of an invalid value', 11: 'missing return',
         12: 'mul overflow', 13: 'negation overflow', 16: 'null', 18: 'out of bounds index', 20: 'shift', 21: 'sub overflow', 22: 'type mismatch',
         23: 'alignment'}

ALIAS = {}


def _minmax(op):
    def f(self, st, i, a, work):
        ex = self.ex
        w = width(i['ty'])
        c = ex.icmp(op, a[0], a[1], w)
        return (a[0] if c else a[1]) if isinstance(c, int) else ite(c, a[0], a[1], w)
    return f


def _abs(self, st, i, a, work):
    w = width(i['ty'])
    c = self.ex.icmp('slt', a[0], 0, w)
    n = sub(0, a[0], w)
    return (n if c else a[0]) if isinstance(c, int) else ite(c, n, a[0], w)


def _bswap(self, st, i, a, work):
    w = width(i['ty'])
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    x = tobv(a[0], w)
    return fold(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)]))


def _fsh(left):
    def f(self, st, i, a, work):
        w = width(i['ty'])
        x, y = tobv(a[0], w), tobv(a[1], w)
        s = z3.URem(tobv(a[2], w), z3.BitVecVal(w, w))
        cat = z3.Concat(x, y)
        if left:
            return fold(z3.Extract(2 * w - 1, w, cat << z3.ZeroExt(w, s)))
        return fold(z3.Extract(w - 1, 0, z3.LShR(cat, z3.ZeroExt(w, s))))
    return f


def _ctpop(self, st, i, a, work):
    w = width(i['ty'])
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    x = tobv(a[0], w)
    return fold(sum([z3.ZeroExt(w - 1, z3.Extract(k, k, x)) for k in range(1, w)], z3.ZeroExt(w - 1, z3.Extract(0, 0, x))))


def _ctz(lead):
    def f(self, st, i, a, work):
        w = width(i['ty'])
        x = tobv(a[0], w)
        r = z3.BitVecVal(w, w)
        for k in (range(w) if lead else range(w - 1, -1, -1)):
            r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k if lead else k, w), r)
        return fold(r)
    return f


def _ovf(kind):
    def f(self, st, i, a, work):
        w = width(i['ty'][1][0])
        s = kind[0] == 's'
        x, y = tobv(a[0], w), tobv(a[1], w)
        op = kind[1:]
        if op == 'add':
            r = x + y
            ov = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y))) if s else z3.Not(z3.BVAddNoOverflow(x, y, False))
        elif op == 'sub':
            r = x - y
            ov = z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))) if s else z3.ULT(x, y)
        else:
            r = x * y
            ov = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y))) if s else z3.Not(z3.BVMulNoOverflow(x, y, False))
        return [fold(r), fold(ov)]
    return f


def _sat(kind):
    def f(self, st, i, a, work):
        w = width(i['ty'])
        x, y = tobv(a[0], w), tobv(a[1], w)
        if kind == 'usub':
            return fold(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))
        if kind == 'uadd':
            return fold(z3.If(z3.BVAddNoOverflow(x, y, False), x + y, z3.BitVecVal(mask(w), w)))
        raise ToolLimit('saturating ' + kind)
    return f


def _first(self, st, i, a, work):
    return a[0]


def _fp1(fn):
    return lambda self, st, i, a, work: z3.simplify(fn(a[0]))


INTR = {
    'memcpy': Builtins.memcpy, 'memmove': Builtins.memcpy, 'memset': Builtins.memset,
    'umax': _minmax('ugt'), 'umin': _minmax('ult'), 'smax': _minmax('sgt'), 'smin': _minmax('slt'),
    'abs': _abs, 'bswap': _bswap, 'fshl': _fsh(True), 'fshr': _fsh(False), 'ctpop': _ctpop, 'ctlz': _ctz(True), 'cttz': _ctz(False),
    'sadd.with.overflow': _ovf('sadd'), 'ssub.with.overflow': _ovf('ssub'), 'smul.with.overflow': _ovf('smul'),
    'uadd.with.overflow': _ovf('uadd'), 'usub.with.overflow': _ovf('usub'), 'umul.with.overflow': _ovf('umul'),
    'usub.sat': _sat('usub'), 'uadd.sat': _sat('uadd'), 'expect': _first, 'launder.invariant.group': _first,
    'eh.typeid.for': lambda self, st, i, a, w: self.typeid(self.ex.gname[a[0].obj]) if isinstance(a[0], Ptr) else self.typeid(''),
    'is.constant': lambda self, st, i, a, w: 0, 'objectsize': lambda self, st, i, a, w: mask(64),
    'stacksave': lambda self, st, i, a, w: 0,
    'fabs': _fp1(z3.fpAbs), 'floor': _fp1(lambda x: z3.fpRoundToIntegral(z3.RTN(), x)), 'ceil': _fp1(lambda x: z3.fpRoundToIntegral(z3.RTP(), x)),
    'trunc': _fp1(lambda x: z3.fpRoundToIntegral(z3.RTZ(), x)), 'rint': _fp1(lambda x: z3.fpRoundToIntegral(z3.RNE(), x)),
    'round': _fp1(lambda x: z3.fpRoundToIntegral(z3.RNA(), x)),
    'threadlocal.address': _first,
}

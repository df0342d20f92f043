"""Models of the external functions the encoded code calls (libc, libm, libgfortran) and the harness intrinsics."""
from terms import *
import terms
import machine as MM


def install(m):
    H = m.H
    B = m.builtins
    DI, SI, DX, CX, R8, R9, AX = 5, 4, 1, 2, 36, 37, 0
    X0, X1 = 20, 21

    def ret(v):
        H[AX] = v

    def i32(r):
        v = H[r]
        return v & M32 if type(v) is int else extract(v, 0, 32)

    def ci(v):
        return v if type(v) is int else m.driver.concretize(v)

    # ---- libc
    def malloc():
        ret(m.malloc(H[DI]))
    B['malloc'] = malloc

    def calloc():
        n = ci(mul(H[DI], H[SI], 64))
        a = m.malloc(n)
        r = m.regs[a >> MM.SLOT]
        r.cells = dict.fromkeys(range((n + 3) // 4), 0)
        ret(a)
    B['calloc'] = calloc

    def free():
        m.free(H[DI])
    B['free'] = free

    def realloc():
        a, n = ci(H[DI]), ci(H[SI])
        if a and n == 0:        # glibc: frees
            m.free(a)
            ret(0)
            return
        b = m.malloc(n)
        if a:
            r = m.region(a)
            if r is None or not r.live or r.kind != 'heap':
                raise MM.Fault('bad-realloc', hex(a))
            k = min(n, r.hi)
            m.regs[b >> MM.SLOT].cells = {i: v for i, v in r.cells.items() if i * 4 < k}
            r.live = False
        ret(b)
    B['realloc'] = realloc

    def memcpy():
        d = H[DI]
        m.copy(d, H[SI], H[DX])
        ret(d)
    B['memcpy'] = B['memmove'] = memcpy

    def memset():
        d, c, n = ci(H[DI]), H[SI], ci(H[DX])
        c = c & 255 if type(c) is int else ci(c) & 255
        if n:
            r, off = m.check(d, n, 'write')
            if off & 3 == 0 and n & 3 == 0:
                v = c * 0x01010101
                for q in range(off >> 2, (off + n) >> 2):
                    r.cells[q] = v
            else:
                m.stn(d, n, int.from_bytes(bytes([c]) * n, 'little'))
        ret(d)
    B['memset'] = memset

    def strlen():
        ret(len(m.cstr(ci(H[DI]))))
    B['strlen'] = strlen

    def strcmp():
        a, b = m.cstr(ci(H[DI])), m.cstr(ci(H[SI]))
        ret(0 if a == b else (1 if a > b else -1) & M32)
    B['strcmp'] = strcmp

    def memcmp():
        a, b, n = ci(H[DI]), ci(H[SI]), ci(H[DX])
        x, y = m.ldn(a, n) if n else 0, m.ldn(b, n) if n else 0
        if type(x) is int and type(y) is int:
            xb, yb = x.to_bytes(n, 'little'), y.to_bytes(n, 'little')
            ret(0 if xb == yb else (1 if xb > yb else -1) & M32)
        else:
            ret(0 if m.br(eq(x, y, 8 * n)) else 1)
    B['memcmp'] = memcmp

    def noop0():
        ret(0)
    for n in ('printf', 'puts', 'fputc', 'fputs', 'fprintf', 'fwrite', 'putchar', 'fflush', '__fprintf_chk',
              '__printf_chk', 'getenv',
              'clock_gettime', 'strncpy', 'putc', 'fclose', 'setenv', 'vfprintf', '__vfprintf_chk'):
        B[n] = noop0

    def text(fmt, lim):
        # formatted output: the format itself stands for the text
        def f():
            s = m.cstr(ci(H[fmt]))
            n = len(s)
            if lim is not None:
                k = ci(H[lim])
                s = s[:max(0, k - 1)]
                if k == 0:
                    ret(n)
                    return
            d = ci(H[DI])
            for i, c in enumerate(s.encode() + b"\0"):
                m.stn(d + i, 1, c)
            ret(n)
        return f
    B['sprintf'] = B['vsprintf'] = text(SI, None)
    B['snprintf'] = B['vsnprintf'] = text(DX, SI)
    B['__sprintf_chk'] = B['__vsprintf_chk'] = text(CX, None)
    B['__snprintf_chk'] = B['__vsnprintf_chk'] = text(R8, SI)

    def abort():
        raise MM.Fault('abort', 'near %s' % m.loc)
    B['abort'] = B['__assert_fail'] = abort

    def exit_():
        m.driver.on_stop('exit', ci(i32(DI)))
    B['exit'] = exit_

    # ---- threads: a thread body runs as a whole when somebody waits for it; every order of the waiting threads is explored.
    # What overlapping threads access without a common lock is compared, so that runs of whole bodies stand for every interleaving.
    class ThreadExit(Exception):
        pass

    class Logged(dict):
        __slots__ = ('slot',)

        def get(self, i, d=None):
            note(self.slot, i, 0)
            return dict.get(self, i, d)

        def __getitem__(self, i):
            note(self.slot, i, 0)
            return dict.__getitem__(self, i)

        def __setitem__(self, i, v):
            note(self.slot, i, 1)
            dict.__setitem__(self, i, v)

        def pop(self, i, *d):
            note(self.slot, i, 1)
            return dict.pop(self, i, *d)

    class Thread:
        pass

    def note(slot, i, w):
        t = m.running
        t.log.setdefault((slot, i), (set(), set()))[w].add(t.locks)

    def pthread_create():
        t = Thread()
        m.clock += 1
        t.birth, t.death, t.fn, t.arg, t.ran, t.log, t.locks = m.clock, None, ci(H[DX]), H[CX], False, {}, frozenset()
        k = max(m.threads, default=0) + 1
        m.threads[k] = t
        m.st8(H[DI], k)
        ret(0)
    B['pthread_create'] = pthread_create

    def run_thread(t):
        if m.running is not None:
            raise MM.EngineUnsupported('a thread waits for another thread')
        t.ran = True
        sp, d, hs = H[7], m.depth, list(H)
        H[DI] = t.arg
        wrapped = []
        for slot, r in m.regs.items():
            if r.live:
                c = Logged(r.cells)
                c.slot = slot
                r.cells = c
                wrapped.append(r)
        m.running = t
        try:
            m.callptr(t.fn)
        except ThreadExit:
            pass
        finally:
            m.running = None
            for r in wrapped:
                r.cells = dict(r.cells)
        if t.locks:
            raise MM.Fault('deadlock', 'a thread ends and still holds a lock')
        for u in m.done:
            if (u.death is None or u.death > t.birth) and (t.death is None or t.death > u.birth):
                a, b = (t.log, u.log) if len(t.log) < len(u.log) else (u.log, t.log)
                for q, (r1, w1) in a.items():
                    if q in b:
                        r2, w2 = b[q]
                        if any(not (x & y) for x in w1 for y in r2 | w2) or any(not (x & y) for x in r1 for y in w2):
                            g = m.regs.get(q[0])
                            raise MM.Fault('data race', 'two threads access offset %d of object %s without a common lock' % (4 * q[1], g.name if g else '?'))
        m.done.append(t)
        H[:] = hs
        H[7], m.depth = sp, d

    def pthread_join():
        k = ci(H[DI])
        if k not in m.threads:
            raise MM.Fault('join', 'pthread_join on an unknown thread')
        while not m.threads[k].ran:
            w = [e for e in sorted(m.threads) if not m.threads[e].ran]
            run_thread(m.threads[w[0] if len(w) == 1 else m.driver.choose(w)])
        m.clock += 1
        m.threads[k].death = m.clock
        del m.threads[k]
        if not m.threads:
            m.done.clear()
        ret(0)
    B['pthread_join'] = pthread_join

    def pthread_exit():
        raise ThreadExit()
    B['pthread_exit'] = pthread_exit

    def mutex_lock():
        t, a = m.running, H[DI]
        if t is not None:
            if a in t.locks:
                raise MM.Fault('deadlock', 'a thread locks a mutex it holds')
            t.locks |= {a}
        ret(0)
    B['pthread_mutex_lock'] = mutex_lock

    def mutex_unlock():
        if m.running is not None:
            m.running.locks -= {H[DI]}
        ret(0)
    B['pthread_mutex_unlock'] = mutex_unlock
    for n in ('attr_init', 'attr_destroy', 'attr_setdetachstate', 'mutex_init', 'mutex_destroy'):
        B['pthread_' + n] = lambda: ret(0)

    # ---- libm
    def mk1(n):
        def f():
            H[X0] = call_libm(n, H[X0])
        return f

    def mk2(n):
        def f():
            H[X0] = call_libm(n, H[X0], H[X1])
        return f
    for n in terms.UN:
        B[n] = mk1(n)
    for n in terms.BIN:
        B[n] = mk2(n)

    def sincos():
        m.st8(H[DI], call_libm('sin', H[X0]))
        m.st8(H[SI], call_libm('cos', H[X0]))
    B['sincos'] = sincos

    def powidf2():
        n = ci(i32(DI))
        n = n - (1 << 32) if n >> 31 else n
        x, k = H[X0], abs(n)
        y = x if k & 1 else f2b(1.0)
        k >>= 1
        while k:
            x = fmul(x, x)
            if k & 1:
                y = fmul(y, x)
            k >>= 1
        H[X0] = fdiv(f2b(1.0), y) if n < 0 else y
    B['__powidf2'] = powidf2

    def fabs_():
        H[X0] = fabs(H[X0])
    B['fabs'] = fabs_

    # ---- libgfortran
    def runtime_error(kind):
        def f():
            raise MM.Fault(kind, 'near %s' % m.loc)
        return f

    def rte_at():
        w = m.cstr(ci(H[DI]))
        s = m.cstr(ci(H[SI]))
        raise MM.Fault('runtime-error', '%s: %s' % (w, s))
    B['_gfortran_runtime_error_at'] = rte_at
    B['_gfortran_runtime_error'] = runtime_error('runtime-error')
    B['_gfortran_os_error_at'] = runtime_error('os-error')
    B['_gfortran_os_error'] = runtime_error('os-error')

    def stop_numeric():
        m.driver.on_stop('stop', ci(i32(DI)))
    B['_gfortran_stop_numeric'] = stop_numeric

    def stop_string():
        m.driver.on_stop('stop', 0)
    B['_gfortran_stop_string'] = stop_string

    def error_stop():
        m.driver.on_stop('error stop', 1)
    B['_gfortran_error_stop_string'] = error_stop
    B['_gfortran_error_stop_numeric'] = error_stop
    for n in ('_gfortran_st_write', '_gfortran_st_write_done', '_gfortran_transfer_integer_write', '_gfortran_transfer_character_write',
              '_gfortran_transfer_real_write', '_gfortran_transfer_logical_write', '_gfortran_set_args', '_gfortran_set_options',
              '_gfortran_transfer_array_write', '_gfortran_transfer_derived_write', '_gfortran_flush_i4'):
        B[n] = noop0

    def desc(a):
        """gfortran array descriptor"""
        base = ci(m.ld8(a))
        off = ci(m.ld8(a + 8))
        el = ci(m.ld8(a + 16))
        rank = ci(m.ldn(a + 28, 1))
        dims = []
        for d in range(rank):
            q = a + 40 + 24 * d
            dims.append((sx(ci(m.ld8(q)), 64), sx(ci(m.ld8(q + 8)), 64), sx(ci(m.ld8(q + 16)), 64)))
        return base, sx(off, 64), el, rank, dims

    def ext(d):
        return max(0, d[2] - d[1] + 1)

    def matmul_r8():
        r, a, b = ci(H[DI]), ci(H[SI]), ci(H[DX])
        ab, ao, ae, ar, ad = desc(a)
        bb, bo, be, br_, bd = desc(b)
        if ar == 2:
            n, k = ext(ad[0]), ext(ad[1])
        else:
            n, k = 1, ext(ad[0])
        k2 = ext(bd[0])
        mm = ext(bd[1]) if br_ == 2 else 1
        if k != k2:
            raise MM.Fault('runtime-error', 'matmul shapes')
        rb, ro, re_, rr, rd = desc(r)
        if rb == 0:
            raise MM.EngineUnsupported('matmul into unallocated result')
        for j in range(mm):
            for i in range(n):
                s = 0
                for q in range(k):
                    pa = ab + 8 * ((i * ad[0][0] + q * ad[1][0]) if ar == 2 else q * ad[0][0])
                    pb = bb + 8 * (q * bd[0][0] + (j * bd[1][0] if br_ == 2 else 0))
                    s = fadd(s, fmul(m.ld8(pa), m.ld8(pb)))
                if rr == 2:
                    pr = rb + 8 * (i * rd[0][0] + j * rd[1][0])
                else:
                    pr = rb + 8 * ((i if ar == 2 else j) * rd[0][0])
                m.st8(pr, s)
    B['_gfortran_matmul_r8'] = matmul_r8

    def size0():
        base, off, el, rank, dims = desc(ci(H[DI]))
        n = 1
        for d in dims:
            n *= ext(d)
        ret(n)
    B['_gfortran_size0'] = size0

    def shape_4():
        r, a = ci(H[DI]), ci(H[SI])
        base, off, el, rank, dims = desc(a)
        rb = ci(m.ld8(r))
        if rb == 0:
            rb = m.malloc(4 * rank)
            m.st8(r, rb)
            m.st8(r + 8, 0)
            m.st8(r + 40, 1)
            m.st8(r + 48, 0)
            m.st8(r + 56, rank - 1)
        st = ci(m.ld8(r + 40))
        for i, d in enumerate(dims):
            m.st4(rb + 4 * i * st, ext(d))
    B['_gfortran_shape_4'] = shape_4

    def internal_pack():
        a = ci(H[DI])
        base, off, el, rank, dims = desc(a)
        n = 1
        packed = True
        for d in dims:
            if d[0] != n:
                packed = False
            n *= ext(d)
        if n == 0 or packed:
            ret(base)
            return
        p = m.malloc(n * el)
        idx = [0] * rank
        q = p
        while True:
            m.copy(q, base + el * sum(i * d[0] for i, d in zip(idx, dims)), el)
            q += el
            k = 0
            while k < rank:
                idx[k] += 1
                if idx[k] < ext(dims[k]):
                    break
                idx[k] = 0
                k += 1
            if k == rank:
                break
        ret(p)
    B['_gfortran_internal_pack'] = internal_pack

    def internal_unpack():
        a, src = ci(H[DI]), ci(H[SI])
        base, off, el, rank, dims = desc(a)
        if src == base or src == 0:
            return
        idx = [0] * rank
        q = src
        if any(ext(d) == 0 for d in dims):
            return
        while True:
            m.copy(base + el * sum(i * d[0] for i, d in zip(idx, dims)), q, el)
            q += el
            k = 0
            while k < rank:
                idx[k] += 1
                if idx[k] < ext(dims[k]):
                    break
                idx[k] = 0
                k += 1
            if k == rank:
                break
    B['_gfortran_internal_unpack'] = internal_unpack

    # ---- harness intrinsics (bind(C), by value unless noted)
    def vp_real():
        H[X0] = m.driver.new_real(b2f(H[X0]), b2f(H[X1]))
    B['vp_real'] = vp_real

    def vp_any():
        H[X0] = m.driver.new_real()
    B['vp_any'] = vp_any

    def vp_int():
        ret(m.driver.new_int(sx(ci(i32(DI)), 32), sx(ci(i32(SI)), 32)) & M32)
    B['vp_int'] = vp_int

    def vp_assume():
        c = i32(DI)
        m.driver.assume(bnot(eq(c, 0, 32)))
    B['vp_assume'] = vp_assume

    def name():
        return m.ldn(ci(H[DI]), ci(i32(SI))).to_bytes(ci(i32(SI)), 'little').decode()

    def vp_true():
        m.driver.check_true(name(), bnot(eq(i32(DX), 0, 32)))
    B['vp_true'] = vp_true

    def vp_bits():
        m.driver.check_bits(name(), H[X0], H[X1])
    B['vp_bits'] = vp_bits

    def vp_near():
        m.driver.check_near(name(), H[X0], H[X1], H[X1 + 1])
    B['vp_near'] = vp_near

    def vp_inteq():
        m.driver.check_int(name(), i32(DX), i32(CX))
    B['vp_inteq'] = vp_inteq

    def vp_expect_stop():
        m.driver.expect_stop = True
    B['vp_expect_stop'] = vp_expect_stop

    def vp_unknown():
        H[X0] = m.driver.new_real()
    B['vp_unknown'] = vp_unknown

    def vp_heap():
        ret(len(m.live_heap()))
    B['vp_heap'] = vp_heap

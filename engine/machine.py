"""The symbolic machine: memory, calls, forking by re-execution."""
import os, sys, glob, struct, ctypes
import terms
from terms import *
import rtl
from codegen import Gen, Unsupported

sys.setrecursionlimit(20000)
SLOT = 24
SLOTM = (1 << SLOT) - 1


class PathEnd(Exception):
    """the current path stops here (assumption failed, expected stop, ...)"""


class Fault(Exception):
    """memory error / trap / runtime error on the current path"""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class Limit(Exception):
    pass


class EngineUnsupported(Exception):
    pass


class Region:
    __slots__ = ('cells', 'lo', 'hi', 'live', 'name', 'kind', 'ro')

    def __init__(self, name, size, kind, cells=None):
        self.cells = {} if cells is None else cells
        self.lo, self.hi = 0, size
        self.live = True
        self.name = name
        self.kind = kind


# -------------------------------------------------------------------------------- program image
class Program:
    """parsed RTL and static data of one symbolic build"""

    def __init__(self, root):
        self.root = root
        self.units = {}          # unit -> {asm: Func}
        self.glob = {}           # asm -> Func
        self.data = {}           # unit -> {name: DataSym}
        self.gdata = {}
        self.aliases = {}
        self.addr = {}           # ('d', unit/None, name) -> address
        self.fn_at = {}
        self.by_slot = {}
        self.nslot = 16
        for f in sorted(glob.glob(root + '/*.expand')):
            base = f[:f.index('.245r') if '.245r' in f else f.rindex('.', 0, f.rindex('.'))]
            unit = os.path.basename(base)
            fs = rtl.load_expand(f, unit)
            sfile = base + '.s'
            if not os.path.exists(sfile):
                continue
            d, al = rtl.load_asm_data(sfile, unit)
            self.units[unit] = fs
            self.data[unit] = d
            self.aliases[unit] = al
            for n, fn in fs.items():
                self.glob.setdefault(n, fn)
            for n, o in d.items():
                if o.glob:
                    if n not in self.gdata or o.size > self.gdata[n].size or any(o.bytes):
                        self.gdata[n] = o
        self.init_cells = {}     # slot -> (name, size, cells)
        self.extern = {}
        self._fnslot = 1 << 30

    def find_func(self, unit, name):
        fs = self.units.get(unit)
        if fs and name in fs:
            return fs[name]
        al = self.aliases.get(unit, {}).get(name)
        if al:
            return self.find_func(unit, al)
        return self.glob.get(name)

    def func_addr(self, key, fn):
        a = self.addr.get(key)
        if a is None:
            self._fnslot += 16
            a = (0x7f0 << 32) + self._fnslot
            self.addr[key] = a
            self.fn_at[a] = fn
        return a

    def symaddr(self, unit, name):
        d = self.data.get(unit, {}).get(name)
        if d is None:
            fn = self.find_func(unit, name)
            if fn is not None:
                return self.func_addr(('f', fn.unit, fn.asm), fn)
            d = self.gdata.get(name)
        if d is not None and not d.glob:
            pass
        elif d is not None:
            d = self.gdata.get(name, d)
        if d is None and name.startswith('.LC'):
            d = self.pool_const(unit, name)
        if d is None:
            if name in ('stderr', 'stdout'):
                return self.extern_data(name, 8)
            return self.func_addr(('x', name), name)
        if d.addr is None:
            self.place(d)
        return d.addr

    def pool_const(self, unit, name):
        """a constant-pool entry the assembler output no longer needs (0.0, -0.0): its value is in a REG_EQUAL note"""
        import re
        pat = re.compile(r'\(mem[^ ]*:(\w+) \(symbol_ref[^ ]* \("\*%s"\)[^\n]*\n\s*\(expr_list:REG_EQUAL \(const_double:DF (\S+) ' %
                         re.escape(name))
        # the note of the instruction that copies the loaded register
        pat2 = re.compile(r'\(set \(reg:(DF) (?P<r>\d+)[^)]*\)\n\s*\(mem[^ ]*:DF \(symbol_ref[^ ]* \("\*%s"\)[^\n]*\n\s*\(nil\)\)\n\(insn [^\n]*\n'
                          r'\s*\(reg:DF (?P=r)[^\n]*\n\s*\(expr_list:REG_EQUAL \(const_double:DF (\S+) ' % re.escape(name))
        for fn in self.units[unit].values():
            mm = pat.search(fn.text) or pat2.search(fn.text)
            if mm:
                d = rtl.DataSym(name, unit)
                d.bytes = bytearray(struct.pack('<d', float(mm.group(mm.lastindex))))
                d.size = 8
                self.data[unit][name] = d
                return d
        raise EngineUnsupported('constant pool entry %s of %s' % (name, unit))

    def extern_data(self, name, size):
        a = self.addr.get(('e', name))
        if a is None:
            self.nslot += 1
            a = self.nslot << SLOT
            self.addr[('e', name)] = a
            self.init_cells[self.nslot] = (name, size, {0: 0x1000 + self.nslot, 1: 0})
        return a

    def place(self, d):
        self.nslot += 1
        slot = self.nslot
        d.addr = slot << SLOT
        b = bytes(d.bytes) + bytes(-len(d.bytes) % 4)
        cells = dict(enumerate(struct.unpack('<%dI' % (len(b) // 4), b)))
        self.init_cells[slot] = (d.name, max(d.size, 1), cells)
        for off, sym, addend, n in d.relocs:
            if addend is None:
                continue
            a = self.symaddr(d.unit, sym) + addend
            if n == 8:
                cells[off >> 2] = a & M32
                cells[(off >> 2) + 1] = a >> 32
            else:
                cells[off >> 2] = a & M32


# -------------------------------------------------------------------------------- machine
class Machine:
    def __init__(self, prog, cfg=None):
        self.prog = prog
        self.H = [0] * 80
        self.pyfn = {}
        self.builtins = {}
        self.max_steps = 20_000_000
        self.max_depth = 400
        self.funcs_used = set()
        self.total_steps = 0
        self.loc = None
        import builtins_ as BI
        BI.install(self)
        self.ns = self.make_ns()

    def symaddr(self, unit, name):
        return self.prog.symaddr(unit, name)

    # ------------------------------------------------------------ per-path reset
    def start(self, driver):
        self.driver = driver
        self.br = driver.branch
        self.regs = {}
        for slot, (name, size, cells) in self.prog.init_cells.items():
            self.regs[slot] = Region(name, size, 'global', dict(cells))
        self._shadow_slots = set(self.prog.init_cells)
        self.nextslot = 1 << 20
        self.nextframe = 1 << 21
        self.freeframes = []
        self.steps = 0
        self.depth = 0
        self.threads = {}
        self.running = None      # the thread whose body is running
        self.done = []           # threads that ran and may still overlap with others
        self.clock = 0
        self.nun = 0
        self.uninit_log = {}
        self.H[:] = [0] * 80
        self.stack_base(self.alloc_frame())
        self.errno = 0

    def stack_base(self, slot):
        self.H[7] = (slot << SLOT) + 0x800000

    def alloc_frame(self):
        if self.freeframes:
            s = self.freeframes.pop()
        else:
            self.nextframe += 1
            s = self.nextframe
        r = Region('frame', 0xf00000, 'stack')
        self.regs[s] = r
        return s

    def enter(self, name, S, L):
        self.depth += 1
        if self.depth > self.max_depth:
            raise Limit('call depth')
        s = self.alloc_frame()
        vsv = (s << SLOT) + 0xc00000
        self.H[7] = vsv - L
        return vsv

    def leave(self, S):
        s = self.H[7] >> SLOT if type(self.H[7]) is int else None
        self.depth -= 1
        if s is not None and s >= (1 << 21):
            self.regs.pop(s, None)
            self.freeframes.append(s)
        self.H[7] = S

    def predec(self, n):
        self.H[7] -= n
        return self.H[7]

    def setsp(self, v):
        if type(v) is not int:
            v = self.driver.concretize(v)
        return v

    def tick(self):
        if self.steps > self.max_steps:
            raise Limit('steps')

    def trap(self):
        raise Fault('trap', 'trap instruction reached')

    def unreachable(self):
        raise Fault('unreachable', 'control reaches a barrier')

    def unsupported(self, msg):
        raise EngineUnsupported(msg)

    # ------------------------------------------------------------ memory
    def region(self, a):
        r = self.regs.get(a >> SLOT)
        if r is None:
            ic = self.prog.init_cells.get(a >> SLOT)
            if ic is not None:       # placed after the path started
                r = Region(ic[0], ic[1], 'global', dict(ic[2]))
                self.regs[a >> SLOT] = r
                return r
        return r

    def check(self, a, n, what):
        if type(a) is not int:
            raise Exception('symbolic address')
        r = self.region(a)
        if r is None:
            raise Fault('segv', '%s of %d bytes at 0x%x (no object) near %s' % (what, n, a, self.loc))
        off = a & SLOTM
        if not r.live:
            raise Fault('use-after-free', '%s of %d bytes in freed object %s near %s' % (what, n, r.name, self.loc))
        if off + n > r.hi or off < r.lo:
            raise Fault('out-of-bounds', '%s of %d bytes at offset %d of object %s (size %d) near %s' %
                        (what, n, off, r.name, r.hi, self.loc))
        return r, off

    def uninit(self, r, i):
        self.nun += 1
        nm = 'uninit_%s_%d_%d' % (r.name, i, self.nun)
        t = ivar(nm, 32)
        self.uninit_log[nm] = (r.name, i)
        r.cells[i] = t
        return t

    def make_ns(self):
        m = self
        SL, SM = SLOT, SLOTM

        def ld8(a):
            if type(a) is not int:
                a = m.driver.concretize(a)
            r = m.regs.get(a >> SL)
            off = a & SM
            if r is None or not r.live or off + 8 > r.hi:
                r, off = m.check(a, 8, 'read')
            if off & 3:
                return ldn(a, 8)
            c = r.cells
            i = off >> 2
            lo = c.get(i)
            if lo is None:
                lo = m.uninit(r, i)
            hi = c.get(i + 1)
            if hi is None:
                hi = m.uninit(r, i + 1)
            if type(lo) is int and type(hi) is int:
                return lo | hi << 32
            return cat([(lo, 32), (hi, 32)])

        def ld4(a):
            if type(a) is not int:
                a = m.driver.concretize(a)
            r = m.regs.get(a >> SL)
            off = a & SM
            if r is None or not r.live or off + 4 > r.hi:
                r, off = m.check(a, 4, 'read')
            if off & 3:
                return ldn(a, 4)
            lo = r.cells.get(off >> 2)
            if lo is None:
                lo = m.uninit(r, off >> 2)
            return lo

        def ldn(a, n):
            if type(a) is not int:
                a = m.driver.concretize(a)
            r, off = m.check(a, n, 'read')
            parts = []
            k = 0
            while k < n:
                i, b = (off + k) >> 2, (off + k) & 3
                take = min(4 - b, n - k)
                v = r.cells.get(i)
                if v is None:
                    v = m.uninit(r, i)
                parts.append((extract(v, 8 * b, 8 * take) if take < 4 else v, 8 * take))
                k += take
            return cat(parts)

        def st8(a, v):
            if type(a) is not int:
                a = m.driver.concretize(a)
            r = m.regs.get(a >> SL)
            off = a & SM
            if r is None or not r.live or off + 8 > r.hi:
                r, off = m.check(a, 8, 'write')
            if off & 3:
                return stn(a, 8, v)
            c = r.cells
            i = off >> 2
            if type(v) is int:
                c[i] = v & M32
                c[i + 1] = v >> 32
            else:
                c[i] = extract(v, 0, 32)
                c[i + 1] = extract(v, 32, 32)

        def st4(a, v):
            if type(a) is not int:
                a = m.driver.concretize(a)
            r = m.regs.get(a >> SL)
            off = a & SM
            if r is None or not r.live or off + 4 > r.hi:
                r, off = m.check(a, 4, 'write')
            if off & 3:
                return stn(a, 4, v)
            r.cells[off >> 2] = v

        def stn(a, n, v):
            if type(a) is not int:
                a = m.driver.concretize(a)
            r, off = m.check(a, n, 'write')
            k = 0
            while k < n:
                i, b = (off + k) >> 2, (off + k) & 3
                take = min(4 - b, n - k)
                x = extract(v, 8 * k, 8 * take)
                if take == 4:
                    r.cells[i] = x
                else:
                    old = r.cells.get(i)
                    if old is None:
                        # bytes past the end of the object are never read back
                        old = m.uninit(r, i) if i * 4 + 4 <= r.hi else 0
                    r.cells[i] = insert(old, 32, 8 * b, 8 * take, x)
                k += take

        def insert(old, w, lo, n, v):
            if old is None:
                old = 0
            parts = []
            if lo:
                parts.append((extract(old, 0, lo), lo))
            parts.append((extract(v, 0, n), n))
            if lo + n < w:
                parts.append((extract(old, lo + n, w - lo - n), w - lo - n))
            return cat(parts)

        def low(v, w):
            if type(v) is int:
                return v & ((1 << w) - 1)
            return extract(v, 0, w) if v.w > w else (zext(v, v.w, w) if v.w < w else v)

        def cat2(a, b):
            return cat([(low(a, 64), 64), (low(b, 64), 64)])

        def br(c):
            if type(c) is int:
                return c
            return m.br(c)

        def imm(a, b, w, k):
            if k == 'smax':
                c = slt(b, a, w)
            elif k == 'smin':
                c = slt(a, b, w)
            elif k == 'umax':
                c = ult(b, a, w)
            else:
                c = ult(a, b, w)
            if type(c) is int:
                return a if c else b
            return a if m.br(c) else b

        def iabs(a, w):
            c = slt(a, 0, w)
            return terms.neg(a, w) if br(c) else a

        def rot(a, n, w, left):
            if type(n) is not int:
                m.unsupported('symbolic rotate')
            n &= w - 1
            if not left:
                n = (w - n) % w
            return or_(shl(a, n, w), lshr(a, (w - n) % w, w), w) if n else a

        def vsel(v, idx, ew):
            return cat([(extract(v, i * ew, ew), ew) for i in idx])

        def sfop(h, *a):
            if any(type(x) is not int for x in a):
                if h == 'ext':
                    return mk('fext', 64, a[0])
                if h == 'trunc':
                    return mk('ftrunc', 32, a[0])
                return mk('sf:' + h, 32, *a)
            if h == 'ext':
                return f2b(b2s(a[0]))
            if h == 'trunc':
                return s2b(b2f(a[0]))
            if h == 'i2f':
                return s2b(float(sx(a[0], a[1])))
            if h == 'f2i':
                return int(b2s(a[0])) & ((1 << a[1]) - 1)
            x = [b2s(y) for y in a]
            if h == 'plus':
                return s2b(x[0] + x[1])
            if h == 'minus':
                return s2b(x[0] - x[1])
            if h == 'mult':
                return s2b(x[0] * x[1])
            if h == 'div':
                return s2b(x[0] / x[1])
            if h == 'neg':
                return a[0] ^ (1 << 31)
            if h == 'abs':
                return a[0] & 0x7fffffff
            m.unsupported('SF ' + h)

        def f2i_(a, w):
            if type(a) is int:
                return terms.f2i(a, w)
            return m.driver.split_trunc(a, w)

        def fcopysign(m, a, b):
            if type(b) is int:
                return fneg(fabs(a)) if b >> 63 else fabs(a)
            if type(a) is T and a is b:
                return a
            if br(flt(b, 0)):
                return fneg(fabs(a))
            if br(flt(0, b)):
                return fabs(a)
            return terms.call_libm('copysign', a, b)

        # condition codes
        def F_(F):
            if F is None:
                m.unsupported('flags not set')
            return F

        def cc_eq(F):
            k, a, b, w = F
            if k == 'i':
                return eq(a, b, w)
            return bor(feq(a, b), funord(a, b)) if False else bor(feq(a, b), funord(a, b))

        def fp(F):
            if F[0] == 's':
                if type(F[1]) is int and type(F[2]) is int:
                    return f2b(b2s(F[1])), f2b(b2s(F[2]))
                return mk('fext', 64, F[1]) if type(F[1]) is T else f2b(b2s(F[1])), \
                    mk('fext', 64, F[2]) if type(F[2]) is T else f2b(b2s(F[2]))
            return F[1], F[2]

        def mkcc(fi, ff):
            def g(F):
                if F[0] == 'i':
                    return fi(F[1], F[2], F[3])
                a, b = fp(F)
                return ff(a, b)
            return g

        def un(f):
            return lambda a, b: bor(funord(a, b), f(a, b))
        lt_f = flt
        ns = dict(vars(terms))
        # In RTL, EQ on CCFP is an ordered equality, LT.. are ordered, UN* are unordered-or.
        ns.update(
            cc_eq=mkcc(eq, feq), cc_ne=mkcc(lambda a, b, w: bnot(eq(a, b, w)), lambda a, b: bnot(feq(a, b))),
            cc_lt=mkcc(slt, flt), cc_le=mkcc(sle, fle),
            cc_gt=mkcc(lambda a, b, w: slt(b, a, w), lambda a, b: flt(b, a)),
            cc_ge=mkcc(lambda a, b, w: sle(b, a, w), lambda a, b: fle(b, a)),
            cc_ltu=mkcc(ult, un(flt)), cc_leu=mkcc(ule, un(fle)),
            cc_gtu=mkcc(lambda a, b, w: ult(b, a, w), lambda a, b: flt(b, a)),
            cc_geu=mkcc(lambda a, b, w: ule(b, a, w), lambda a, b: fle(b, a)),
            cc_unordered=mkcc(None, funord), cc_ordered=mkcc(None, lambda a, b: bnot(funord(a, b))),
            cc_uneq=mkcc(None, un(feq)), cc_unlt=mkcc(None, un(flt)), cc_unle=mkcc(None, un(fle)),
            cc_ungt=mkcc(None, un(lambda a, b: flt(b, a))), cc_unge=mkcc(None, un(lambda a, b: fle(b, a))),
            cc_ltgt=mkcc(None, lambda a, b: bor(flt(a, b), flt(b, a))),
        )
        ns.update(m=m, H=m.H, ld8=ld8, ld4=ld4, ldn=ldn, st8=st8, st4=st4, stn=stn, insert=insert, low=low, cat2=cat2,
                  br=br, f2i_=f2i_, fcopysign=fcopysign, imm=imm, iabs=iabs, rot=rot, vsel=vsel, sfop=sfop)
        self.ld8, self.ld4, self.ldn, self.st8, self.st4, self.stn = ld8, ld4, ldn, st8, st4, stn
        return ns

    def idiv(self, f, a, b, w):
        if type(b) is int:
            if b == 0:
                raise Fault('sigfpe', 'integer division by zero near %s' % self.loc)
        elif self.br(eq(b, 0, w)):
            raise Fault('sigfpe', 'integer division by zero near %s' % self.loc)
        return f(a, b, w)

    # ------------------------------------------------------------ calls
    def pyfunc(self, fn):
        p = self.pyfn.get(fn)
        if p is None:
            src = Gen(self, fn).compile()
            fn.src = src
            ns = dict(self.ns)
            exec(compile(src, fn.asm, 'exec'), ns)
            p = ns['f']
            self.pyfn[fn] = p
        return p

    def callsym(self, unit, name):
        key = (unit, name)
        c = self.callcache.get(key) if hasattr(self, 'callcache') else None
        if c is None:
            if not hasattr(self, 'callcache'):
                self.callcache = {}
            c = self.builtins.get(name)
            if c is None:
                fn = self.prog.find_func(unit, name)
                if fn is None:
                    raise EngineUnsupported('external function %s' % name)
                c = self.pyfunc(fn)
                self.funcs_used.add(fn.asm)
            self.callcache[key] = c
        else:
            pass
        c()

    def callptr(self, a):
        if type(a) is not int:
            a = self.driver.concretize(a)
        fn = self.prog.fn_at.get(a)
        if fn is None:
            raise Fault('segv', 'call through bad function pointer 0x%x near %s' % (a, self.loc))
        if isinstance(fn, str):
            b = self.builtins.get(fn)
            if b is None:
                raise EngineUnsupported('external function %s' % fn)
            return b()
        b = self.builtins.get(fn.asm)
        if b is not None:
            return b()
        p = self.pyfn.get(fn)
        if p is None:
            p = self.pyfunc(fn)
            self.funcs_used.add(fn.asm)
        self.funcs_used.add(fn.asm)
        p()

    def call_entry(self, name):
        fn = self.prog.glob.get(name)
        if fn is None:
            raise EngineUnsupported('no entry ' + name)
        p = self.pyfunc(fn)
        p()

    # ------------------------------------------------------------ helpers for builtins
    def malloc(self, n, name=None):
        if type(n) is not int:
            n = self.driver.concretize(n)
        if n > SLOTM - 64:
            raise Fault('huge-malloc', 'allocation of %d bytes near %s' % (n, self.loc))
        self.nextslot += 1
        s = self.nextslot
        self.regs[s] = Region(name or 'heap%d[%s]' % (s - (1 << 20), self.loc), n, 'heap')
        return s << SLOT

    def free(self, a):
        if type(a) is not int:
            a = self.driver.concretize(a)
        if a == 0:
            return
        r = self.region(a)
        if r is None or a & SLOTM or r.kind != 'heap':
            raise Fault('bad-free', 'free of 0x%x near %s' % (a, self.loc))
        if not r.live:
            raise Fault('double-free', 'object %s near %s' % (r.name, self.loc))
        r.live = False

    def live_heap(self):
        return [r for r in self.regs.values() if r.kind == 'heap' and r.live]

    def cstr(self, a):
        out = bytearray()
        while True:
            c = self.ldn(a, 1)
            if type(c) is not int:
                raise EngineUnsupported('symbolic string')
            if c == 0:
                return out.decode(errors='replace')
            out.append(c)
            a += 1

    def copy(self, d, s, n, move=False):
        if type(n) is not int:
            n = self.driver.concretize(n)
        if type(d) is not int:
            d = self.driver.concretize(d)
        if type(s) is not int:
            s = self.driver.concretize(s)
        if n == 0:
            return
        rs, so = self.check(s, n, 'read')
        rd, do = self.check(d, n, 'write')
        if (so | do | n) & 3 == 0:
            i, j, k = so >> 2, do >> 2, n >> 2
            vals = [rs.cells.get(i + q) for q in range(k)]
            for q in range(k):
                if vals[q] is None:
                    rd.cells.pop(j + q, None)
                else:
                    rd.cells[j + q] = vals[q]
            return
        self.stn(d, n, self.ldn(s, n))

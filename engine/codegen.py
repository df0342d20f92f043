"""RTL function -> Python function over the symbolic machine."""
import re
from terms import *
import terms as TT

WID = {'QI': 8, 'HI': 16, 'SI': 32, 'DI': 64, 'TI': 128, 'SF': 32, 'DF': 64, 'V2DF': 128, 'V4SF': 128, 'V2DI': 128,
       'V4SI': 128, 'TF': 128, 'V2SF': 64, 'V8QI': 64, 'V16QI': 128, 'XF': 128, 'OI': 256}
FP = ('DF', 'SF', 'V2DF', 'V4SF')
VIRT = {'virtual-stack-vars': 'vsv', 'virtual-incoming-args': 'vinc', 'virtual-stack-dynamic': 'H[7]',
        'virtual-outgoing-args': 'H[7]', 'frame': 'vsv', 'argp': 'vinc'}
FIRST_PSEUDO = 76


def symname(x):
    s = x[2]
    if isinstance(s, list):
        s = s[0]
    return s.strip('"').lstrip('*')


class Unsupported(Exception):
    pass


class Gen:
    def __init__(self, machine, fn):
        self.m = machine
        self.fn = fn
        self.pseudos = set()
        self.locmin = 0
        self.tmp = 0
        self.pre = None

    # ---------------------------------------------------------------- helpers
    def regname(self, x):
        n = int(x[2])
        nm = x[3] if len(x) > 3 else ''
        if nm in VIRT:
            return ('v', VIRT[nm])
        if n < FIRST_PSEUDO:
            return ('h', n)
        self.pseudos.add(n)
        return ('p', 'r%d' % n)

    def scan_locals(self, x):
        """lowest constant offset from virtual-stack-vars"""
        if isinstance(x, list):
            if x and x[0] == 'plus' and len(x) > 3 and isinstance(x[2], list) and x[2][0] == 'reg' and len(x[2]) > 3 \
                    and x[2][3] == 'virtual-stack-vars' and isinstance(x[3], list) and x[3][0] == 'const_int':
                self.locmin = min(self.locmin, int(x[3][2]))
            for y in x:
                self.scan_locals(y)

    def const_addr(self, x):
        """value of a constant address expression or None"""
        if x[0] == 'symbol_ref':
            return self.m.symaddr(self.fn.unit, symname(x))
        if x[0] == 'const_int':
            return int(x[2]) & M64
        if x[0] == 'const':
            return self.const_addr(x[2])
        if x[0] == 'plus':
            a, b = self.const_addr(x[2]), self.const_addr(x[3])
            if a is None or b is None:
                return None
            return (a + b) & M64
        return None

    def sym(self, x):
        s = x[2]
        if isinstance(s, list):
            s = s[0]
        return s

    def E(self, x, mode=None):
        """python expression computing x"""
        h, md = x[0], x[1]
        if h in ('const_int', 'const_double', 'const_vector', 'const_wide_int'):
            md = md or mode
        md = md or mode
        w = WID.get(md, 64)
        if h == 'reg':
            k, v = self.regname(x)
            if k == 'v':
                return v
            if k == 'p':
                return v
            n = v
            if md.startswith('CC'):
                return 'F'
            if w == 128:
                if n < 20:
                    nxt = {0: 1}.get(n, n + 1)   # ax:dx, dx:cx ... only ax/dx pairs are used for TImode values
                    return 'cat2(H[%d],H[%d])' % (n, nxt)
                return 'H[%d]' % n
            if n == 7:
                return 'H[7]'
            return 'low(H[%d],%d)' % (n, w)
        if h == 'subreg':
            inner = x[2]
            off = int(x[3])
            iw = WID[inner[1]]
            s = self.E(inner)
            if w <= iw:
                return 'extract(%s,%d,%d)' % (s, off * 8, w)
            return 'zext(%s,%d,%d)' % (s, iw, w)
        if h == 'mem':
            if x[2][0] == 'const' and x[2][2][0] == 'unspec' and 'GOTPCREL' in str(x[2][2][3:]):
                return self.E(x[2][2][2][0], 'DI')
            a = self.addr(x)
            if md == 'BLK':
                raise Unsupported('BLK mem')
            if w == 64:
                return 'ld8(%s)' % a
            if w == 32:
                return 'ld4(%s)' % a
            return 'ldn(%s,%d)' % (a, w // 8)
        if h == 'const_int':
            return str(int(x[2]) & ((1 << w) - 1))
        if h == 'const_wide_int':
            return str(int(x[2], 16) & ((1 << w) - 1))
        if h == 'const_double':
            # (const_double:DF 1.0e+0 [0x0.8p+1])
            return str(self.const_fp(x, md))
        if h == 'const_vector':
            es = x[2]
            ew = w // len(es)
            v = 0
            for i, e in enumerate(es):
                v |= int(eval(self.E(e, None))) << (ew * i)
            return str(v)
        if h == 'symbol_ref':
            return str(self.m.symaddr(self.fn.unit, symname(x)))
        if h == 'label_ref':
            raise Unsupported('label address')
        if h == 'const':
            return self.E(x[2], 'DI')
        ar = x[2:]
        if h in ('plus', 'minus', 'mult', 'div', 'neg', 'abs', 'sqrt', 'smax', 'smin') and md in ('V2DF', 'V4SF'):
            raise Unsupported('vector op ' + h + md)
        if md == 'DF' and h in ('plus', 'minus', 'mult', 'div', 'neg', 'abs', 'sqrt', 'smax', 'smin'):
            f = {'plus': 'fadd', 'minus': 'fsub', 'mult': 'fmul', 'div': 'fdiv', 'neg': 'fneg', 'abs': 'fabs', 'sqrt': 'fsqrt'}
            if h in ('smax', 'smin'):
                return 'fmaxmin(%s,%s,%d)' % (self.E(ar[0], md), self.E(ar[1], md), h == 'smax')
            return '%s(%s)' % (f[h], ','.join(self.E(a, md) for a in ar))
        if md == 'SF' and h in ('plus', 'minus', 'mult', 'div', 'neg', 'abs', 'sqrt'):
            return 'sfop(%r,%s)' % (h, ','.join(self.E(a, md) for a in ar))
        if h == 'plus':
            return 'add(%s,%s,%d)' % (self.E(ar[0], md), self.E(ar[1], md), w)
        if h == 'minus':
            return 'sub(%s,%s,%d)' % (self.E(ar[0], md), self.E(ar[1], md), w)
        if h == 'mult':
            if w == 128:
                return 'mul(%s,%s,128)' % (self.E(ar[0], md), self.E(ar[1], md))
            return 'mul(%s,%s,%d)' % (self.E(ar[0], md), self.E(ar[1], md), w)
        if h in ('div', 'mod', 'udiv', 'umod'):
            f = {'div': 'sdiv', 'mod': 'smod', 'udiv': 'udiv', 'umod': 'umod'}[h]
            return 'm.idiv(%s,%s,%s,%d)' % (f, self.E(ar[0], md), self.E(ar[1], md), w)
        if h in ('and', 'ior', 'xor'):
            f = {'and': 'and_', 'ior': 'or_', 'xor': 'xor'}[h]
            return '%s(%s,%s,%d)' % (f, self.E(ar[0], md), self.E(ar[1], md), w)
        if h == 'not':
            return 'not_(%s,%d)' % (self.E(ar[0], md), w)
        if h == 'neg':
            return 'neg(%s,%d)' % (self.E(ar[0], md), w)
        if h == 'abs':
            return 'iabs(%s,%d)' % (self.E(ar[0], md), w)
        if h in ('ashift', 'lshiftrt', 'ashiftrt'):
            f = {'ashift': 'shl', 'lshiftrt': 'lshr', 'ashiftrt': 'ashr'}[h]
            return '%s(%s,%s,%d)' % (f, self.E(ar[0], md), self.E(ar[1], 'QI'), w)
        if h in ('rotate', 'rotatert'):
            return 'rot(%s,%s,%d,%d)' % (self.E(ar[0], md), self.E(ar[1], 'QI'), w, h == 'rotate')
        if h in ('sign_extend', 'zero_extend'):
            iw = WID[ar[0][1]]
            return '%s(%s,%d,%d)' % ('sext' if h[0] == 's' else 'zext', self.E(ar[0]), iw, w)
        if h == 'truncate':
            return 'extract(%s,0,%d)' % (self.E(ar[0]), w)
        if h in ('smax', 'smin', 'umax', 'umin'):
            return 'imm(%s,%s,%d,%r)' % (self.E(ar[0], md), self.E(ar[1], md), w, h)
        if h == 'float':
            if md == 'DF':
                return 'i2f(%s,%d)' % (self.E(ar[0]), WID[ar[0][1]])
            return 'sfop("i2f",%s,%d)' % (self.E(ar[0]), WID[ar[0][1]])
        if h == 'fix':
            if ar[0][1] == 'DF':
                return 'f2i_(%s,%d)' % (self.E(ar[0]), w)
            return 'sfop("f2i",%s,%d)' % (self.E(ar[0]), w)
        if h == 'float_extend':
            return 'sfop("ext",%s)' % self.E(ar[0])
        if h == 'float_truncate':
            return 'sfop("trunc",%s)' % self.E(ar[0])
        if h == 'if_then_else':
            return '(%s if br(%s) else %s)' % (self.E(ar[1], md), self.cond(ar[0]), self.E(ar[2], md))
        if h in COND:
            return 'zext(%s,1,%d)' % (self.cond(x), w)
        if h == 'unspec':
            # NOTRAP compare wrapper, etc.
            lst = x[2]
            num = x[3] if len(x) > 3 else ''
            if len(lst) == 1 and lst[0][0] == 'compare':
                return self.E(lst[0])
            if 'NOTRAP' in str(num) or True:
                if 'IEEE_MAX' in str(num) or 'IEEE_MIN' in str(num):
                    return 'fmaxmin(%s,%s,%d)' % (self.E(lst[0], md), self.E(lst[1], md), 'MAX' in str(num))
            if 'COPYSIGN' in str(num):
                return 'fcopysign(m,%s,%s)' % (self.E(lst[0], md), self.E(lst[1], md))
            raise Unsupported('unspec %s' % num)
        if h == 'compare':
            a, b = ar
            amode = a[1] or b[1]
            if not amode:
                amode = 'DI'
            if amode in FP:
                if amode == 'SF':
                    return "('s',%s,%s,32)" % (self.E(a, amode), self.E(b, amode))
                return "('f',%s,%s,64)" % (self.E(a, amode), self.E(b, amode))
            return "('i',%s,%s,%d)" % (self.E(a, amode), self.E(b, amode), WID[amode])
        if h == 'vec_select':
            idx = ar[1]
            ii = [int(e[2]) for e in idx[2]] if isinstance(idx[2], list) else [int(idx[2])]
            ew = w // len(ii)
            return 'vsel(%s,%r,%d)' % (self.E(ar[0]), tuple(ii), ew)
        if h == 'vec_concat':
            w0 = WID[ar[0][1]] if ar[0][1] in WID else w // 2
            return 'cat([(%s,%d),(%s,%d)])' % (self.E(ar[0], 'DF'), w0, self.E(ar[1], 'DF'), w - w0)
        if h == 'vec_duplicate':
            ew = WID[ar[0][1]]
            s = self.E(ar[0])
            return '(lambda z: cat([(z,%d)]*%d))(%s)' % (ew, w // ew, s)
        if h == 'zero_extract':
            return 'extract(%s,%d,%d)' % (self.E(ar[0]), int(ar[2][2]), int(ar[1][2])) if False else \
                'zext(extract(%s,%d,%d),%d,%d)' % (self.E(ar[0]), int(ar[2][2]), int(ar[1][2]), int(ar[1][2]), w)
        raise Unsupported('rtx %s:%s' % (h, md))

    def const_fp(self, x, md):
        s = x[2]
        if s in ('+QNaN', '+NaN', 'QNaN', '-QNaN', '-NaN', '+SNaN'):
            v = QNAN if md == 'DF' else 0x7fc00000
            return v
        if s in ('+Inf', 'Inf', '+Infinity'):
            f = float('inf')
        elif s in ('-Inf', '-Infinity'):
            f = float('-inf')
        else:
            # GCC prints enough decimal digits to identify the double
            f = float(s)
        return f2b(f) if md == 'DF' else s2b(f)

    def addr(self, mem):
        a = mem[2]
        if a[0] in ('pre_dec', 'pre_modify', 'post_inc', 'pre_inc', 'post_modify', 'post_dec'):
            w = WID[mem[1]] // 8
            if a[0] == 'pre_dec':
                return 'm.predec(%d)' % (8 if w < 8 else w)
            if a[0] == 'pre_modify':
                pl = a[3]
                return 'm.predec(%d)' % (-int(pl[3][2]))
            raise Unsupported(a[0])
        c = self.const_addr(a)
        if c is not None:
            return str(c)
        return self.E(a, 'DI')

    def cond(self, x):
        h = x[0]
        a, b = x[2], x[3]
        if a[0] == 'reg' and a[1].startswith('CC'):
            return 'cc_%s(F)' % h
        amode = a[1] or b[1] or 'DI'
        if amode in FP:
            return "cc_%s(('f',%s,%s,64))" % (h, self.E(a, amode), self.E(b, amode))
        return "cc_%s(('i',%s,%s,%d))" % (h, self.E(a, amode), self.E(b, amode), WID[amode])

    # ---------------------------------------------------------------- statements
    def assign(self, dst, val):
        h, md = dst[0], dst[1]
        if h == 'reg':
            k, v = self.regname(dst)
            if k == 'p':
                return ['%s=%s' % (v, val)]
            if k == 'v':
                raise Unsupported('set virtual reg')
            if md.startswith('CC'):
                return ['F=%s' % val]
            if WID[md] == 128 and v < 20:
                nxt = {0: 1}.get(v, v + 1)
                return ['_t=%s' % val, 'H[%d]=extract(_t,0,64)' % v, 'H[%d]=extract(_t,64,64)' % nxt]
            if v == 7:
                return ['H[7]=m.setsp(%s)' % val]
            return ['H[%d]=%s' % (v, val)]
        if h == 'mem':
            w = WID[md] // 8
            if dst[2][0] in ('pre_dec', 'pre_modify'):
                # the operand is evaluated before sp moves
                return ['_v=%s' % val, 'st%s(%s,_v)' % ('8' if w == 8 else '4', self.addr(dst))] if w in (4, 8) else \
                    ['_v=%s' % val, 'stn(%s,%d,_v)' % (self.addr(dst), w)]
            a = self.addr(dst)
            if w == 8:
                return ['st8(%s,%s)' % (a, val)]
            if w == 4:
                return ['st4(%s,%s)' % (a, val)]
            return ['stn(%s,%d,%s)' % (a, w, val)]
        if h == 'subreg':
            inner = dst[2]
            off = int(dst[3]) * 8
            w = WID[md]
            iw = WID[inner[1]]
            if w >= iw:
                return self.assign(inner, 'extract(%s,0,%d)' % (val, iw))
            return self.assign(inner, 'insert(%s,%d,%d,%d,%s)' % (self.E(inner), iw, off, w, val))
        if h == 'strict_low_part':
            return self.assign(dst[2], val)
        if h == 'zero_extract':
            inner = dst[2]
            iw = WID[inner[1]]
            return self.assign(inner, 'insert(%s,%d,%d,%d,%s)' % (self.E(inner), iw, int(dst[4][2]), int(dst[3][2]), val))
        raise Unsupported('set dest ' + h)

    def call(self, callx):
        """python statement performing the call"""
        mem = callx[2]
        a = mem[2]
        if a[0] == 'symbol_ref':
            nm = symname(a)
            return 'm.callsym(%r,%r)' % (self.fn.unit, nm)
        return 'm.callptr(%s)' % self.E(a, 'DI')

    def stmt(self, pat):
        """list of python lines"""
        h = pat[0]
        if h == 'set':
            dst, src = pat[2], pat[3]
            if dst[0] == 'pc':
                raise Unsupported('jump in insn')
            if src[0] == 'call':
                return [self.call(src)]
            if src[0] in ('asm_operands', 'unspec_volatile'):
                raise Unsupported(src[0])
            mode = dst[1]
            if dst[0] == 'mem' and mode == 'BLK':
                raise Unsupported('BLK set')
            return self.assign(dst, self.E(src, mode))
        if h in ('clobber', 'use'):
            return []
        if h == 'call':
            return [self.call(pat)]
        if h == 'parallel':
            items = [y for y in pat[2] if isinstance(y, list)]
            sets = [y for y in items if y[0] == 'set']
            calls = [y for y in items if y[0] == 'call']
            if calls:
                out = [self.call(calls[0])]
                for y in sets:
                    out += self.stmt(y)
                return out
            if len(sets) == 1:
                return self.stmt(sets[0])
            out = []
            post = []
            for i, y in enumerate(sets):
                if y[3][0] == 'call':
                    out.append(self.call(y[3]))
                    continue
                out.append('_p%d=%s' % (i, self.E(y[3], y[2][1])))
                post += self.assign(y[2], '_p%d' % i)
            return out + post
        if h == 'trap_if':
            return ['m.trap()']
        if h == 'unspec_volatile':
            return []     # blockage / stack-tie / probe
        if h == 'asm_input':
            return []
        if h in ('const_int', 'return', 'simple_return'):
            return []
        raise Unsupported('pattern ' + h)

    def compile(self):
        insns = self.fn.insns()
        for k, u, p, l in insns:
            if p:
                self.scan_locals(p)
        # blocks
        blocks = [[]]
        labels = {}
        for it in insns:
            k = it[0]
            if k == 'label':
                if blocks[-1]:
                    blocks.append([])
                labels[it[1]] = len(blocks) - 1
            elif k == 'table':
                blocks[-1].append(it)
            elif k == 'barrier':
                blocks[-1].append(it)
                blocks.append([])
            else:
                blocks[-1].append(it)
                if k == 'jump_insn':
                    blocks.append([])
        tables = {}
        for bi, b in enumerate(blocks):
            for it in b:
                if it[0] == 'table':
                    # table follows its label: (addr_diff_vec:SI (label_ref base) [ (label_ref ..)...])
                    lst = None
                    for y in it[2][2:]:
                        pass
                    tables[bi] = it[2]
        self.tables = tables
        self.labels = labels
        code = []
        nxtb = len(blocks)
        bodies = []
        for bi, b in enumerate(blocks):
            lines = []
            ended = False
            n = 0
            for it in b:
                k, uid, pat, loc = it
                n += 1
                try:
                    if k == 'barrier':
                        if not ended:
                            lines.append('m.unreachable()')
                            ended = True
                        continue
                    if k == 'table':
                        continue
                    if k == 'jump_insn':
                        lines += self.jump(pat, bi)
                        ended = True
                        continue
                    if k == 'call_insn' and loc:
                        lines.append('m.loc=%r' % loc)
                    lines += self.stmt(pat)
                except Unsupported as e:
                    lines.append('m.unsupported(%r)' % ('%s in %s insn %s' % (e, self.fn.asm, uid)))
            if not ended:
                if bi + 1 < nxtb:
                    lines.append('B=%d' % (bi + 1))
                else:
                    lines.append('return')
            lines.insert(0, 'm.steps+=%d' % n)
            bodies.append(lines)
        out = []
        name = 'f'
        out.append('def f():')
        out.append(' S=H[7]; vinc=S')
        out.append(' vsv=m.enter(%r,S,%d)' % (self.fn.asm, (-self.locmin + 63) & ~63))
        ps = sorted(self.pseudos)
        for i in range(0, len(ps), 40):
            out.append(' ' + '='.join('r%d' % p for p in ps[i:i + 40]) + '=0')
        out.append(' F=None')
        out.append(' B=0')
        out.append(' try:')
        out.append('  while True:')

        def tree(lo, hi, ind):
            pad = ' ' * ind
            if hi - lo == 1:
                for l in bodies[lo]:
                    for s in l.split('\n'):
                        out.append(pad + s)
                return
            mid = (lo + hi) // 2
            out.append(pad + 'if B<%d:' % mid)
            tree(lo, mid, ind + 1)
            out.append(pad + 'else:')
            tree(mid, hi, ind + 1)
        out.append('   m.tick()')
        tree(0, len(bodies), 3)
        out.append(' finally:')
        out.append('  m.leave(S)')
        return '\n'.join(out)

    def jump(self, pat, bi):
        if pat[0] == 'parallel':
            sets = [y for y in pat[2] if isinstance(y, list) and y[0] == 'set']
            pat = sets[0]
        if pat[0] in ('return', 'simple_return'):
            return ['return']
        assert pat[0] == 'set' and pat[2][0] == 'pc', pat
        src = pat[3]
        if src[0] == 'label_ref':
            return ['B=%d' % self.labels[int(src[2])]]
        if src[0] == 'if_then_else':
            def tgt(x):
                if x[0] == 'pc':
                    return bi + 1
                return self.labels[int(x[2])]
            return ['B=%d if br(%s) else %d' % (tgt(src[3]), self.cond(src[2]), tgt(src[4]))]
        if src[0] == 'reg' or src[0] == 'mem':
            # tablejump: handled through the preceding pattern
            raise Unsupported('tablejump')
        raise Unsupported('jump ' + src[0])


COND = {'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'ltu', 'leu', 'gtu', 'geu', 'unordered', 'ordered', 'uneq', 'unlt', 'unle',
        'ungt', 'unge', 'ltgt'}

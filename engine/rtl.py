"""Parser for GCC's -fdump-rtl-expand dumps (S-expression RTL) and for the data part of the .s files."""
import re, struct

# ---------------------------------------------------------------- RTL
TOK = re.compile(r'\s*(\(|\)|\[|\]|"(?:[^"\\]|\\.)*"|<[^>]*>|[^\s()\[\]"<]+|<)')

LISTHEADS = ('parallel', 'unspec', 'unspec_volatile', 'const_vector', 'asm_operands', 'sequence')


def tokenize(s):
    return TOK.findall(s)


def parse_sexpr(toks, i):
    """toks[i] == '(' ; returns (node, next). node = [head, mode, items...]"""
    assert toks[i] == '('
    i += 1
    head = toks[i]
    i += 1
    name, _, mode = head.partition(':')
    base = name.split('/')[0]
    node = [base, mode]
    first = True
    while True:
        t = toks[i]
        if t == ')':
            return node, i + 1
        if t == '(':
            sub, i = parse_sexpr(toks, i)
            node.append(sub)
        elif t == '[':
            if base in LISTHEADS and first:
                lst = []
                i += 1
                while toks[i] != ']':
                    if toks[i] == '(':
                        sub, i = parse_sexpr(toks, i)
                        lst.append(sub)
                    else:
                        # repeat marks such as "repeated x2"
                        lst.append(toks[i])
                        i += 1
                i += 1
                node.append(lst)
            else:
                depth = 1
                i += 1
                while depth:
                    if toks[i] == '[':
                        depth += 1
                    elif toks[i] == ']':
                        depth -= 1
                    i += 1
        elif t.startswith('<') and len(t) > 1:
            node.append(('decl', t))
            i += 1
        else:
            node.append(t)
            i += 1
        first = False


class Func:
    __slots__ = ('name', 'asm', 'unit', 'text', '_insns', 'code', 'locals_size', 'file', 'addr', 'src')

    def __init__(self, name, asm, unit, text):
        self.name, self.asm, self.unit, self.text = name, asm, unit, text
        self._insns = None
        self.code = None
        self.addr = None

    def insns(self):
        if self._insns is None:
            self._insns = parse_insns(self.text)
        return self._insns


FUNC_RE = re.compile(r'^;; Function (.+?) \(([^\s,]+), funcdef_no=', re.M)


def load_expand(path, unit):
    txt = open(path, errors='replace').read()
    out = {}
    ms = list(FUNC_RE.finditer(txt))
    for k, m in enumerate(ms):
        end = ms[k + 1].start() if k + 1 < len(ms) else len(txt)
        body = txt[m.end():end]
        j = body.rfind(';; Full RTL generated for this function:')
        if j < 0:
            continue
        out[m.group(2)] = Func(m.group(1), m.group(2), unit, body[j:])
    return out


INSN_START = re.compile(r'^\((note|insn|jump_insn|call_insn|code_label|barrier|jump_table_data|debug_insn)(?:/[a-z]+)*[ :]', re.M)


def parse_insns(text):
    """[(kind, uid, pattern|info, extra)]"""
    out = []
    starts = [m for m in INSN_START.finditer(text)]
    for k, m in enumerate(starts):
        end = starts[k + 1].start() if k + 1 < len(starts) else len(text)
        chunk = text[m.start():end]
        kind = m.group(1)
        if kind == 'debug_insn':
            continue
        if kind == 'note':
            mm = re.match(r'\(note (\d+) .*?(NOTE_INSN_\w+)', chunk)
            continue
        if kind == 'barrier':
            out.append(('barrier', 0, None, None))
            continue
        if kind == 'code_label':
            mm = re.match(r'\(code_label(?:/\w+)* (\d+)', chunk)
            out.append(('label', int(mm.group(1)), None, None))
            continue
        toks = tokenize(chunk)
        node, _ = parse_sexpr(toks, 0)
        # node: [kind, mode, uid, prev, next, bb, pattern, ...]
        uid = int(node[2])
        pat = None
        line = None
        for x in node[3:]:
            if isinstance(x, list) and pat is None:
                pat = x
            elif isinstance(x, str) and x.startswith('"') and line is None:
                line = x
        if kind == 'jump_table_data':
            out.append(('table', uid, pat, None))
        else:
            out.append((kind, uid, pat, line))
    return out


# ---------------------------------------------------------------- static data
class DataSym:
    __slots__ = ('name', 'size', 'bytes', 'relocs', 'unit', 'glob', 'addr', 'align', 'weak')

    def __init__(self, name, unit):
        self.name, self.unit = name, unit
        self.size = 0
        self.bytes = bytearray()
        self.relocs = []          # (offset, symbol, addend, size)
        self.glob = False
        self.addr = None
        self.weak = False


ESC = {'n': 10, 't': 9, 'b': 8, 'f': 12, 'r': 13, '"': 34, '\\': 92}


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1
            c = s[i]
            if c in '01234567':
                j = i
                while j < len(s) and j < i + 3 and s[j] in '01234567':
                    j += 1
                out.append(int(s[i:j], 8) & 255)
                i = j
                continue
            out.append(ESC[c])
        else:
            out.append(ord(c) & 255)
        i += 1
    return bytes(out)


def load_asm_data(path, unit):
    """all data objects of a .s file; function bodies are skipped"""
    syms = {}
    aliases = {}
    cur = []          # labels bound to the current object
    obj = None
    sec = 'text'
    stack = []
    globs = set()
    local_sizes = {}

    def num(x):
        x = x.strip()
        return int(x, 0)

    def emit(b):
        if obj is not None:
            obj.bytes += b

    SIZES = {'.quad': 8, '.long': 4, '.int': 4, '.value': 2, '.short': 2, '.byte': 1, '.word': 2}
    for raw in open(path, errors='replace'):
        line = raw.strip()
        if not line or line.startswith('#'):
            continue
        m = re.match(r'^([\w.$@]+):', line)
        if m and not line.startswith('"'):
            if sec == 'data':
                obj = DataSym(m.group(1), unit)
                syms[m.group(1)] = obj
            continue
        parts = line.split(None, 1)
        d = parts[0]
        arg = parts[1] if len(parts) > 1 else ''
        if d == '.text':
            sec = 'text'; obj = None
        elif d in ('.data', '.bss', '.rodata'):
            sec = 'data'; obj = None
        elif d == '.section' or d == '.pushsection':
            nm = arg.split(',')[0]
            if nm.startswith(('.text', '.init', '.fini', '.note', '.debug', '.comment')):
                sec = 'text'
            else:
                sec = 'data'
            obj = None
        elif d == '.globl':
            globs.add(arg.strip())
        elif d == '.weak':
            globs.add(arg.strip())
        elif d in ('.comm', '.lcomm'):
            a = [x.strip() for x in arg.split(',')]
            o = DataSym(a[0], unit)
            o.bytes = bytearray(num(a[1]))
            o.glob = (d == '.comm' and a[0] not in local_sizes)
            syms[a[0]] = o
        elif d == '.local':
            local_sizes[arg.strip()] = 1
        elif d == '.set':
            a = [x.strip() for x in arg.split(',')]
            aliases[a[0]] = a[1]
        elif sec == 'data':
            if d in SIZES:
                n = SIZES[d]
                for x in arg.split(','):
                    x = x.strip()
                    try:
                        v = num(x)
                        emit((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
                    except ValueError:
                        mm = re.match(r'^([\w.$@]+)\s*([+-]\s*\d+)?$', x)
                        if mm and obj is not None:
                            obj.relocs.append((len(obj.bytes), mm.group(1), int((mm.group(2) or '0').replace(' ', '')), n))
                            emit(bytes(n))
                        elif obj is not None:
                            # label difference (jump table): left to the RTL
                            obj.relocs.append((len(obj.bytes), x, None, n))
                            emit(bytes(n))
            elif d in ('.string', '.ascii', '.asciz'):
                s = arg[arg.index('"') + 1: arg.rindex('"')]
                emit(unescape(s) + (b'\0' if d != '.ascii' else b''))
            elif d in ('.zero', '.skip', '.space'):
                emit(bytes(num(arg.split(',')[0])))
            elif d in ('.align', '.p2align', '.balign', '.type', '.size'):
                pass
    for n, o in syms.items():
        if n in globs:
            o.glob = True
        o.size = len(o.bytes)
    return syms, aliases

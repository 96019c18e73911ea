"""Parser for GCC `-fdump-rtl-expand` dumps and for constant data in `.s` files.

Nodes are tuples (code, mode, args).  `reg` -> ('reg', mode, regno),
`const_int` -> ('const_int', None, value), `mem` -> ('mem', mode, addr, volatile).
Memory attributes, flags, register names and locations are dropped (they carry
no semantics for the expand-pass RTL; volatility is kept).
"""
import re

_tok = re.compile(r'''
   (?P<ws>[\s]+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<p>[()\[\]<>])
 | (?P<atom>[^\s()\[\]<>"]+)
''', re.X)


def tokenize(s):
    """Tokens with '[...]' attribute groups handled by the caller."""
    out = []
    i, n = 0, len(s)
    m = _tok.match
    while i < n:
        r = m(s, i)
        i = r.end()
        k = r.lastgroup
        if k == 'ws':
            continue
        out.append(r.group())
    return out


HARD = {}


class RtlError(Exception):
    pass


_hexf = re.compile(r'^-?0x[0-9a-f.]+p[+-]?\d+$')


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def skip_bracket(self):
        # self.t[self.i] == '['
        d = 0
        while True:
            x = self.t[self.i]
            self.i += 1
            if x == '[':
                d += 1
            elif x == ']':
                d -= 1
                if d == 0:
                    return

    def skip_angle(self):
        d = 0
        while True:
            x = self.t[self.i]
            self.i += 1
            if x == '<':
                d += 1
            elif x == '>':
                d -= 1
                if d == 0:
                    return

    def node(self):
        t = self.t
        assert t[self.i] == '(', t[self.i:self.i + 5]
        self.i += 1
        if t[self.i] == 'nil':
            self.i += 1
            assert t[self.i] == ')'
            self.i += 1
            return None
        head = t[self.i]
        self.i += 1
        h = head
        mode = None
        flags = ''
        if ':' in h:
            h, mode = h.split(':', 1)
        if '/' in h:
            h, flags = h.split('/', 1)
        f = getattr(self, 'n_' + h, None)
        if f:
            r = f(mode, flags)
        else:
            r = self.generic(h, mode)
        if t[self.i] != ')':
            # trailing junk such as attributes
            while t[self.i] != ')':
                if t[self.i] == '[':
                    self.skip_bracket()
                elif t[self.i] == '<':
                    self.skip_angle()
                elif t[self.i] == '(':
                    self.node()
                else:
                    self.i += 1
        self.i += 1
        return r

    def generic(self, h, mode):
        t = self.t
        args = []
        while True:
            x = t[self.i]
            if x == ')':
                break
            if x == '(':
                args.append(self.node())
            elif x == '[':
                # vector of nodes, or attribute
                j = self.i + 1
                if t[j] == '(' :
                    args.append(self.vec())
                elif re.match(r'^(-?\d+|repeated|x\d+)$', t[j]) is None:
                    self.skip_bracket()
                else:
                    self.skip_bracket()
            elif x == '<':
                self.skip_angle()
            else:
                args.append(x)
                self.i += 1
        return (h, mode) + tuple(args)

    def vec(self):
        t = self.t
        assert t[self.i] == '['
        self.i += 1
        out = []
        while t[self.i] != ']':
            if t[self.i] == '(':
                out.append(self.node())
            elif t[self.i] == 'repeated':
                k = int(t[self.i + 1][1:])
                self.i += 2
                out.extend([out[-1]] * (k - 1))
            else:
                raise RtlError('vec token %r' % (t[self.i:self.i + 4],))
        self.i += 1
        return out

    # special nodes
    def n_reg(self, mode, flags):
        n = int(self.t[self.i])
        self.i += 1
        x = self.t[self.i]
        if x.startswith('virtual-'):
            return ('reg', mode, x)
        if x not in ')[' and n < 130 and n not in HARD:
            HARD[n] = x
        return ('reg', mode, n)

    def n_const_int(self, mode, flags):
        x = self.t[self.i]
        self.i += 1
        return ('const_int', mode, int(x))

    def n_const_wide_int(self, mode, flags):
        x = self.t[self.i]
        self.i += 1
        return ('const_int', mode, int(x, 16))

    def n_const_double(self, mode, flags):
        t = self.t
        dec = t[self.i]
        self.i += 1
        hx = None
        if t[self.i] == '[':
            self.i += 1
            hx = ''
            while t[self.i] != ']':
                hx += t[self.i]
                self.i += 1
            self.i += 1
        return ('const_double', mode, dec, hx)

    def n_const_vector(self, mode, flags):
        return ('const_vector', mode, self.vec())

    def n_symbol_ref(self, mode, flags):
        # ("name") [flags] <...>
        t = self.t
        assert t[self.i] == '('
        name = t[self.i + 1].strip('"')
        self.i += 3
        return ('symbol_ref', mode, name.lstrip('*'))

    def n_label_ref(self, mode, flags):
        x = self.t[self.i]
        self.i += 1
        return ('label_ref', mode, int(x))

    def n_mem(self, mode, flags):
        a = self.node()
        al = 0
        if self.t[self.i] == '[':
            j = self.i
            self.skip_bracket()
            for x in self.t[j:self.i]:
                if x[0] == 'A' and x[1:].isdigit():
                    al = int(x[1:])
        return ('mem', mode, a, 'v' in flags.split('/'), al)

    def n_unspec(self, mode, flags):
        return self._unspec('unspec', mode)

    def n_unspec_volatile(self, mode, flags):
        return self._unspec('unspec_volatile', mode)

    def _unspec(self, h, mode):
        a = self.vec()
        nm = self.t[self.i]
        self.i += 1
        return (h, mode, a, nm)

    def n_expr_list(self, mode, flags):
        # notes; contents irrelevant except REG_EQUAL
        depth = 1
        t = self.t
        kind = mode
        if kind == 'REG_EQUAL':
            v = self.node()
            nxt = self.node()
            return ('expr_list', kind, v, nxt)
        while True:
            x = t[self.i]
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    return ('expr_list', kind, None, None)
            self.i += 1

    n_insn_list = n_expr_list
    n_int_list = n_expr_list


_insn_start = re.compile(r'^\((insn|jump_insn|call_insn|note|code_label|barrier|jump_table_data)(?:/[a-z/]+)?(?::[A-Z]+)? ')
_loc = re.compile(r'^"([^"]*)":(\d+):(\d+)$')


class Insn:
    __slots__ = ('kind', 'uid', 'bb', 'pat', 'label', 'loc', 'equal')


class Func:
    def __init__(self, name, asm):
        self.name = name
        self.asm = asm
        self.insns = []


def _split_insns(lines):
    cur = []
    for l in lines:
        if l.startswith('(') and cur:
            yield '\n'.join(cur)
            cur = [l]
        elif l.startswith('(') or cur:
            if l.strip() == '' or l.startswith(';;'):
                if cur:
                    yield '\n'.join(cur)
                    cur = []
                continue
            cur.append(l)
    if cur:
        yield '\n'.join(cur)


_hdr = re.compile(r'^\((\w+)(?:/[a-z/]+)*(?::\w+)? (\d+) (\d+) (\d+)(.*)', re.S)
_locre = re.compile(r'"([^"\s]*)":(\d+):(\d+)')


def parse_insn(txt):
    m = _hdr.match(txt)
    if not m:
        raise RtlError('insn header: %r' % txt[:80])
    kind, uid = m.group(1), int(m.group(2))
    rest = m.group(5)
    ins = Insn()
    ins.kind = kind
    ins.uid = uid
    ins.pat = None
    ins.label = None
    ins.loc = None
    ins.equal = None
    ins.bb = None
    if kind == 'note':
        return None
    if kind == 'barrier':
        return ins
    if kind == 'code_label':
        return ins
    if kind == 'jump_table_data':
        return ins
    # rest: " BB pattern loc code notes..."
    j = rest.index('(')
    toks = tokenize(rest[j:])
    p = P(toks)
    ins.pat = p.node()
    # locations (last location of the library wins); optional
    ml = None
    k = p.i
    if k < len(toks) and toks[k].startswith('"'):
        fn = toks[k].strip('"')
        if k + 1 < len(toks) and toks[k + 1].startswith(':'):
            pr = toks[k + 1].split(':')
            try:
                ins.loc = (fn, int(pr[1]))
            except (ValueError, IndexError):
                pass
    # REG_EQUAL
    while k < len(toks):
        if toks[k] == '(':
            p.i = k
            try:
                nd = p.node()
            except Exception:
                break
            while nd is not None and nd[0] == 'expr_list':
                if nd[1] == 'REG_EQUAL':
                    ins.equal = nd[2]
                    break
                nd = nd[3]
            break
        k += 1
    return ins


_fn = re.compile(r'^;; Function (.*) \((\S+?), funcdef_no=')


def parse_dump(text):
    """-> dict asm_name -> list of lines (lazy)."""
    funcs = {}
    cur = None
    for l in text.split('\n'):
        if l.startswith(';; Function '):
            m = _fn.match(l)
            if not m:
                raise RtlError('function header %r' % l)
            cur = []
            # asm name may carry a suffix such as ".constprop.0"
            funcs[m.group(2)] = cur
        elif cur is not None:
            cur.append(l)
    return funcs


def parse_function(name, lines):
    f = Func(name, name)
    # keep only the part after "Full RTL generated"
    start = 0
    for i, l in enumerate(lines):
        if l.startswith(';; Full RTL generated'):
            start = i
    for txt in _split_insns(lines[start:]):
        if not txt.startswith('('):
            continue
        ins = parse_insn(txt)
        if ins is not None:
            f.insns.append(ins)
    return f


# ---------------------------------------------------------------- .s data
def parse_asm_data(text):
    """Return symbol -> bytes for data directives in the assembly output."""
    data = {}
    relocs = {}
    cur = None
    import struct
    align_names = {}
    setre = re.compile(r'^\s*\.set\s+([\w.$*]+)\s*,\s*([\w.$]+)\s*(?:\+\s*(\d+))?\s*$')
    sets = []
    for l in text.split('\n'):
        s = l.split('#')[0].rstrip() if '"' not in l else l.rstrip()
        if not s:
            continue
        m = re.match(r'^([\w.$]+):', s)
        if m:
            cur = m.group(1)
            if cur not in data:
                data[cur] = bytearray()
                align_names.setdefault(len(data), cur)
            continue
        st = s.strip()
        m = setre.match(s)
        if m:
            sets.append((m.group(1), m.group(2), int(m.group(3) or 0)))
            continue
        if cur is None:
            continue
        sp = st.split(None, 1)
        op = sp[0]
        arg = sp[1] if len(sp) > 1 else ''
        try:
            if op in ('.long', '.int', '.4byte'):
                for a in arg.split(','):
                    data[cur] += (int(a, 0) & 0xffffffff).to_bytes(4, 'little')
            elif op in ('.quad', '.8byte', '.xword', '.dword'):
                for a in arg.split(','):
                    a = a.strip()
                    if re.match(r'^-?\d', a):
                        data[cur] += (int(a, 0) & (2**64 - 1)).to_bytes(8, 'little')
                    else:
                        relocs[(cur, len(data[cur]))] = a
                        data[cur] += b'\0' * 8
            elif op in ('.value', '.short', '.2byte', '.hword'):
                for a in arg.split(','):
                    data[cur] += (int(a, 0) & 0xffff).to_bytes(2, 'little')
            elif op == '.byte':
                for a in arg.split(','):
                    data[cur] += (int(a, 0) & 0xff).to_bytes(1, 'little')
            elif op in ('.zero', '.skip', '.space'):
                data[cur] += b'\0' * int(arg.split(',')[0], 0)
            elif op in ('.ascii', '.string'):
                body = arg.strip()[1:-1]
                b = bytearray()
                i = 0
                while i < len(body):
                    c = body[i]
                    if c == '\\':
                        mm = re.match(r'\\([0-7]{1,3})', body[i:])
                        if mm:
                            b.append(int(mm.group(1), 8) & 255)
                            i += len(mm.group(0))
                            continue
                        c2 = body[i + 1]
                        b.append({'n': 10, 't': 9, 'b': 8, 'f': 12, 'r': 13,
                                  '\\': 92, '"': 34}.get(c2, ord(c2)))
                        i += 2
                        continue
                    b.append(ord(c))
                    i += 1
                if op == '.string':
                    b.append(0)
                data[cur] += b
            elif op in ('.text',) or op.startswith('.section') or op in ('.data', '.bss'):
                cur = None
        except ValueError:
            data[cur] = bytearray()
            cur = None
    for name, base, off in sets:
        if base in data:
            data[name] = data[base][off:]
    return {k: bytes(v) for k, v in data.items()}, relocs

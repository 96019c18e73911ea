"""Symbolic evaluation (strongest postcondition with state merging) of the RTL
GCC generated for one probe function."""
import heapq
import re
from fractions import Fraction
from . import term as t
from . import rtl
from . import fpconc
from . import fpspec
from . import ceval
from .term import const, ext, cat, ite, bit


class Unsupported(Exception):
    pass


_modes = {}
_SC = {'QI': 8, 'HI': 16, 'SI': 32, 'DI': 64, 'TI': 128, 'OI': 256, 'XI': 512,
       'SF': 32, 'DF': 64, 'XF': 128, 'TF': 128, 'HF': 16, 'BI': 1, 'V1TI': 128,
       'CI': 384, 'EI': 384, 'SD': 32, 'DD': 64}


class Mode:
    __slots__ = ('name', 'n', 'ew', 'fp', 'w', 'elt', 'vec', 'fw')

    def __repr__(self):
        return self.name


def mode(name):
    m = _modes.get(name)
    if m is None:
        m = Mode()
        m.name = name
        r = re.match(r'^V(\d+)([A-Z]+)$', name or '')
        if r:
            m.vec = True
            m.n = int(r.group(1))
            m.elt = r.group(2)
        else:
            m.vec = False
            m.n = 1
            m.elt = name
        if m.elt not in _SC:
            raise Unsupported('mode %s' % name)
        m.ew = _SC[m.elt]
        m.fp = m.elt in ('SF', 'DF', 'XF', 'TF', 'HF')
        m.fw = 80 if m.elt == 'XF' else m.ew
        m.w = m.ew * m.n
        _modes[name] = m
    return m


def width(v):
    return sum(x.w for x in v)


def one(v):
    return v[0] if len(v) == 1 else cat(v)


def lanes(v, ew):
    """Re-segment a value into lanes of ew bits."""
    for x in v:
        if x.w != ew:
            break
    else:
        return v
    out = []
    cur = []
    cw = 0
    for x in v:
        p = 0
        while p < x.w:
            take = min(ew - cw, x.w - p)
            cur.append(ext(x, p, take))
            cw += take
            p += take
            if cw == ew:
                out.append(cat(cur))
                cur = []
                cw = 0
    if cur:
        out.append(cat(cur))
    return tuple(out)


def slice_(v, lo, w):
    out = []
    p = 0
    hi = lo + w
    for x in v:
        q = p + x.w
        if q > lo and p < hi:
            s = max(lo, p)
            e = min(hi, q)
            out.append(ext(x, s - p, e - s))
        p = q
        if p >= hi:
            break
    return tuple(out)


def common_seg(a, b):
    """refine two values to a common segmentation"""
    if len(a) == len(b) and all(x.w == y.w for x, y in zip(a, b)):
        return a, b
    ca = set()
    p = 0
    for x in a:
        p += x.w
        ca.add(p)
    tot = p
    p = 0
    for x in b:
        p += x.w
        ca.add(p)
    cs = sorted(ca)
    if cs[-1] != tot or p != tot:
        raise Unsupported('width mismatch %d %d' % (tot, p))

    def refine(v):
        out = []
        p = 0
        i = 0
        for x in v:
            q = 0
            while q < x.w:
                n = cs[i] - p
                out.append(ext(x, q, n))
                q += n
                p += n
                i += 1
        return tuple(out)
    return refine(a), refine(b)


def vite(c, a, b):
    if a is b or a == b:
        return a
    a, b = common_seg(a, b)
    return tuple(ite(c, x, y) for x, y in zip(a, b))


class Region:
    __slots__ = ('name', 'base', 'size', 'writable', 'b', 'kind', 'readable', 'align', 'valid')

    def __init__(self, name, base, size, writable, kind):
        self.name = name
        self.base = base
        self.size = size          # None: grows (stack)
        self.writable = writable
        self.b = {}
        self.kind = kind
        self.align = None         # known alignment of parameters in bytes
        self.valid = None         # [(offset, size, condition)]: accessible only if condition

    def copy(self):
        r = Region(self.name, self.base, self.size, self.writable, self.kind)
        r.b = dict(self.b)
        r.align = self.align
        r.valid = self.valid
        return r

    def put(self, off, v):
        """v: tuple of terms with byte multiple widths (else merged)."""
        if any(x.w & 7 for x in v):
            v = lanes((cat(v),), 8) if True else v
        o = off
        b = self.b
        for x in v:
            for i in range(x.w >> 3):
                b[o] = (x, i)
                o += 1

    def get(self, off, n):
        out = []
        o = off
        end = off + n
        b = self.b
        while o < end:
            e = b.get(o)
            if e is None:
                x = t.var('%s@%d' % (self.name, o), 8)
                b[o] = (x, 0)
                out.append(x)
                o += 1
                continue
            x, i = e
            nb = x.w >> 3
            j = i
            p = o
            while p < end and j < nb:
                e2 = b.get(p)
                if e2 is None or e2[0] is not x or e2[1] != j:
                    break
                p += 1
                j += 1
            if i == 0 and j == nb:
                out.append(x)
            else:
                out.append(ext(x, 8 * i, 8 * (j - i)))
            o = p
        return tuple(out)


class State:
    __slots__ = ('regs', 'hard', 'mem', 'owned', 'pc', 'cc', 'ret', 'sp', 'heap')

    def fork(self):
        s = State()
        s.regs = dict(self.regs)
        s.hard = dict(self.hard)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = self.pc
        s.cc = self.cc
        s.sp = self.sp
        return s

    def region_w(self, name):
        if name not in self.owned:
            self.mem[name] = self.mem[name].copy()
            self.owned.add(name)
        return self.mem[name]


def merge_states(a, b):
    pa, pb = a.pc, b.pc
    ib = {x.id for x in pb}
    common = tuple(x for x in pa if x.id in ib)
    ic = {x.id for x in common}
    da = [x for x in pa if x.id not in ic]
    db = [x for x in pb if x.id not in ic]
    ca = t.band(*da) if da else t.TRUE
    cb = t.band(*db) if db else t.TRUE
    s = State()
    r = t.bor(ca, cb)
    s.pc = common + (() if r is t.TRUE else (r,))
    if a.sp != b.sp:
        raise Unsupported('sp mismatch at join')
    s.sp = a.sp
    s.cc = a.cc if a.cc == b.cc else None

    def mrg(d, e):
        o = {}
        for k, v in d.items():
            w = e.get(k)
            if w is None:
                continue
            if v is w or v == w:
                o[k] = v
            elif width(v) == width(w):
                o[k] = vite(ca, v, w)
        return o
    s.regs = mrg(a.regs, b.regs)
    s.hard = mrg(a.hard, b.hard)
    s.mem = {}
    s.owned = set()
    for k, ra in a.mem.items():
        rb = b.mem.get(k)
        if rb is None:
            s.mem[k] = ra
            continue
        if ra is rb:
            s.mem[k] = ra
            continue
        nr = ra.copy()
        keys = set(ra.b) | set(rb.b)
        diff = sorted(o for o in keys if ra.b.get(o) != rb.b.get(o))
        # group into maximal runs
        i = 0
        while i < len(diff):
            j = i
            while j + 1 < len(diff) and diff[j + 1] == diff[j] + 1:
                j += 1
            off, ln = diff[i], diff[j] - diff[i] + 1
            va = ra.get(off, ln)
            vb = rb.get(off, ln)
            nr.put(off, vite(ca, va, vb))
            i = j + 1
        s.mem[k] = nr
        s.owned.add(k)
    for k, rb in b.mem.items():
        if k not in s.mem:
            s.mem[k] = rb
    return s


class Split(Exception):
    def __init__(self, v, i):
        self.v = v
        self.i = i


def split_state(s, e, val):
    """s under the assumption that bit i of v is val; None if infeasible"""
    b = bit(e.v, e.i)
    hi = [ext(e.v, e.i + 1, e.v.w - e.i - 1)] if e.i + 1 < e.v.w else []
    lo = [ext(e.v, 0, e.i)] if e.i else []
    m = {b.id: val, t.bnot(b).id: t.bnot(val), e.v.id: cat(lo + [val] + hi)}
    memo = {}
    pc = []
    for q in s.pc:
        q = t.subst(q, m, memo)
        if q is t.FALSE:
            return None
        if q is not t.TRUE:
            pc.append(q)
    r = s.fork()
    r.pc = tuple(pc) + (b if val is t.TRUE else t.bnot(b),)
    for d in (r.regs, r.hard):
        for k, v in d.items():
            d[k] = tuple(t.subst(x, m, memo) for x in v)
    return r


class Oblig:
    __slots__ = ('kind', 'label', 'pc', 'goal', 'loc', 'extra')

    def __init__(self, kind, label, pc, goal, loc=None, extra=None):
        self.kind = kind
        self.label = label
        self.pc = pc
        self.goal = goal
        self.loc = loc
        self.extra = extra


# ---------------------------------------------------------------- helpers
def hexfloat_bits(dec, hx, w):
    d = dec.lower()
    if 'inf' in d:
        return fpconc.frac_to_bits(Fraction(10) ** 5000, w, False) | ((1 << (w - 1)) if d.startswith('-') else 0)
    if 'nan' in d:
        return None
    if hx is None:
        # e.g. 0.0
        neg = dec.startswith('-')
        return fpconc.frac_to_bits(Fraction(dec), w, neg)
    m = re.match(r'^(-?)0x([0-9a-f]*)\.?([0-9a-f]*)p([+-]?\d+)$', hx)
    if not m:
        raise Unsupported('float literal %r' % hx)
    s, ip, fpart, e = m.groups()
    n = int((ip + fpart) or '0', 16)
    fr = Fraction(n) * Fraction(2) ** (int(e) - 4 * len(fpart))
    return fpconc.frac_to_bits(-fr if s else fr, w, bool(s))


class Program:
    def __init__(self, dump_text, asm_text, arch='x86'):
        self.funcs = rtl.parse_dump(dump_text)
        self.data, self.relocs = rtl.parse_asm_data(asm_text)
        self.arch = arch
        self.cache = {}
        self.asm = asm_text
        # aliases of functions (complete and base object constructors)
        self.alias = {m.group(1): m.group(2) for m in
                      re.finditer(r'^\s*\.set\s+([\w.$]+)\s*,\s*([\w.$]+)\s*$', asm_text, re.M)}
        self.asm_fn = None

    def nan_const(self, fn, uid, w):
        """bits of a constant that insn `uid` of `fn` materialises, taken from
        the assembly (compiled with -dp, RTL optimisation passes disabled)"""
        if self.asm_fn is None:
            self.asm_fn = {}
            cur = None
            for l in self.asm.split('\n'):
                m = re.match(r'^([\w.$]+):', l)
                if m and not m.group(1).startswith('.L'):
                    cur = self.asm_fn.setdefault(m.group(1), {})
                    continue
                if cur is None:
                    continue
                m = re.match(r'^\t(\S+)\s+(.*?)\t# (\d+)\t\[', l)
                if m:
                    cur.setdefault(int(m.group(3)), []).append((m.group(1), m.group(2)))
                    cur.setdefault('order', []).append((int(m.group(3)), m.group(1), m.group(2)))
        l = self.asm_fn.get(fn, {}).get(uid)
        if not l or len(l) != 1:
            return None
        op, args = l[0]
        if re.match(r'^v?(pxor[dq]?|xorp[sd])$', op):
            return 0 if len({z.strip() for z in args.split(',')}) == 1 else None
        m = re.match(r'^\$(0x[0-9a-fA-F]+|\d+),', args)
        if m and op in ('movl', 'movq') and w == {'l': 32, 'q': 64}[op[3]]:
            return int(m.group(1), 0)
        if re.match(r'^v?pcmpeq[bwd]$', op):
            a = [z.strip() for z in args.split(',')]
            if len(set(a)) == 1:
                return (1 << w) - 1
            return None
        if op in ('vpternlogd', 'vpternlogq') and args.startswith('$0xFF'):
            return (1 << w) - 1
        m = re.search(r'(\.LC\d+)(?:\+(\d+))?\(%rip\)', args)
        if m and ('mov' in op or 'broadcast' in op or 'lddqu' in op):
            d = self.data.get(m.group(1))
            if d is None:
                return None
            o = int(m.group(2) or 0)
            d = d[o:]
            if 'broadcast' in op:
                n = {'vbroadcastss': 4, 'vbroadcastsd': 8, 'vpbroadcastd': 4, 'vpbroadcastq': 8,
                     'vbroadcastf128': 16, 'vbroadcasti128': 16, 'vbroadcastf32x4': 16,
                     'vbroadcasti32x4': 16, 'vbroadcastf64x4': 32, 'vbroadcasti64x4': 32}.get(op)
                if n is None or len(d) < n:
                    return None
                d = d[:n] * (w // 8 // n)
            if len(d) < w // 8:
                return None
            return int.from_bytes(d[:w // 8], 'little')
        return None

    def lost_const(self, fn, uid, w):
        """bits of a constant-pool value that a later pass moved from insn `uid` into
        the only instructions that copy the register it was loaded into"""
        b = self.nan_const(fn, uid, w)
        if b is not None:
            return b
        insns = self.func(fn).insns
        src = [i for i in insns if i.uid == uid]
        if len(src) != 1 or src[0].pat[0] != 'set' or src[0].pat[2][0] != 'reg':
            return None
        reg = src[0].pat[2]
        vals = set()
        for i in insns:
            if i.pat is not None and i.pat[0] == 'set' and i.pat[3] == reg:
                b = self.nan_const(fn, i.uid, w)
                if b is None:
                    # a new instruction right before this one materialises the value
                    o = self.asm_fn.get(fn, {}).get('order', [])
                    at = [k for k, e in enumerate(o) if e[0] == i.uid]
                    known = {q.uid for q in insns}
                    if len(at) == 1 and at[0] > 0 and o[at[0] - 1][0] not in known:
                        u, _, args = o[at[0] - 1]
                        dst = args.split(',')[-1].strip()
                        a = o[at[0]][2].split(',')
                        if 'mov' in o[at[0]][1] and a[0].strip()[-2:] == dst[-2:] and 'mm' in dst:
                            b = self.nan_const(fn, u, w)
                vals.add(b)
        return vals.pop() if len(vals) == 1 else None

    def func(self, name):
        f = self.cache.get(name)
        if f is None:
            f = rtl.parse_function(name, self.funcs[name])
            build_cfg(f)
            self.cache[name] = f
        return f


class Block:
    __slots__ = ('idx', 'insns', 'label', 'fall', 'rpo', 'has_ctz', 'reach')


def low_of_mem(x, d):
    """x is the low part of the memory d"""
    if x[0] == 'mem':
        return x[2] == d[2]
    if x[0] == 'subreg':
        return int(x[3]) == 0 and low_of_mem(x[2], d)
    if x[0] == 'vec_concat':
        return low_of_mem(x[2], d)
    if x[0] == 'vec_select':
        sel = x[3]
        if sel[0] != 'parallel':
            return False
        return [i[2] for i in sel[2]] == list(range(len(sel[2]))) and low_of_mem(x[2], d)
    return False


def build_cfg(f):
    blocks = []
    cur = None
    lab2blk = {}
    pending_fall = None
    for ins in f.insns:
        if ins.kind == 'code_label':
            nb = Block()
            nb.idx = len(blocks)
            nb.insns = []
            nb.fall = None
            blocks.append(nb)
            if cur is not None:
                cur.fall = nb.idx
            lab2blk[ins.uid] = nb.idx
            cur = nb
            continue
        if ins.kind == 'barrier':
            cur = None
            continue
        if ins.kind == 'jump_table_data':
            continue
        if cur is None:
            cur = Block()
            cur.idx = len(blocks)
            cur.insns = []
            cur.fall = None
            blocks.append(cur)
        cur.insns.append(ins)
        if ins.kind == 'jump_insn':
            nb = Block()
            nb.idx = len(blocks)
            nb.insns = []
            nb.fall = None
            blocks.append(nb)
            cur.fall = nb.idx
            cur = nb
    f.exitblk = cur.idx if cur is not None else -1
    f.blocks = blocks
    f.lab2blk = lab2blk
    # rpo
    succ = []
    for b in blocks:
        s = []
        for ins in b.insns:
            if ins.kind == 'jump_insn':
                _labels(ins.pat, s)
        ss = [lab2blk[x] for x in s if x in lab2blk]
        if b.fall is not None:
            ss.append(b.fall)
        succ.append(ss)
    seen = set()
    order = []
    st = [(0, iter(succ[0]))] if blocks else []
    if blocks:
        seen.add(0)
    while st:
        v, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(succ[x])))
                break
        else:
            order.append(v)
            st.pop()
    order.reverse()
    for b in blocks:
        b.rpo = 10**6
        b.has_ctz = any(_has(ins.pat, 'ctz') for ins in b.insns)
        b.reach = set()
        todo = list(succ[b.idx])
        while todo:
            x = todo.pop()
            if x not in b.reach:
                b.reach.add(x)
                todo.extend(succ[x])
    for i, v in enumerate(order):
        blocks[v].rpo = i


def _has(n, h):
    if isinstance(n, tuple):
        return bool(n) and (n[0] == h or any(_has(x, h) for x in n[1:]))
    if isinstance(n, list):
        return any(_has(x, h) for x in n)
    return False


def _labels(n, out):
    if isinstance(n, tuple):
        if n and n[0] == 'label_ref':
            out.append(n[2])
            return
        for x in n[1:]:
            _labels(x, out)
    elif isinstance(n, list):
        for x in n:
            _labels(x, out)


LIBM = {}


class Eval:
    def __init__(self, prog, contracts=None, max_steps=6000):
        self.prog = prog
        self.obligs = []
        self.steps = 0
        self.max_steps = max_steps
        self.contracts = contracts or {}
        self.loc = None
        self.lines = set()
        self.nondets = 0
        self.fdiv = False
        self.trace_unsupported = None
        self.calls = []

    # ------------------------------------------------------------ driver
    def oblige(self, s, kind, goal, label=''):
        if goal is t.TRUE:
            self.obligs.append(Oblig(kind, label, s.pc, goal, self.loc))
            return
        self.obligs.append(Oblig(kind, label, s.pc, goal, self.loc))

    def new_state(self):
        s = State()
        s.regs = {}
        s.hard = {}
        s.mem = {}
        s.owned = set()
        s.pc = ()
        s.cc = None
        s.sp = 0
        return s

    depth = 0
    split_ok = False

    def run(self, fname, s):
        """Evaluate function body from state s; returns merged exit state."""
        f = self.prog.func(fname)
        save_fn = getattr(self, 'cur_fn', None)
        self.cur_fn = fname
        if not f.blocks:
            raise Unsupported('empty function %s' % fname)
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('call depth')
        saved = s.regs
        s.regs = {}
        frame = '%s#%d' % (fname, self.depth)
        fbase = self.region_base('stack_' + frame)
        if 'stack_' + frame in s.mem:
            del s.mem['stack_' + frame]
        s.mem['stack_' + frame] = Region('stack_%s' % frame, fbase, None, True, 'stack')
        s.owned.add('stack_' + frame)
        s.regs['virtual-stack-vars'] = (fbase,)
        spb = self.region_base('spframe')
        if 'spframe' not in s.mem:
            s.mem['spframe'] = Region('spframe', spb, None, True, 'stack')
            s.owned.add('spframe')
        s.regs['virtual-incoming-args'] = (t.add(spb, const(s.sp, 64)),)
        pend = {0: s}
        heap = [(0, 0)]
        blocks = f.blocks
        exitp = None
        later = {}            # block -> state split off, see split_state
        while heap or later:
            for lb in list(later):
                if not any(lb in blocks[x].reach for x in pend):
                    st2 = later.pop(lb)
                    if lb in pend:
                        pend[lb] = merge_states(pend[lb], st2)
                    else:
                        pend[lb] = st2
                        heapq.heappush(heap, (blocks[lb].rpo, lb))
            _, bi = heapq.heappop(heap)
            st = pend.pop(bi)
            blk = blocks[bi]
            if bi in later:
                st = merge_states(st, later.pop(bi))
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step limit (loop bound?)')
            if blk.has_ctz and bi in blk.reach:
                # loop over the set bits: case distinction on the lowest unknown bit
                while True:
                    snap = st.fork()
                    no, nn = len(self.obligs), self.nondets
                    self.split_ok = True
                    try:
                        outs = self.block(f, blk, st)
                        break
                    except Split as e:
                        del self.obligs[no:]
                        self.nondets = nn
                        sb = split_state(snap, e, t.FALSE)
                        st = split_state(snap, e, t.TRUE)
                        if sb is not None:
                            if bi in later:
                                sb = merge_states(later[bi], sb)
                            later[bi] = sb
                        if st is None:
                            outs = []
                            break
                    finally:
                        self.split_ok = False
            else:
                outs = self.block(f, blk, st)
            for (bj, st2) in outs:
                if bj == 'ret':
                    exitp = st2 if exitp is None else merge_states(exitp, st2)
                    continue
                if bj in pend:
                    pend[bj] = merge_states(pend[bj], st2)
                else:
                    pend[bj] = st2
                    heapq.heappush(heap, (blocks[bj].rpo, bj))
        self.depth -= 1
        self.cur_fn = save_fn
        if exitp is not None:
            exitp.regs = saved
            exitp.sp = s.sp if exitp is s else exitp.sp
        return exitp

    def region_base(self, name):
        return t.var('&' + name, 64)

    def block(self, f, blk, s):
        for ins in blk.insns:
            self.loc = ins.loc
            if ins.loc and ins.loc[0].startswith('/repo'):
                self.lines.add(ins.loc)
            elif ins.loc and '/experimental/bits/' in ins.loc[0]:
                self.lines.add(ins.loc)
            if ins.kind == 'jump_insn':
                return self.jump(f, blk, ins, s)
            if ins.kind == 'call_insn':
                s2 = self.call(ins, s)
                if s2 is None:
                    return []
                s = s2
                continue
            self.insn_uid = ins.uid
            self.insn_equal = ins.equal
            self.exec(ins.pat, s)
        if blk.fall is not None:
            return [(blk.fall, s)]
        # fell off the end: either the function's end or __builtin_unreachable
        if blk.idx == f.exitblk:
            return [('ret', s)]
        self.oblige(s, 'unreachable', t.FALSE, 'control reaches __builtin_unreachable')
        return []

    def jump(self, f, blk, ins, s):
        p = ins.pat
        if p[0] == 'parallel':
            p = p[2][0]
        if p[0] in ('simple_return', 'return'):
            return [('ret', s)]
        if p[0] != 'set' or p[2][0] != 'pc':
            raise Unsupported('jump %r' % (p,))
        src = p[3]
        if src[0] == 'label_ref':
            return [(f.lab2blk[src[2]], s)]
        if src[0] == 'if_then_else':
            c = self.cond(src[2], s)
            tl = src[3]
            el = src[4]

            def dest(x):
                if x[0] == 'label_ref':
                    return f.lab2blk[x[2]]
                if x[0] == 'pc':
                    return blk.fall
                if x[0] in ('simple_return', 'return'):
                    return 'ret'
                raise Unsupported('jump dest')
            return self.branch(c, dest(tl), dest(el), s)
        raise Unsupported('jump %r' % (src[0],))

    def branch(self, c, d1, d2, s):
        if c.op != 'c':
            for q in s.pc:
                if q is c:
                    c = t.TRUE
                    break
                if t._notmemo.get(c.id) is q:
                    c = t.FALSE
                    break
        if c is t.TRUE:
            return [(d1, s)]
        if c is t.FALSE:
            return [(d2, s)]
        if d1 == d2:
            return [(d1, s)]
        s2 = s.fork()
        s.pc = s.pc + (c,)
        s2.pc = s2.pc + (t.bnot(c),)
        return [(d1, s), (d2, s2)]

    # ------------------------------------------------------------ insns
    def exec(self, p, s):
        h = p[0]
        if h == 'set':
            self.set(p[2], p[3], s)
        elif h == 'parallel':
            # evaluate all sources first
            sets = [q for q in p[2] if q[0] == 'set']
            if len(sets) == 1:
                self.set(sets[0][2], sets[0][3], s)
            elif any(q[2][0] == 'mem' and q[2][1] == 'BLK' for q in sets):
                self.rep_string(sets, [q[2] for q in p[2] if q[0] == 'use'], s)
            else:
                vals = []
                for q in sets:
                    vals.append(self.src(q[2], q[3], s))
                for q, v in zip(sets, vals):
                    self.store(q[2], v, s)
        elif h in ('clobber', 'use', 'prefetch'):
            if h == 'clobber' and p[2][0] == 'reg':
                (s.hard if isinstance(p[2][2], int) and p[2][2] in rtl.HARD else s.regs).pop(p[2][2], None)
        elif h == 'trap_if':
            self.oblige(s, 'trap', t.FALSE, 'trap reached')
        elif h == 'unspec_volatile':
            nm = p[3]
            if nm in ('UNSPECV_BLOCKAGE', 'UNSPECV_VZEROUPPER'):
                return
            raise Unsupported('unspec_volatile %s' % nm)
        elif h == 'asm_operands' or h == 'asm_input':
            raise Unsupported('asm')
        elif h == 'nil' or p is None:
            return
        else:
            raise Unsupported('pattern %s' % h)

    def rep_string(self, sets, uses, s):
        """rep stos / rep movs: constant count, direction flag clear (ABI)"""
        blk = [q for q in sets if q[2][0] == 'mem'][0]
        regs = [q for q in sets if q[2][0] == 'reg']
        cnt = [q for q in regs if q[3][0] == 'const_int' and q[3][2] == 0]
        if len(cnt) != 1 or len(regs) != len(sets) - 1:
            raise Unsupported('string instruction')
        n = one(self.ev(cnt[0][2], s, 'DI'))
        if n.op != 'c' or n.k > 4096:
            raise Unsupported('string instruction count')
        dst = self.ev(blk[2][2], s, 'DI')
        upd = [(q[2], self.ev(q[3], s, 'DI')) for q in regs]
        inc = [v for r, v in upd if r[2] == blk[2][2][2]]
        if len(inc) != 1:
            raise Unsupported('string instruction')
        total = t.sub(one(inc[0]), one(dst))
        if total.op != 'c' or (n.k and total.k % n.k):
            raise Unsupported('string instruction step')
        u = total.k // n.k if n.k else 1
        src = blk[3]
        if src[0] == 'mem':
            base = self.ev(src[2], s, 'DI')
        else:
            us = [x for x in uses if x[0] == 'reg' and x[2] != cnt[0][2][2]]
            if len(us) != 1 or u not in (1, 2, 4, 8):
                raise Unsupported('string instruction value')
            val = (ext(one(self.ev(us[0], s, us[0][1])), 0, 8 * u),)
        for i in range(n.k):
            o = const(i * u, 64)
            if src[0] == 'mem':
                val = self.load(t.add(one(base), o), u, s)
            self.write_at(t.add(one(dst), o), val, s)
        for r, v in upd:
            self.store(r, v, s)

    def dmode(self, d):
        h = d[0]
        if h in ('reg', 'subreg', 'mem'):
            return d[1]
        if h == 'strict_low_part':
            return self.dmode(d[2])
        if h == 'zero_extract':
            return None
        raise Unsupported('dest %s' % h)

    def set(self, d, srcx, s):
        if d[0] == 'reg' and d[1] is not None and d[1].startswith('CC'):
            s.cc = self.ccval(srcx, s)
            if d[2] != 17 and self.prog.arch == 'x86':
                raise Unsupported('cc reg')
            return
        # masked store patterns
        if d[0] == 'mem' and srcx[0] in ('vec_merge', 'unspec', 'subreg'):
            if self.masked_store(d, srcx, s):
                return
        if srcx[0] == 'call':
            raise Unsupported('call in set')
        v = self.src(d, srcx, s)
        self.store(d, v, s)

    def src(self, d, srcx, s):
        if d[0] == 'reg' and d[1] is not None and d[1].startswith('CC'):
            return ('cc', self.ccval(srcx, s))
        if d[0] == 'zero_extract':
            w = self.cint(d[3])
            v = self.ev(srcx, s, d[1])
            return (ext(one(v), 0, w),)
        m = self.dmode(d)
        if m == 'BLK':
            raise Unsupported('BLK')
        v = self.ev(srcx, s, m)
        return v

    def cint(self, x):
        if x[0] != 'const_int':
            raise Unsupported('expected const_int')
        return x[2]

    def store(self, d, v, s):
        if v and v[0] == 'cc':
            s.cc = v[1]
            return
        h = d[0]
        if h == 'reg':
            if isinstance(d[2], int) and d[2] in rtl.HARD:
                if rtl.HARD[d[2]] == 'sp':
                    self.set_sp(one(v), s)
                else:
                    s.hard[d[2]] = v
            else:
                s.regs[d[2]] = v
        elif h == 'mem':
            self.write(d, v, s)
        elif h == 'subreg':
            inner = d[2]
            off = int(d[3])
            if inner[0] != 'reg':
                raise Unsupported('subreg of %s dest' % inner[0])
            iw = mode(inner[1]).w
            ow = width(v)
            d2 = s.hard if isinstance(inner[2], int) and inner[2] in rtl.HARD else s.regs
            old = d2.get(inner[2])
            if ow >= iw:
                d2[inner[2]] = slice_(v, 0, iw)
                return
            if old is None:
                old = (t.fresh(iw, 'undef'),)
            lo = off * 8
            parts = ()
            # Bytes of the same word outside the stored part become undefined,
            # except that GCC keeps them for multi-word inner modes.
            word = 64
            wlo = lo // word * word
            whi = min(iw, max(wlo + word, lo + ow))
            if wlo > 0:
                parts += slice_(old, 0, wlo)
            if lo > wlo:
                parts += (t.fresh(lo - wlo, 'undef'),)
            parts += tuple(v)
            if lo + ow < whi:
                parts += (t.fresh(whi - lo - ow, 'undef'),)
            if whi < iw:
                parts += slice_(old, whi, iw - whi)
            d2[inner[2]] = parts
        elif h == 'strict_low_part':
            sub = d[2]
            if sub[0] == 'subreg':
                inner = sub[2]
                d2 = s.hard if isinstance(inner[2], int) and inner[2] in rtl.HARD else s.regs
                iw = mode(inner[1]).w
                old = d2.get(inner[2]) or (t.fresh(iw, 'undef'),)
                ow = mode(sub[1]).w
                o = 8 * int(sub[3])
                nv = (tuple(slice_(old, 0, o)) if o else ()) + tuple(slice_(v, 0, ow))
                d2[inner[2]] = nv + (tuple(slice_(old, o + ow, iw - o - ow)) if o + ow < iw else ())
            else:
                raise Unsupported('strict_low_part')
        elif h == 'zero_extract':
            # (zero_extract (reg) width pos)
            inner, w, pos = d[2], self.cint(d[3]), self.cint(d[4])
            old = one(self.ev(inner, s, inner[1]))
            nv = ext(one(v), 0, w)
            ps = []
            if pos:
                ps.append(ext(old, 0, pos))
            ps.append(nv)
            if pos + w < old.w:
                ps.append(ext(old, pos + w, old.w - pos - w))
            if inner[0] == 'subreg' and mode(inner[1]).w > mode(inner[2][1]).w:
                self.store(inner[2], (ext(cat(ps), 0, mode(inner[2][1]).w),), s)
            else:
                self.store(inner, (cat(ps),), s)
        else:
            raise Unsupported('store to %s' % h)

    # ------------------------------------------------------------ memory
    def set_sp(self, v, s):
        spb = self.region_base('spframe')
        d = t.sub(v, spb)
        if d.op != 'c':
            raise Unsupported('sp')
        s.sp = t._tos(d.k, 64)

    def resolve(self, addr, s):
        """-> list of (cond, regionname, offset term)"""
        if addr.op == 'ite':
            r = []
            for c, n, o in self.resolve(addr.a[1], s):
                r.append((t.band(addr.a[0], c), n, o))
            for c, n, o in self.resolve(addr.a[2], s):
                r.append((t.band(t.bnot(addr.a[0]), c), n, o))
            return r
        base = None
        if addr.op == 'v':
            base = addr
        elif addr.op == 'add':
            for x, k in zip(addr.a, addr.k[1]):
                if k == 1 and x.op == 'v' and x.k.startswith('&'):
                    if base is not None:
                        raise Unsupported('two bases')
                    base = x
                elif k == 1 and x.op == 'ite' and base is None:
                    rest = t.sub(addr, x)
                    return self.resolve(ite(x.a[0], t.add(x.a[1], rest), t.add(x.a[2], rest)), s)
        elif addr.op == 'cat':
            # aligned pointer arithmetic: base & ~mask is not expected
            raise Unsupported('address %s' % t.pp(addr))
        if base is None or not base.k.startswith('&'):
            raise Unsupported('address %s' % t.pp(addr))
        name = base.k[1:]
        if name not in s.mem:
            self.make_symbol(name, s)
        off = t.sub(addr, base)
        return [(t.TRUE, name, off)]

    def make_symbol(self, name, s):
        if not name.startswith('@'):
            raise Unsupported('unknown region %s' % name)
        sym = name[1:]
        data = self.prog.data.get(sym)
        if data is None or not data:
            raise Unsupported('no data for symbol %s' % sym)
        r = Region(name, self.region_base(name), len(data), False, 'const')
        # aggregate into 4-byte consts for fewer segments
        r.put(0, tuple(const(x, 8) for x in data))
        s.mem[name] = r

    def candidates(self, off, n, size):
        """possible constant offsets of a symbolic offset term"""
        leaves = set()
        st = [off]
        seen = set()
        ok = True
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'c':
                leaves.add(t._tos(x.k, 64))
            elif x.op == 'ite':
                st.append(x.a[1])
                st.append(x.a[2])
            else:
                ok = False
                break
            if len(seen) > 600:
                ok = False
                break
        if ok:
            return sorted(o for o in leaves if 0 <= o <= size - n), True
        step = 1
        if off.op == 'cat' and off.a[0].op == 'c' and off.a[0].k == 0:
            step = 1 << min(off.a[0].w, 12)
            base = 0
        elif off.op == 'add':
            base = off.k[0]
            tz = 64
            for x, k in zip(off.a, off.k[1]):
                z = 0
                if x.op == 'cat' and x.a[0].op == 'c' and x.a[0].k == 0:
                    z = x.a[0].w
                z += (k & -k).bit_length() - 1
                tz = min(tz, z)
            step = 1 << min(tz, 12)
        else:
            base = 0
        base = t._tos(base, 64) % step
        return list(range(base, size - n + 1, step)), False

    def access_check(self, reg, off, n, s, cond, kind):
        if reg.size is None:
            return
        if off.op == 'c':
            o = t._tos(off.k, 64)
            g = t.TRUE if 0 <= o and o + n <= reg.size else t.FALSE
        else:
            if n > reg.size:
                g = t.FALSE
            else:
                g = t.ule(off, const(reg.size - n, 64))
        if g is not t.TRUE:
            g = t.bor(t.bnot(cond), g)
        if kind == 'write' and not reg.writable:
            self.oblige(s, 'frame', t.bnot(cond), 'write to %s outside the assigns clause' % reg.name)
        self.oblige(s, 'bounds', g, '%s of %d bytes in %s' % (kind, n, reg.name))
        if reg.valid is not None:
            if off.op == 'c':
                offs = [(t._tos(off.k, 64), t.TRUE)]
            else:
                offs = [(o, t.eq(off, const(o, 64))) for o in self.candidates(off, n, reg.size)[0]]
            for o, c in offs:
                cc = t.band(c, cond)
                if cc is t.FALSE:
                    continue
                for i, (a, sz, v) in enumerate(reg.valid):
                    if a < o + n and o < a + sz:
                        self.oblige(s, 'selected', t.bor(t.bnot(cc), v),
                                    '%s of %s[%d] only if selected' % (kind, reg.name, i))

    def load(self, addr, n, s, cond=t.TRUE):
        rs = self.resolve(addr, s)
        val = None
        for c, name, off in rs:
            reg = s.mem[name]
            cc = t.band(c, cond)
            if cc is t.FALSE:
                continue
            self.access_check(reg, off, n, s, cc, 'read')
            if off.op == 'c':
                o = t._tos(off.k, 64)
                if reg.size is not None and (o < 0 or o + n > reg.size):
                    v = (t.fresh(8 * n, 'oob'),)
                else:
                    v = reg.get(o, n)
            else:
                if reg.size is None:
                    size = self.stack_extent(reg, off, n)
                    v = self.load_stack(reg, off, n)
                else:
                    cands, _ = self.candidates(off, n, reg.size)
                    if len(cands) > 4096:
                        raise Unsupported('too many address candidates')
                    v = (t.fresh(8 * n, 'oob'),) if not cands else reg.get(cands[-1], n)
                    for o in reversed(cands[:-1]):
                        v = vite(t.eq(off, const(o, 64)), reg.get(o, n), v)
            val = v if val is None else vite(c, v, val)
        if val is None:
            val = (t.fresh(8 * n, 'oob'),)
        return val

    def stack_extent(self, reg, off, n):
        return None

    def load_stack(self, reg, off, n):
        # offsets: constant part plus symbolic; candidates are stored slots
        base = t._tos(off.k[0], 64) if off.op == 'add' else 0
        cands, exact = self._stack_cands(reg, off, n)
        if not cands:
            raise Unsupported('symbolic stack read')
        v = reg.get(cands[-1], n)
        for o in reversed(cands[:-1]):
            v = vite(t.eq(off, const(o, 64)), reg.get(o, n), v)
        return v

    def _stack_cands(self, reg, off, n):
        leaves = set()
        st = [off]
        seen = set()
        ok = True
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'c':
                leaves.add(t._tos(x.k, 64))
            elif x.op == 'ite':
                st.append(x.a[1])
                st.append(x.a[2])
            else:
                ok = False
                break
        if ok:
            return sorted(leaves), True
        base = t._tos(off.k[0], 64) if off.op == 'add' else 0
        step = 1
        if off.op == 'add':
            tz = 64
            for x, k in zip(off.a, off.k[1]):
                z = 0
                if x.op == 'cat' and x.a[0].op == 'c' and x.a[0].k == 0:
                    z = x.a[0].w
                z += (k & -k).bit_length() - 1
                tz = min(tz, z)
            step = 1 << min(tz, 12)
        elif off.op == 'cat' and off.a[0].op == 'c' and off.a[0].k == 0:
            step = 1 << off.a[0].w
        # all currently defined offsets at or above base, contiguous
        c = []
        o = base
        while o in reg.b and len(c) < 1024:
            c.append(o)
            o += step
        # also below base (negative indices do not occur in practice)
        return c, False

    def write_at(self, addr, v, s, cond=t.TRUE):
        n = width(v) // 8
        rs = self.resolve(addr, s)
        for c, name, off in rs:
            cc = t.band(c, cond)
            if cc is t.FALSE:
                continue
            reg = s.region_w(name)
            self.access_check(reg, off, n, s, cc, 'write')
            if off.op == 'c':
                o = t._tos(off.k, 64)
                if reg.size is not None and (o < 0 or o + n > reg.size):
                    continue
                if cc is t.TRUE:
                    reg.put(o, v)
                else:
                    reg.put(o, vite(cc, v, reg.get(o, n)))
            else:
                if reg.size is None:
                    cands, _ = self._stack_cands(reg, off, n)
                    if not cands:
                        raise Unsupported('symbolic stack write')
                else:
                    cands, _ = self.candidates(off, n, reg.size)
                if len(cands) > 4096:
                    raise Unsupported('too many address candidates')
                olds = [(o, reg.get(o, n)) for o in cands]
                if len(cands) > 1 and cands[1] - cands[0] < n:
                    # overlapping candidates: sequentially compose
                    for o in cands:
                        reg.put(o, vite(t.band(cc, t.eq(off, const(o, 64))), v, reg.get(o, n)))
                else:
                    for o, old in olds:
                        reg.put(o, vite(t.band(cc, t.eq(off, const(o, 64))), v, old))

    def addr(self, x, s):
        h = x[0]
        if h in ('pre_dec', 'pre_inc', 'post_inc', 'post_dec', 'pre_modify', 'post_modify'):
            raise Unsupported('autoinc address')
        return one(self.ev(x, s, 'DI'))

    def memaddr(self, m, s):
        a = m[2]
        if a[0] == 'pre_dec':
            r = a[2]
            if rtl.HARD.get(r[2]) == 'sp':
                n = mode(m[1]).w // 8
                if n < 8:
                    n = 8
                s.sp -= n
                return t.add(self.region_base('spframe'), const(s.sp, 64))
        if a[0] == 'pre_modify' and a[2][0] == 'reg' and rtl.HARD.get(a[2][2]) == 'sp':
            v = one(self.ev(a[3], s, 'DI'))
            self.set_sp(v, s)
            return v
        r = self.addr(a, s)
        if m[4] >= 128 and m[1] and mode(m[1]).w >= 128 and mode(m[1]).elt != 'XF':
            self.align_check(r, m[4] // 8, s)
        return r

    def align_check(self, addr, al, s):
        """the compiler relies on the address of this vector access being a multiple of al"""
        for c, name, off in self.resolve(addr, s):
            reg = s.mem[name]
            if reg.kind != 'param' or reg.align is None:
                continue
            if reg.align % al:
                g = t.FALSE
            else:
                k = al.bit_length() - 1
                g = t.eq(ext(off, 0, k), const(0, k))
            if g is not t.TRUE:
                g = t.bor(t.bnot(c), g)
            self.oblige(s, 'align', g, 'aligned access to %s (%d bytes)' % (name, al))

    def write(self, m, v, s):
        mm = mode(m[1])
        if mm.elt == 'XF' and width(v) == 128:
            # stores write 10 bytes; padding is unspecified
            v = (ext(one(v), 0, 80), t.fresh(48, 'xfpad')) if mm.n == 1 else v
        if m[3]:
            self.volatile = True
        self.write_at(self.memaddr(m, s), v, s)

    def masked_store(self, d, x, s):
        if x[0] == 'vec_merge':
            # (vec_merge val mem mask)
            if x[3][0] == 'mem' and x[3][2] == d[2]:
                m = mode(d[1])
                val = lanes(self.ev(x[2], s, d[1]), m.ew)
                k = self.maskbits(x[4], s, m.n)
                base = self.memaddr(d, s)
                for i in range(m.n):
                    self.write_at(t.add(base, const(i * m.ew // 8, 64)), (val[i],), s, k[i])
                return True
            return False
        if x[0] == 'subreg':
            # narrowing masked store: (subreg (vec_merge val (low part of mem) mask) 0)
            y = x[2]
            if int(x[3]) != 0 or y[0] != 'vec_merge' or not low_of_mem(y[3], d) or mode(y[1]).w != mode(d[1]).w:
                return False
            m = mode(y[1])
            val = lanes(self.ev(y[2], s, y[1]), m.ew)
            k = self.maskbits(y[4], s, m.n)
            base = self.memaddr(d, s)
            for i in range(m.n):
                self.write_at(t.add(base, const(i * m.ew // 8, 64)), (val[i],), s, k[i])
            return True
        nm = x[3]
        if nm == 'UNSPEC_MASKMOV' or nm == 'UNSPEC_MASKSTORE':
            mref = [i for i, y in enumerate(x[2]) if y[0] == 'mem' and y[2] == d[2]]
            if len(mref) != 1:
                return False
            m = mode(d[1])
            ops = [y for i, y in enumerate(x[2]) if i not in mref]
            if len(ops) != 2:
                return False
            # V16QI maskmovdqu: (data, mask); AVX maskstore: (mask, data)
            a0, a1 = ops
            base = self.memaddr(d, s)
            if a1[0] == 'const_int' or (a1[1] and not mode(a1[1]).vec):
                # avx512: (data, kmask)
                val = lanes(self.ev(a0, s, d[1]), m.ew)
                k = self.maskbits(a1, s, m.n)
            elif m.name == 'V16QI':
                val = lanes(self.ev(a0, s, d[1]), 8)
                mk = lanes(self.ev(a1, s, d[1]), 8)
                k = [bit(y, 7) for y in mk]
                # maskmovdqu does not suppress faults on bytes that are not selected
                for c, name, off in self.resolve(base, s):
                    self.access_check(s.mem[name], off, 16, s, c, 'write')
            else:
                mi = self.xmode(a0)
                if mode(mi).fp or not mode(mi).vec:
                    raise Unsupported('maskstore operand order')
                mk = lanes(self.ev(a0, s, mi), m.ew)
                val = lanes(self.ev(a1, s, d[1]), m.ew)
                k = [bit(y, y.w - 1) for y in mk]
            for i in range(m.n):
                self.write_at(t.add(base, const(i * m.ew // 8, 64)), (val[i],), s, k[i])
            return True
        return False

    def xmode(self, x):
        return x[1]

    def maskbits(self, x, s, n):
        """mask operand of vec_merge -> list of n boolean terms"""
        if x[0] == 'const_int':
            return [const(x[2] >> i, 1) for i in range(n)]
        m = self.xmode(x)
        v = one(self.ev(x, s, m))
        if v.w < n:
            raise Unsupported('mask too narrow')
        return [bit(v, i) for i in range(n)]

    # ------------------------------------------------------------ CC
    def ccval(self, x, s):
        h = x[0]
        if h == 'compare':
            if x[1] in ('CCFP', 'CCFPE') or (x[2][1] or x[3][1] or '') in ('SF', 'DF', 'XF', 'HF'):
                m = x[2][1] or x[3][1]
                mm = mode(m)
                a = self.fpv(one(self.ev(x[2], s, m)), mm)
                b = self.fpv(one(self.ev(x[3], s, m)), mm)
                return ('fp', a, b)
            m = x[2][1] or x[3][1]
            a = one(self.ev(x[2], s, m))
            b = one(self.ev(x[3], s, m))
            return ('int', a, b)
        if h == 'unspec':
            nm = x[3]
            if nm in ('UNSPEC_PTEST', 'UNSPEC_VTESTP'):
                m = self.xmode(x[2][0])
                a = self.ev(x[2][0], s, m)
                b = self.ev(x[2][1], s, m)
                mm = mode(m)
                if nm == 'UNSPEC_VTESTP':
                    a = tuple(bit(y, y.w - 1) for y in lanes(a, mm.ew))
                    b = tuple(bit(y, y.w - 1) for y in lanes(b, mm.ew))
                zf = t.TRUE
                cf = t.TRUE
                a2, b2 = common_seg(a, b)
                z = const(0, 1)
                zs = [t.eq(t.band(p, q), const(0, p.w)) for p, q in zip(a2, b2)]
                cs = [t.eq(t.bandn(p, q), const(0, p.w)) for p, q in zip(a2, b2)]
                return ('flags', t.band(*zs), t.band(*cs))
            if nm == 'UNSPEC_KORTEST':
                m = self.xmode(x[2][0])
                a = one(self.ev(x[2][0], s, m))
                b = one(self.ev(x[2][1], s, m))
                o = t.bor(a, b)
                return ('flags', t.eq(o, const(0, o.w)), t.eq(o, const(-1, o.w)))
            if nm == 'UNSPEC_KTEST':
                m = self.xmode(x[2][0])
                a = one(self.ev(x[2][0], s, m))
                b = one(self.ev(x[2][1], s, m))
                return ('flags', t.eq(t.band(a, b), const(0, a.w)),
                        t.eq(t.bandn(a, b), const(0, a.w)))
            if nm == 'UNSPEC_NOTRAP' or nm == 'UNSPEC_OPTCOMX':
                return self.ccval(x[2][0], s)
            raise Unsupported('cc %s' % nm)
        if h == 'reg':
            return s.cc
        raise Unsupported('cc %s' % h)

    def cond(self, x, s):
        """boolean condition -> 1-bit term"""
        h = x[0]
        if h in ('eq', 'ne', 'lt', 'gt', 'le', 'ge', 'ltu', 'gtu', 'leu', 'geu', 'unordered',
                 'ordered', 'uneq', 'ltgt', 'unlt', 'unle', 'ungt', 'unge'):
            a0 = x[2]
            if a0[0] == 'reg' and a0[1] and a0[1].startswith('CC'):
                if s.cc is None:
                    raise Unsupported('undefined flags')
                k, a, b = s.cc
                if k == 'fp':
                    return self.fpcond(h, a, b)
                if a0[1] == 'CCC' and h in ('eq', 'ne'):
                    # GCC uses EQ/NE on CCC for the carry flag itself (setc/setnc)
                    if k != 'flags':
                        raise Unsupported('carry flag of a comparison')
                    return b if h == 'eq' else t.bnot(b)
                if k == 'flags':
                    if h == 'eq':
                        return a
                    if h == 'ne':
                        return t.bnot(a)
                    if h == 'ltu':
                        return b
                    if h == 'geu':
                        return t.bnot(b)
                    if h == 'gtu':
                        return t.band(t.bnot(a), t.bnot(b))
                    if h == 'leu':
                        return t.bor(a, b)
                    raise Unsupported('flags cond %s' % h)
                return self.icond(h, a, b)
            m = a0[1] or x[3][1]
            mm = mode(m)
            a = one(self.ev(a0, s, m))
            b = one(self.ev(x[3], s, m))
            if mm.fp:
                return self.fpcond(h, self.fpv(a, mm), self.fpv(b, mm))
            return self.icond(h, a, b)
        if h == 'and':
            return t.band(self.cond(x[2], s), self.cond(x[3], s))
        raise Unsupported('cond %s' % h)

    def fpv(self, v, mm):
        return ext(v, 0, 80) if mm.elt == 'XF' else v

    def icond(self, h, a, b):
        if h == 'eq':
            return t.eq(a, b)
        if h == 'ne':
            return t.ne(a, b)
        if h == 'lt':
            return t.slt(a, b)
        if h == 'gt':
            return t.slt(b, a)
        if h == 'le':
            return t.sle(a, b)
        if h == 'ge':
            return t.sle(b, a)
        if h == 'ltu':
            return t.ult(a, b)
        if h == 'gtu':
            return t.ult(b, a)
        if h == 'leu':
            return t.ule(a, b)
        if h == 'geu':
            return t.ule(b, a)
        raise Unsupported('int cond %s' % h)

    def fpcond(self, h, a, b):
        fp = t.fp
        if h == 'eq':
            return fp('eq', [a, b], 1)
        if h == 'ne':
            return t.bnot(fp('eq', [a, b], 1))
        if h == 'lt':
            return fp('lt', [a, b], 1)
        if h == 'gt':
            return fp('lt', [b, a], 1)
        if h == 'le':
            return fp('le', [a, b], 1)
        if h == 'ge':
            return fp('le', [b, a], 1)
        u = fp('uno', [a, b], 1)
        if h == 'unordered':
            return u
        if h == 'ordered':
            return t.bnot(u)
        if h == 'uneq':
            return t.bor(u, fp('eq', [a, b], 1))
        if h == 'ltgt':
            return t.bnot(t.bor(u, fp('eq', [a, b], 1)))
        if h == 'unlt':
            return t.bnot(fp('le', [b, a], 1))
        if h == 'unle':
            return t.bnot(fp('lt', [b, a], 1))
        if h == 'ungt':
            return t.bnot(fp('le', [a, b], 1))
        if h == 'unge':
            return t.bnot(fp('lt', [a, b], 1))
        raise Unsupported('fp cond %s' % h)

    # ------------------------------------------------------------ exprs
    def ev(self, x, s, m):
        """-> tuple of segments with total width of mode m"""
        f = getattr(self, 'e_' + x[0], None)
        if f is None:
            raise Unsupported('rtx %s' % x[0])
        return f(x, s, x[1] or m)

    def e_reg(self, x, s, m):
        n = x[2]
        d = s.hard if isinstance(n, int) and n in rtl.HARD else s.regs
        v = d.get(n)
        w = mode(m).w
        if v is None:
            if isinstance(n, int) and n in rtl.HARD and rtl.HARD[n] == 'sp':
                return (t.add(self.region_base('spframe'), const(s.sp, 64)),)
            if n == 'virtual-outgoing-args':
                return (t.add(self.region_base('spframe'), const(s.sp, 64)),)
            v = (t.fresh(w, 'undef'),)
            d[n] = v
        vw = width(v)
        if vw != w:
            if vw > w:
                return slice_(v, 0, w)
            return tuple(v) + (t.fresh(w - vw, 'undef'),)
        return v

    def e_subreg(self, x, s, m):
        inner = x[2]
        off = int(x[3])
        w = mode(m).w
        im = inner[1]
        if im is None:
            raise Unsupported('subreg of modeless')
        v = self.ev(inner, s, im)
        iw = width(v)
        if w + off * 8 > iw:
            if off:
                raise Unsupported('paradoxical subreg with offset')
            return tuple(v) + (t.fresh(w - iw, 'undef'),)
        if off == 0 and w == iw:
            return v
        return slice_(v, off * 8, w)

    def e_mem(self, x, s, m):
        mm = mode(m)
        if x[2][0] == 'symbol_ref' and x[2][2].startswith('.LC') and not self.prog.data.get(x[2][2]):
            # the constant pool entry was materialised differently by a later pass
            q = self.insn_equal
            if q is not None and q[0] in ('const_vector', 'const_double', 'const_int', 'const_wide_int'):
                return self.ev(q, s, m)
            b = self.prog.lost_const(self.cur_fn, self.insn_uid, mm.w)
            if b is not None:
                return (const(b, mm.w),)
            return (t.fresh(mm.w, 'lostconst'),)
        if mm.elt == 'XF' and mm.n == 1:
            v = self.load(self.memaddr(x, s), 10, s)
            return tuple(v) + (t.fresh(48, 'xfpad'),)
        return self.load(self.memaddr(x, s), mm.w // 8, s)

    def e_const_int(self, x, s, m):
        mm = mode(m)
        if mm.vec:
            raise Unsupported('const_int in vector mode')
        return (const(x[2], mm.w),)

    def e_const_double(self, x, s, m):
        mm = mode(m)
        b = hexfloat_bits(x[2], x[3], mm.fw)
        if b is None:
            sgn = 1 if x[2].startswith('-') else 0
            if mm.fw == 80:
                b = (sgn << 79) | (0x7fff << 64) | (3 << 62)
            else:
                b = self.prog.nan_const(self.cur_fn, self.insn_uid, mm.fw)
                if b is None:
                    raise Unsupported('NaN literal with unknown payload')
        if mm.elt == 'XF':
            return (const(b, 80), t.fresh(48, 'xfpad'))
        return (const(b, mm.w),)

    def e_const_vector(self, x, s, m):
        mm = mode(m)
        if mm.fp and any(y[0] == 'const_double' and 'NaN' in y[2] for y in x[2]):
            b = self.prog.nan_const(self.cur_fn, self.insn_uid, mm.w)
            if b is None:
                raise Unsupported('NaN literal with unknown payload')
            return lanes((const(b, mm.w),), mm.ew)
        out = []
        for y in x[2]:
            out.extend(self.ev(y, s, mm.elt))
        return tuple(out)

    def e_symbol_ref(self, x, s, m):
        return (self.region_base('@' + x[2]),)

    def e_label_ref(self, x, s, m):
        raise Unsupported('label address')

    def e_const(self, x, s, m):
        return self.ev(x[2], s, m)

    def e_if_then_else(self, x, s, m):
        c = self.cond(x[2], s)
        return vite(c, self.ev(x[3], s, m), self.ev(x[4], s, m))

    def lane2(self, x, s, m):
        mm = mode(m)
        a = lanes(self.ev(x[2], s, m), mm.ew)
        b = lanes(self.ev(x[3], s, m), mm.ew)
        return mm, a, b

    def arith(self, x, s, m, iop, fop):
        mm, a, b = self.lane2(x, s, m)
        if mm.fp:
            if fop is None:
                raise Unsupported('fp %s' % x[0])
            if mm.elt == 'XF':
                return (t.fp(fop, [ext(one(a), 0, 80), ext(one(b), 0, 80)], 80), t.fresh(48, 'xfpad'))
            return tuple(t.fp(fop, [p, q], mm.ew) for p, q in zip(a, b))
        return tuple(iop(p, q) for p, q in zip(a, b))

    def e_plus(self, x, s, m):
        # conditional add-with-carry forms have conditions as operands
        return self.arith2(x, s, m, t.add, 'add')

    def e_minus(self, x, s, m):
        return self.arith2(x, s, m, t.sub, 'sub')

    _conds = {'ltu', 'geu', 'eq', 'ne', 'lt', 'gt', 'le', 'ge', 'gtu', 'leu'}

    def arith2(self, x, s, m, iop, fop):
        return self.arith(x, s, m, iop, fop)

    def e_mult(self, x, s, m):
        return self.arith(x, s, m, t.mul, 'mul')

    def e_umul_highpart(self, x, s, m):
        return self.highpart(x, s, m, t.zext)

    def e_smul_highpart(self, x, s, m):
        return self.highpart(x, s, m, t.sext)

    def highpart(self, x, s, m, f):
        mm, a, b = self.lane2(x, s, m)
        return tuple(ext(t.mul(f(p, 2 * mm.ew), f(q, 2 * mm.ew)), mm.ew, mm.ew) for p, q in zip(a, b))

    def e_div(self, x, s, m):
        return self.divs(x, s, m, 'sdiv')

    def e_mod(self, x, s, m):
        return self.divs(x, s, m, 'srem')

    def e_udiv(self, x, s, m):
        return self.divs(x, s, m, 'udiv')

    def e_umod(self, x, s, m):
        return self.divs(x, s, m, 'urem')

    def divs(self, x, s, m, op):
        mm, a, b = self.lane2(x, s, m)
        if mm.fp:
            if mm.elt == 'XF':
                return (t.fp('div', [ext(one(a), 0, 80), ext(one(b), 0, 80)], 80), t.fresh(48, 'xfpad'))
            if self.fdiv:
                # no element of the register, padding included, may be divided by zero
                for q in b:
                    self.oblige(s, 'fdiv', t.ne(ext(q, 0, mm.ew - 1), const(0, mm.ew - 1)),
                                'floating-point division by zero')
            return tuple(t.fp('div', [p, q], mm.ew) for p, q in zip(a, b))
        out = []
        for p, q in zip(a, b):
            self.oblige(s, 'div', t.ne(q, const(0, q.w)), 'integer division by zero')
            if op[0] == 's':
                w = q.w
                g = t.bnot(t.band(t.eq(p, const(1 << (w - 1), w)), t.eq(q, const(-1, w))))
                self.oblige(s, 'div', g, 'integer division overflow')
            out.append(t.divop(op, p, q))
        return tuple(out)

    def e_neg(self, x, s, m):
        mm = mode(m)
        a = lanes(self.ev(x[2], s, m), mm.ew)
        if mm.elt == 'XF':
            return (t.flip(ext(one(a), 0, 80)), t.fresh(48, 'xfpad'))
        if mm.fp:
            return tuple(t.f_neg(p) for p in a)
        return tuple(t.neg(p) for p in a)

    def e_abs(self, x, s, m):
        mm = mode(m)
        a = lanes(self.ev(x[2], s, m), mm.ew)
        if mm.elt == 'XF':
            return (t.f_abs(ext(one(a), 0, 80)), t.fresh(48, 'xfpad'))
        if mm.fp:
            return tuple(t.f_abs(p) for p in a)
        return tuple(ite(bit(p, p.w - 1), t.neg(p), p) for p in a)

    def bitw(self, x, s, m, f):
        a = self.ev(x[2], s, m)
        b = self.ev(x[3], s, m)
        a, b = common_seg(a, b)
        return tuple(f(p, q) for p, q in zip(a, b))

    def e_and(self, x, s, m):
        # blsr
        y, z = x[2], x[3]
        for p, q in ((y, z), (z, y)):
            if p[0] == 'plus' and p[3] == ('const_int', None, -1) and p[2] == q:
                return (t.blsr(one(self.ev(q, s, m))),)
        a = self.ev(y, s, m)
        b = self.ev(z, s, m)
        mm = mode(m)
        if not mm.vec:
            p, q = one(a), one(b)
            if q.op == 'c' and q.w == 64 and q.k in ((1 << 64) - 8, (1 << 64) - 16) and p.op in ('v', 'add'):
                # rounding down an address in a frame: frames are 16-byte aligned (ABI)
                bs = [(u, k) for u, k in zip(p.a, p.k[1])] if p.op == 'add' else [(p, 1)]
                if len(bs) == 1 and bs[0][1] == 1 and bs[0][0].op == 'v' and bs[0][0].k.startswith('&stack_'):
                    off = p.k[0] if p.op == 'add' else 0
                    return (t.sub(p, const(off & ~q.k & 15, 64)),)
            for u, v in ((p, q), (q, p)):
                if u.op == 'add' and t.sub(u, v) is const(-1, u.w):
                    return (t.blsr(v),)
            if q.op == 'cat' and p.op == 'add' and t.add(p, const(1, p.w)) is q:
                return (t.blsr(q),)
            if p.op == 'cat' and q.op == 'add' and t.add(q, const(1, p.w)) is p:
                return (t.blsr(p),)
        a, b = common_seg(a, b)
        return tuple(t.band(p, q) for p, q in zip(a, b))

    def e_ior(self, x, s, m):
        return self.bitw(x, s, m, t.bor)

    def e_xor(self, x, s, m):
        return self.bitw(x, s, m, t.bxor)

    def e_not(self, x, s, m):
        return tuple(t.bnot(p) for p in self.ev(x[2], s, m))

    # shifts
    def shift(self, x, s, m, f):
        mm = mode(m)
        a = lanes(self.ev(x[2], s, m), mm.ew)
        cnt = x[3]
        if cnt[0] == 'const_int':
            n = [const(min(cnt[2], mm.ew) if cnt[2] >= 0 else mm.ew, mm.ew)] * mm.n
        elif cnt[1] and mode(cnt[1]).vec and mode(cnt[1]).n == mm.n and mode(cnt[1]).ew == mm.ew and mm.vec:
            n = lanes(self.ev(cnt, s, cnt[1]), mm.ew)
        elif mm.vec:
            # count in the low 64 bits of an xmm register, or a scalar
            v = self.ev(cnt, s, cnt[1])
            c = one(v)
            if c.w > 64:
                c = ext(c, 0, 64)
            # saturate
            if c.w > mm.ew:
                hi = ext(c, mm.ew, c.w - mm.ew)
                lo = ext(c, 0, mm.ew)
                c = ite(t.eq(hi, const(0, hi.w)), lo, const(-1, mm.ew))
            elif c.w < mm.ew:
                c = t.zext(c, mm.ew)
            n = [c] * mm.n
        else:
            c = one(self.ev(cnt, s, cnt[1] or 'QI'))
            # scalar shifts truncate counts on x86 (out-of-range is UB anyway)
            if c.w < mm.ew:
                c = t.zext(c, mm.ew)
            elif c.w > mm.ew:
                c = ext(c, 0, mm.ew)
            if mm.ew in (8, 16, 32, 64):
                msk = 63 if mm.ew == 64 else 31
                if c.op == 'c':
                    c = const(c.k & msk, c.w)
                else:
                    c = t.band(c, const(msk, c.w))
            n = [c] * mm.n
        return tuple(f(p, q) for p, q in zip(a, n))

    def e_ashift(self, x, s, m):
        return self.shift(x, s, m, t.shl)

    def e_lshiftrt(self, x, s, m):
        return self.shift(x, s, m, t.lshr)

    def e_ashiftrt(self, x, s, m):
        return self.shift(x, s, m, t.ashr)

    def e_rotate(self, x, s, m, left=True):
        mm = mode(m)
        a = lanes(self.ev(x[2], s, m), mm.ew)
        if x[3][0] != 'const_int':
            raise Unsupported('variable rotate')
        n = x[3][2] % mm.ew
        if not left:
            n = (mm.ew - n) % mm.ew
        if n == 0:
            return a
        return tuple(cat([ext(p, mm.ew - n, n), ext(p, 0, mm.ew - n)]) for p in a)

    def e_rotatert(self, x, s, m):
        return self.e_rotate(x, s, m, False)

    # min / max
    def e_smin(self, x, s, m):
        return self.minmax(x, s, m, t.slt, True)

    def e_smax(self, x, s, m):
        return self.minmax(x, s, m, t.slt, False)

    def e_umin(self, x, s, m):
        return self.minmax(x, s, m, t.ult, True)

    def e_umax(self, x, s, m):
        return self.minmax(x, s, m, t.ult, False)

    def minmax(self, x, s, m, lt, mn):
        mm, a, b = self.lane2(x, s, m)
        if mm.fp:
            # RTL smin/smax: unspecified for NaN and for zeros of different sign
            return tuple(t.fminmax(p, q, t.fresh(1, 'fminmax'), mn) for p, q in zip(a, b))
        if mn:
            return tuple(ite(lt(p, q), p, q) for p, q in zip(a, b))
        return tuple(ite(lt(q, p), p, q) for p, q in zip(a, b))

    # saturating
    def sat(self, x, s, m, sub, signed):
        mm, a, b = self.lane2(x, s, m)
        out = []
        for p, q in zip(a, b):
            w = p.w
            if signed:
                pe, qe = t.sext(p, w + 1), t.sext(q, w + 1)
                r = t.sub(pe, qe) if sub else t.add(pe, qe)
                hi = const((1 << (w - 1)) - 1, w + 1)
                lo = const(-(1 << (w - 1)), w + 1)
                r = ite(t.slt(hi, r), hi, ite(t.slt(r, lo), lo, r))
                out.append(ext(r, 0, w))
            elif sub:
                out.append(t.sub(ite(t.ult(p, q), q, p), q))
            else:
                r = t.add(t.zext(p, w + 1), t.zext(q, w + 1))
                out.append(ite(bit(r, w), const(-1, w), ext(r, 0, w)))
        return tuple(out)

    def e_ss_plus(self, x, s, m):
        return self.sat(x, s, m, False, True)

    def e_ss_minus(self, x, s, m):
        return self.sat(x, s, m, True, True)

    def e_us_plus(self, x, s, m):
        return self.sat(x, s, m, False, False)

    def e_us_minus(self, x, s, m):
        return self.sat(x, s, m, True, False)

    # comparisons producing values
    def cmpval(self, x, s, m):
        mm = mode(m)
        a0 = x[2]
        if mm.vec:
            im = a0[1] or x[3][1]
            ia = mode(im)
            a = lanes(self.ev(a0, s, im), ia.ew)
            b = lanes(self.ev(x[3], s, im), ia.ew)
            f = self.fpcond if ia.fp else self.icond
            return tuple(t.sx(f(x[0], p, q), mm.ew) for p, q in zip(a, b))
        c = self.cond(x, s)
        return (t.sx(c, mm.w) if mm.fp else t.zext(c, mm.w),)      # cmpss and cmpsd give a mask

    e_eq = e_ne = e_lt = e_gt = e_le = e_ge = e_ltu = e_gtu = e_leu = e_geu = cmpval
    e_unordered = e_ordered = e_uneq = e_ltgt = e_unlt = e_unle = e_ungt = e_unge = cmpval

    # conversions
    def e_sign_extend(self, x, s, m):
        return self.conv(x, s, m, t.sext)

    def e_zero_extend(self, x, s, m):
        return self.conv(x, s, m, t.zext)

    def conv(self, x, s, m, f):
        mm = mode(m)
        im = self.need_mode(x[2])
        a = lanes(self.ev(x[2], s, im), mode(im).ew)
        return tuple(f(p, mm.ew) for p in a)

    def need_mode(self, x):
        if x[1] is None:
            raise Unsupported('modeless operand %s' % x[0])
        return x[1]

    def e_truncate(self, x, s, m):
        return self.conv(x, s, m, lambda p, w: ext(p, 0, w))

    def e_ss_truncate(self, x, s, m):
        def f(p, w):
            hi = const((1 << (w - 1)) - 1, p.w)
            lo = const(-(1 << (w - 1)), p.w)
            r = ite(t.slt(hi, p), hi, ite(t.slt(p, lo), lo, p))
            return ext(r, 0, w)
        return self.conv(x, s, m, f)

    def e_us_truncate(self, x, s, m):
        # unsigned saturation of the *unsigned* input (vpmovus*); packus uses its
        # own pattern where the input is signed
        im = self.need_mode(x[2])
        if self.us_trunc_signed:
            def f(p, w):
                hi = const((1 << w) - 1, p.w)
                r = ite(bit(p, p.w - 1), const(0, p.w), ite(t.ult(hi, p), hi, p))
                return ext(r, 0, w)
        else:
            def f(p, w):
                hi = const((1 << w) - 1, p.w)
                return ext(ite(t.ult(hi, p), hi, p), 0, w)
        return self.conv(x, s, m, f)

    us_trunc_signed = False

    def e_float_extend(self, x, s, m):
        return self.fconv(x, s, m, 'f2f')

    def e_float_truncate(self, x, s, m):
        return self.fconv(x, s, m, 'f2f')

    def e_float(self, x, s, m):
        return self.fconv(x, s, m, 's2f')

    def e_unsigned_float(self, x, s, m):
        return self.fconv(x, s, m, 'u2f')

    def e_fix(self, x, s, m):
        return self.fconv(x, s, m, 'f2s')

    def e_unsigned_fix(self, x, s, m):
        return self.fconv(x, s, m, 'f2u')

    def fconv(self, x, s, m, name):
        mm = mode(m)
        im = self.need_mode(x[2])
        ia = mode(im)
        a = lanes(self.ev(x[2], s, im), ia.ew)
        out = []
        for p in a:
            if ia.elt == 'XF':
                p = ext(p, 0, 80)
            r = fconv(name, p, mm.fw)
            if mm.elt == 'XF':
                out.append(r)
                out.append(t.fresh(48, 'xfpad'))
            else:
                out.append(r)
        return tuple(out)

    def e_sqrt(self, x, s, m):
        mm = mode(m)
        a = lanes(self.ev(x[2], s, m), mm.ew)
        if mm.elt == 'XF':
            return (t.fp('sqrt', [ext(one(a), 0, 80)], 80), t.fresh(48, 'xfpad'))
        return tuple(t.fp('sqrt', [p], mm.ew) for p in a)

    def e_fma(self, x, s, m):
        mm = mode(m)
        a, b, c = (lanes(self.ev(y, s, m), mm.ew) for y in x[2:5])
        return tuple(fma(p, q, r) for p, q, r in zip(a, b, c))

    def e_ctz(self, x, s, m):
        v = one(self.ev(x[2], s, x[2][1] or m))
        w = mode(m).w
        if self.split_ok:
            for i in range(v.w):
                b = bit(v, i)
                if b.op != 'c':
                    raise Split(v, i)
                if b.k:
                    break
        return (t.ctz(v, w, t.var('ctz0_%d' % w, w)),)

    def e_clz(self, x, s, m):
        v = one(self.ev(x[2], s, x[2][1] or m))
        w = mode(m).w
        return (t.clz(v, w, t.var('clz0_%d' % w, w)),)

    def e_popcount(self, x, s, m):
        mm = mode(m)
        if mm.vec:
            return tuple(t.popcount(p) for p in lanes(self.ev(x[2], s, m), mm.ew))
        v = one(self.ev(x[2], s, x[2][1] or m))
        return (t.popcount(v, mm.w),)

    def e_bswap(self, x, s, m):
        v = one(self.ev(x[2], s, m))
        return tuple(reversed(lanes((v,), 8)))

    def e_zero_extract(self, x, s, m, signed=False):
        v = one(self.ev(x[2], s, x[2][1]))
        w = self.cint(x[3])
        mw = mode(m).w
        pos = x[4]
        if pos[0] == 'const_int':
            r = ext(v, pos[2], w)
        else:
            p = one(self.ev(pos, s, pos[1]))
            p = t.zext(p, v.w) if p.w < v.w else ext(p, 0, v.w)
            p = t.band(p, const(v.w - 1, v.w))
            r = ext(t.lshr(v, p), 0, w)
        if w > mw:
            return (ext(r, 0, mw),)
        return (t.sext(r, mw) if signed else t.zext(r, mw),)

    def e_sign_extract(self, x, s, m):
        return self.e_zero_extract(x, s, m, True)

    # vectors
    def e_vec_select(self, x, s, m):
        im = self.need_mode(x[2])
        iw = mode(im).ew
        par = x[3]
        if par[0] != 'parallel':
            raise Unsupported('vec_select selector')
        mm = mode(m)
        src = x[2]
        idx = [self.cint(y) for y in par[2]]
        a = lanes(self.ev(src, s, im), iw)
        return tuple(a[i] for i in idx)

    def e_vec_concat(self, x, s, m):
        mm = mode(m)
        h1, h2 = x[2], x[3]
        if h1[0] in ('ss_truncate', 'us_truncate') and h2[0] == h1[0] and mm.w > 128:
            # GCC 13 describes the 256/512-bit packs without the lane interleave
            # that the instruction performs
            a = cat(list(self.ev(h1, s, h1[1])))
            b = cat(list(self.ev(h2, s, h2[1])))
            out = []
            for i in range(0, mm.w // 2, 64):
                out += [ext(a, i, 64), ext(b, i, 64)]
            return tuple(out)

        def half(y):
            if y[1] is None:
                # const_int 0 for upper part
                mw = mm.w // 2
                if y[0] == 'const_int':
                    return (const(y[2], mw),)
                if mm.n == 2:
                    return self.ev(y, s, mm.elt)
                return self.ev(y, s, 'V%d%s' % (mm.n // 2, mm.elt))
            return self.ev(y, s, y[1])
        return tuple(half(h1)) + tuple(half(h2))

    def e_vec_duplicate(self, x, s, m):
        mm = mode(m)
        im = x[2][1] or mm.elt
        v = self.ev(x[2], s, im)
        k = mm.w // width(v)
        return tuple(v) * k

    def e_vec_merge(self, x, s, m):
        mm = mode(m)
        k = self.maskbits(x[4], s, mm.n)

        def arm(y, cs):
            if y[0] == 'unspec' and y[3] == 'UNSPEC_MASKLOAD' and y[2][0][0] == 'mem':
                base = self.memaddr(y[2][0], s)
                out = []
                for i, c in enumerate(cs):
                    if c is t.FALSE:
                        out.append(const(0, mm.ew))
                    else:
                        out.append(one(self.load(t.add(base, const(i * mm.ew // 8, 64)),
                                                 mm.ew // 8, s, c)))
                return tuple(out)
            return lanes(self.evz(y, s, m), mm.ew)
        a = arm(x[2], k)
        b = arm(x[3], [t.bnot(c) for c in k])
        return tuple(ite(c, p, q) for c, p, q in zip(k, a, b))

    def evz(self, y, s, m):
        if y[0] == 'const_int' and mode(m).vec:
            if y[2] != 0:
                raise Unsupported('const_int vec')
            return (const(0, mode(m).w),)
        return self.ev(y, s, m)

    def e_unspec(self, x, s, m):
        nm = x[3]
        f = UNSPECS.get(nm)
        if f is None:
            raise Unsupported('%s' % nm)
        return f(self, x[2], s, m)

    # ------------------------------------------------------------ calls
    ARGI = ['di', 'si', 'dx', 'cx', 'r8', 'r9']

    def hreg(self, s, name, w):
        for k, v in rtl.HARD.items():
            if v == name:
                n = k
                break
        else:
            n = name
            rtl.HARD.setdefault(n, name)
        v = s.hard.get(n)
        if v is None:
            return (t.fresh(w, 'undef'),)
        vw = width(v)
        if vw >= w:
            return slice_(v, 0, w)
        return tuple(v) + (t.fresh(w - vw, 'undef'),)

    def set_hreg(self, s, name, v):
        for k, nm in rtl.HARD.items():
            if nm == name:
                s.hard[k] = v
                return
        k = HARDNUM.get(name)
        if k is None:
            raise Unsupported('no hard reg %s' % name)
        rtl.HARD[k] = name
        s.hard[k] = v

    def call(self, ins, s):
        p = ins.pat
        dest = None
        if p[0] == 'parallel':
            p = p[2][0]
        if p[0] == 'set':
            dest = p[2]
            p = p[3]
        if p[0] != 'call':
            raise Unsupported('call pattern %s' % p[0])
        fn = p[2]
        if fn[0] != 'mem' or fn[2][0] != 'symbol_ref':
            raise Unsupported('indirect call')
        name = fn[2][2]
        self.calls.append(name)
        c = self.contracts.get(name)
        if c is None:
            for k, v in self.contracts.items():
                if k.endswith('*') and name.startswith(k[:-1]):
                    c = v
                    break
        if c is not None:
            return c(self, name, s, dest)
        if name in ('memcpy', 'memmove', 'memset', '__builtin_memcpy'):
            return self.mem_call(name, s)
        if name in ('abort', '__builtin_trap', '_ZSt9terminatev'):
            self.oblige(s, 'trap', t.FALSE, 'call of %s reachable' % name)
            return None
        if name in LIBM:
            return libm_call(self, name, s, dest)
        if name in LIBM_PTR:
            return libm_ptr_call(self, name, s)
        mm = STD_CALL.match(name)
        if mm and mm.group(1) in ceval.SPECIAL:
            return std_call(self, mm.group(1), 32 if mm.group(2) == 'f' else 64, s)
        if name in ('__popcountdi2', '__popcountsi2'):
            v = one(self.hreg(s, 'di', 64 if name == '__popcountdi2' else 32))
            self.set_hreg(s, 'ax', (t.popcount(v, 32),))
            return s
        if name not in self.prog.funcs:
            name = self.prog.alias.get(name, name)
        if name in self.prog.funcs:
            r = self.run(name, s)
            if r is not None:
                # callee leaves sp as it found it
                pass
            return r
        raise Unsupported('call of %s' % name)

    def mem_call(self, name, s):
        d = one(self.hreg(s, 'di', 64))
        n = one(self.hreg(s, 'dx', 64))
        if n.op != 'c' or n.k > 65536:
            raise Unsupported('%s with symbolic size' % name)
        if name == 'memset':
            b = one(self.hreg(s, 'si', 8))
            if n.k:
                self.write_at(d, (b,) * n.k, s)
        else:
            src = one(self.hreg(s, 'si', 64))
            if n.k:
                v = self.load(src, n.k, s)
                self.write_at(d, v, s)
        self.set_hreg(s, 'ax', (d,))
        return s


HARDNUM = {'ax': 0, 'dx': 1, 'cx': 2, 'bx': 3, 'si': 4, 'di': 5, 'bp': 6, 'sp': 7,
           'r8': 36, 'r9': 37, 'r10': 38, 'r11': 39, 'st': 8, 'st(1)': 9,
           'xmm0': 20, 'xmm1': 21, 'xmm2': 22, 'xmm3': 23,
           'xmm4': 24, 'xmm5': 25, 'xmm6': 26, 'xmm7': 27}


def fconv(name, p, w):
    """conversion op with normalisation of exact compositions"""
    if name in ('s2f', 'u2f'):
        # widening int conversions: s2f(sext(x)) == s2f(x) and s2f(zext(x)) == u2f(x)
        if name == 's2f':
            n = t._sxw(p)
            if n < p.w:
                q = ext(p, 0, n)
                if q.op == 'cat' and q.a[-1].op == 'c' and q.a[-1].k == 0:
                    return fconv('u2f', ext(p, 0, n - 1), w)
                if n - 1 > 0 and bit(p, p.w - 1) is t.FALSE:
                    return fconv('u2f', ext(p, 0, n - 1), w)
                return t.fp('s2f', [q], w)
            return t.fp('s2f', [p], w)
        while p.op == 'cat' and p.a[-1].op == 'c' and p.a[-1].k == 0:
            p = ext(p, 0, p.w - p.a[-1].w)
        return t.fp('u2f', [p], w)
    if name == 'f2f':
        if p.w == w:
            return p
        return t.fp('f2f', [p], w)
    if name in ('f2s', 'f2u') and p.op == 'fp' and p.k == 'div':
        r = int_div_lemma(p, w)
        if r is not None:
            return ite(t.eq(r[1], const(0, r[1].w)), t.fp(name, [p], w), r[0])
    if name == 'f2s' and w == 32 and p.op == 'fp' and p.k == 'add' and p.w == 64:
        # floor(x / y) - 2^31 of unsigned 32-bit x, y is exact and in range
        for c, q in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
            if c.op == 'c' and c.k == 0xc1e0000000000000 and q.op == 'fp' and q.k in ('floor', 'trunc') \
                    and q.a[0].op == 'fp' and q.a[0].k == 'div' \
                    and all(z.op == 'fp' and z.k == 'u2f' for z in q.a[0].a):
                r = int_div_lemma(q.a[0], w)
                if r is not None:
                    return ite(t.eq(r[1], const(0, r[1].w)), t.fp(name, [p], w), t.flip(r[0]))
    return t.fp(name, [p], w)


def int_div_lemma(p, w):
    """trunc(RN(x / y)) for integers x, y that are exact in the format equals the
    truncating integer quotient when |x|+|y| < 2^precision (lemma L1, DESIGN.md)"""
    prec = 24 if p.w == 32 else 53 if p.w == 64 else 0
    xs = []
    for a in p.a:
        if a.op == 'c':
            from . import fpconc
            fr = fpconc.to_frac(a.k, a.w) if fpconc.finite(a.k, a.w) else None
            if fr is None or fr.denominator != 1 or abs(fr) >= 1 << (prec - 2):
                return None
            n = fr.numerator
            if n == 0 and a.k:
                return None
            xs.append(('k', const(n, 64)))
            continue
        if a.op != 'fp' or a.k not in ('s2f', 'u2f') or a.a[0].w > prec - 2 or a.a[0].w > 32:
            return None
        xs.append((a.k, (t.sext if a.k == 's2f' else t.zext)(a.a[0], 64)))
    if all(k != 's2f' for k, v in xs) and not any(k == 'k' and v.k >> 63 for k, v in xs):
        q = t.divop('udiv', xs[0][1], xs[1][1])
    else:
        q = t.divop('sdiv', xs[0][1], xs[1][1])
    return ext(q, 0, w), xs[1][1]


def fma(p, q, r):
    if p.id > q.id:
        p, q = q, p
    return t.fp('fma', [p, q, r], p.w)


def libm_sig(name):
    return LIBM.get(name)


def _mk_libm():
    un = '''acos asin atan cos sin tan acosh asinh atanh cosh sinh tanh exp exp2 expm1 log log10
    log1p log2 logb cbrt sqrt erf erfc lgamma tgamma ceil floor trunc round rint nearbyint roundeven
    fabs'''.split()
    bi = '''atan2 pow hypot fmod remainder copysign nextafter fdim fmax fmin'''.split()
    for n in un:
        for suf, w in (('', 64), ('f', 32), ('l', 80)):
            LIBM[n + suf] = (n, [w], w)
    for n in bi:
        for suf, w in (('', 64), ('f', 32), ('l', 80)):
            LIBM[n + suf] = (n, [w, w], w)
    for suf, w in (('', 64), ('f', 32), ('l', 80)):
        LIBM['fma' + suf] = ('fma', [w, w, w], w)
        LIBM['ldexp' + suf] = ('ldexp', [w, 'i32'], w)
        LIBM['scalbn' + suf] = ('scalbn', [w, 'i32'], w)
        LIBM['scalbln' + suf] = ('scalbln', [w, 'i64'], w)
        LIBM['ilogb' + suf] = ('ilogb', [w], 'i32')
        LIBM['lrint' + suf] = ('lrint', [w], 'i64')
        LIBM['llrint' + suf] = ('lrint', [w], 'i64')
        LIBM['lround' + suf] = ('lround', [w], 'i64')
        LIBM['llround' + suf] = ('lround', [w], 'i64')


_mk_libm()
_EXACT = {'ceil': 'ceil', 'floor': 'floor', 'trunc': 'trunc', 'rint': 'nearbyint',
          'nearbyint': 'nearbyint', 'round': 'round', 'sqrt': 'sqrt'}


def libm_term(base, args, w):
    if base in _EXACT:
        return t.fp(_EXACT[base], args, w)
    if base == 'fabs':
        return t.f_abs(args[0])
    if base == 'logb' and w in (32, 64):
        return fpspec.logb(args[0])
    if base == 'scalbn':
        base = 'ldexp'
    if base == 'fma':
        return fma(*args)
    if base in ('fmin', 'fmax'):
        x, y = args
        return ite(fpspec.isnan(x), y, ite(fpspec.isnan(y), x, t.fminmax(x, y, t.fresh(1, 'fminmax'), base == 'fmin')))
    if base == 'copysign':
        return cat([ext(args[0], 0, w - 1), bit(args[1], w - 1)])
    return t.uf('libm_' + base + str(args[0].w), args, w)


def libm_ptr_call(ev, name, s):
    """frexp, modf and remquo, which store a second result"""
    base = name.rstrip('f') if name not in ('modf',) else name
    if name in ('frexpf', 'modff', 'remquof'):
        base, w = name[:-1], 32
    else:
        base, w = name, 64
    x = one(ev.hreg(s, 'xmm0', w))
    ptr = one(ev.hreg(s, 'di', 64))
    if base == 'frexp':
        r, e, fin = fpspec.frexp(x)
        ev.write_at(ptr, (ite(fin, e, t.fresh(32, 'unspecified')),), s)
    elif base == 'modf':
        r, i = fpspec.modf(x)
        ev.write_at(ptr, (i,), s)
    else:
        y = one(ev.hreg(s, 'xmm1', w))
        r = libm_term('remquo', [x, y], w)
        ev.write_at(ptr, (t.uf('libm_remquo_quo%d' % w, [x, y], 32),), s)
    ev.set_hreg(s, 'xmm0', (r,))
    return s


LIBM_PTR = ('frexp', 'frexpf', 'modf', 'modff', 'remquo', 'remquof')


STD_CALL = re.compile(r'_ZSt\d+([a-z_]+)I([fd])EN9__gnu_cxx')


def std_call(ev, name, w, s):
    """special functions of libstdc++, uninterpreted"""
    args, fi, ii = [], 0, 0
    for c in ceval.SPECIAL[name]:
        if c == 'u':
            args.append(one(ev.hreg(s, ev.ARGI[ii], 32)))
            ii += 1
        else:
            args.append(one(ev.hreg(s, 'xmm%d' % fi, w)))
            fi += 1
    ev.set_hreg(s, 'xmm0', (t.uf('std_%s%d' % (name, w), args, w),))
    return s


def libm_call(ev, name, s, dest):
    base, sig, rw = LIBM[name]
    args = []
    fi = 0
    ii = 0
    so = 0
    for a in sig:
        if a == 'i32' or a == 'i64':
            args.append(one(ev.hreg(s, ev.ARGI[ii], int(a[1:]))))
            ii += 1
        elif a == 80:
            addr = t.add(ev.region_base('spframe'), const(s.sp + so, 64))
            args.append(ext(one(ev.load(addr, 10, s)), 0, 80))
            so += 16
        else:
            args.append(one(ev.hreg(s, 'xmm%d' % fi, a)))
            fi += 1
    if rw in ('i32', 'i64'):
        w = int(rw[1:])
        ev.set_hreg(s, 'ax', (t.uf('libm_' + base + str(args[0].w), args, w),))
        return s
    r = libm_term(base, args, rw)
    if rw == 80:
        ev.set_hreg(s, 'st', (r, t.fresh(48, 'xfpad')))
    else:
        ev.set_hreg(s, 'xmm0', (r,))
    return s


# ---------------------------------------------------------------- unspecs
UNSPECS = {}


def unspec(*names):
    def d(f):
        for n in names:
            UNSPECS[n] = f
        return f
    return d


def _l(ev, x, s, m):
    mm = mode(m)
    return lanes(ev.ev(x, s, m), mm.ew)


@unspec('UNSPEC_IEEE_MIN')
def _(ev, a, s, m):
    mm = mode(m)
    return tuple(ite(t.fp('lt', [p, q], 1), p, q) for p, q in zip(_l(ev, a[0], s, m), _l(ev, a[1], s, m)))


@unspec('UNSPEC_IEEE_MAX')
def _(ev, a, s, m):
    return tuple(ite(t.fp('lt', [q, p], 1), p, q) for p, q in zip(_l(ev, a[0], s, m), _l(ev, a[1], s, m)))


@unspec('UNSPEC_MOVMSK')
def _(ev, a, s, m):
    im = ev.need_mode(a[0])
    v = _l(ev, a[0], s, im)
    bits = [bit(p, p.w - 1) for p in v]
    return (t.zext(cat(bits), mode(m).w) if len(bits) < mode(m).w else cat(bits),)


@unspec('UNSPEC_BLENDV')
def _(ev, a, s, m):
    # (false_val, true_val, mask): selects by sign bit of each element
    mm = mode(m)
    k = [bit(c, c.w - 1) for c in lanes(ev.ev(a[2], s, a[2][1]), mm.ew)]
    # elements selected by one and the same condition are kept together
    fv, tv = ev.ev(a[0], s, m), ev.ev(a[1], s, m)
    out = []
    i = 0
    n = len(k)
    while i < n:
        g = 1
        while i % (2 * g) == 0 and i + 2 * g <= n and 2 * g * mm.ew <= 64 and all(
                k[j] is k[i] for j in range(i, i + 2 * g)):
            g *= 2
        w = g * mm.ew
        out.append(ite(k[i], lanes(tv, w)[i // g], lanes(fv, w)[i // g]))
        i += g
    return tuple(out)


def _pred(ev, p, q, imm, fpm, unsigned):
    if fpm:
        P = imm & 31
        base = ['eq', 'lt', 'le', 'unordered', 'ne', 'unlt_n', 'unle_n', 'ordered',
                'uneq', 'nge', 'ngt', 'false', 'neq_oq', 'ge', 'gt', 'true'][P & 15]
        f = ev.fpcond
        if base == 'eq':
            return f('eq', p, q)
        if base == 'ne':
            return f('ne', p, q)
        if base in ('lt', 'le', 'ge', 'gt', 'unordered', 'ordered', 'uneq'):
            return f(base, p, q)
        if base == 'unlt_n':       # NLT
            return t.bnot(f('lt', p, q))
        if base == 'unle_n':       # NLE
            return t.bnot(f('le', p, q))
        if base == 'nge':
            return t.bnot(f('ge', p, q))
        if base == 'ngt':
            return t.bnot(f('gt', p, q))
        if base == 'false':
            return t.FALSE
        if base == 'true':
            return t.TRUE
        if base == 'neq_oq':
            return f('ltgt', p, q)
    n = ['eq', 'lt', 'le', None, 'ne', 'ge', 'gt', None][imm & 7]
    if n is None:
        return t.FALSE if (imm & 7) == 3 else t.TRUE
    if unsigned and n not in ('eq', 'ne'):
        n += 'u'
    return ev.icond(n, p, q)


def _kmask(bits, w):
    v = cat(bits)
    return (t.zext(v, w) if v.w < w else ext(v, 0, w),)


@unspec('UNSPEC_PCMP')
def _(ev, a, s, m):
    im = a[0][1] or a[1][1]
    ia = mode(im)
    imm = ev.cint(a[2])
    v = [_pred(ev, p, q, imm, ia.fp, False)
         for p, q in zip(_l(ev, a[0], s, im), _l(ev, a[1], s, im))]
    mm = mode(m)
    if mm.vec:
        return tuple(t.sx(c, mm.ew) for c in v)
    return _kmask(v, mm.w)


@unspec('UNSPEC_UNSIGNED_PCMP')
def _(ev, a, s, m):
    im = a[0][1] or a[1][1]
    imm = ev.cint(a[2])
    v = [_pred(ev, p, q, imm, False, True)
         for p, q in zip(_l(ev, a[0], s, im), _l(ev, a[1], s, im))]
    return _kmask(v, mode(m).w)


@unspec('UNSPEC_MASKED_EQ')
def _(ev, a, s, m):
    im = a[0][1] or a[1][1]
    v = [t.eq(p, q) for p, q in zip(_l(ev, a[0], s, im), _l(ev, a[1], s, im))]
    return _kmask(v, mode(m).w)


@unspec('UNSPEC_MASKED_GT')
def _(ev, a, s, m):
    im = a[0][1] or a[1][1]
    v = [t.slt(q, p) for p, q in zip(_l(ev, a[0], s, im), _l(ev, a[1], s, im))]
    return _kmask(v, mode(m).w)


@unspec('UNSPEC_TESTM')
def _(ev, a, s, m):
    im = a[0][1] or a[1][1]
    v = [t.ne(t.band(p, q), const(0, p.w)) for p, q in zip(_l(ev, a[0], s, im), _l(ev, a[1], s, im))]
    return _kmask(v, mode(m).w)


@unspec('UNSPEC_TESTNM')
def _(ev, a, s, m):
    im = a[0][1] or a[1][1]
    v = [t.eq(t.band(p, q), const(0, p.w)) for p, q in zip(_l(ev, a[0], s, im), _l(ev, a[1], s, im))]
    return _kmask(v, mode(m).w)


@unspec('UNSPEC_CVTINT2MASK')
def _(ev, a, s, m):
    im = ev.need_mode(a[0])
    return _kmask([bit(p, p.w - 1) for p in _l(ev, a[0], s, im)], mode(m).w)


@unspec('UNSPEC_MASKOP')
def _(ev, a, s, m):
    return None


@unspec('UNSPEC_PSHUFB')
def _(ev, a, s, m):
    mm = mode(m)
    x = lanes(ev.ev(a[0], s, m), 8)
    k = lanes(ev.ev(a[1], s, m), 8)
    out = []
    for i in range(mm.w // 8):
        base = i // 16 * 16
        c = k[i]
        if c.op == 'c':
            out.append(const(0, 8) if c.k & 0x80 else x[base + (c.k & 15)])
        else:
            v = x[base + 15]
            for j in reversed(range(15)):
                v = ite(t.eq(ext(c, 0, 4), const(j, 4)), x[base + j], v)
            out.append(ite(bit(c, 7), const(0, 8), v))
    return tuple(out)


def _vperm(idx, tab, ibits):
    c = ext(idx, 0, ibits)
    if c.op == 'c':
        return tab[c.k]
    v = tab[-1]
    for j in reversed(range(len(tab) - 1)):
        v = ite(t.eq(c, const(j, ibits)), tab[j], v)
    return v


@unspec('UNSPEC_VPERMVAR', 'UNSPEC_VPERMSI', 'UNSPEC_VPERMSF', 'UNSPEC_VPERMV')
def _(ev, a, s, m):
    mm = mode(m)
    x = _l(ev, a[0], s, m)
    im = a[1][1]
    k = lanes(ev.ev(a[1], s, im), mm.ew)
    ib = mm.n.bit_length() - 1
    return tuple(_vperm(c, x, ib) for c in k)


@unspec('UNSPEC_VPERMT2', 'UNSPEC_VPERMI2')
def _(ev, a, s, m):
    # (index, table0, table1)
    mm = mode(m)
    if a[1][1] == m and a[2][1] == m and not (mode(a[0][1]).fp):
        k, t0, t1 = a
    else:
        raise Unsupported('vpermt2 operands')
    x = _l(ev, t0, s, m) + _l(ev, t1, s, m)
    kk = lanes(ev.ev(k, s, k[1]), mm.ew)
    ib = (2 * mm.n).bit_length() - 1
    return tuple(_vperm(c, x, ib) for c in kk)


@unspec('UNSPEC_VPERMILPX', 'UNSPEC_VPERMIL')
def _(ev, a, s, m):
    mm = mode(m)
    x = _l(ev, a[0], s, m)
    k = lanes(ev.ev(a[1], s, a[1][1]), mm.ew)
    per = 128 // mm.ew
    out = []
    for i in range(mm.n):
        b = i // per * per
        c = ext(k[i], 0, 2) if mm.ew == 32 else bit(k[i], 1)
        out.append(_vperm(c, x[b:b + per], c.w))
    return tuple(out)


@unspec('UNSPEC_VPERMTI')
def _(ev, a, s, m):
    mm = mode(m)
    x = ev.ev(a[0], s, m)
    y = ev.ev(a[1], s, m)
    imm = ev.cint(a[2])
    q = [slice_(x, 0, 128), slice_(x, 128, 128), slice_(y, 0, 128), slice_(y, 128, 128)]
    out = ()
    for sh in (0, 4):
        c = imm >> sh
        out += (const(0, 128),) if c & 8 else q[c & 3]
    return out


UNSPECS['UNSPEC_VPERMIL2F128'] = UNSPECS['UNSPEC_VPERMTI']


@unspec('UNSPEC_VPERMDI', 'UNSPEC_VPERMDF')
def _(ev, a, s, m):
    x = _l(ev, a[0], s, m)
    imm = ev.cint(a[1])
    return tuple(x[(imm >> (2 * i)) & 3] for i in range(4))


@unspec('UNSPEC_PALIGNR')
def _(ev, a, s, m):
    # (high, low, bits), per 128-bit lane
    hi, lo = ev.ev(a[0], s, m), ev.ev(a[1], s, m)
    n = ev.cint(a[2])
    w = mode(m).w
    per = 128 if w >= 128 else w
    out = ()
    for p in range(0, w, per):
        x = tuple(slice_(lo, p, per)) + tuple(slice_(hi, p, per))
        if n >= 2 * per:
            out += (const(0, per),)
        elif n + per > 2 * per:
            out += tuple(slice_(x, n, 2 * per - n)) + (const(0, n - per),)
        else:
            out += tuple(slice_(x, n, per))
    return out


@unspec('UNSPEC_ALIGN')
def _(ev, a, s, m):
    # valignd/q: (high, low, imm)
    x = _l(ev, a[1], s, m) + _l(ev, a[0], s, m)
    n = mode(m).n
    k = ev.cint(a[2]) & (n - 1)
    return tuple(x[k:k + n])


_RND = {0: 'nearbyint', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'nearbyint'}


@unspec('UNSPEC_ROUND', 'UNSPEC_ROUNDP', 'UNSPEC_VRNDSCALE')
def _(ev, a, s, m):
    mm = mode(m)
    imm = ev.cint(a[1])
    if imm >> 4:
        raise Unsupported('rndscale with fraction bits')
    x = _l(ev, a[0], s, m)
    if imm & 4:
        nm = 'nearbyint'
    else:
        nm = _RND[imm & 3]
    return tuple(t.fp(nm, [p], p.w) for p in x)


UNSPECS['UNSPEC_RNDSCALE'] = UNSPECS['UNSPEC_VRNDSCALE']


@unspec('UNSPEC_GETEXP')
def _(ev, a, s, m):
    return tuple(fpspec.logb(p) for p in _l(ev, a[0], s, m))


@unspec('UNSPEC_GETMANT')
def _(ev, a, s, m):
    if ev.cint(a[1]) != 2:
        raise Unsupported('getmant mode')
    r = []
    for x in _l(ev, a[0], s, m):
        e, p, b = fpspec.fmt(x)
        one_ = fpspec.with_exp(x, const(0, p - 1), b)
        fin = fpspec.with_exp(x, fpspec.normalised(x)[1], b - 1)
        r.append(ite(fpspec.isnan(x), x, ite(t.bor(fpspec.isinf(x), fpspec.iszero(x)), one_, fin)))
    return tuple(r)


@unspec('UNSPEC_FPCLASS')
def _(ev, a, s, m):
    imm = ev.cint(a[1])
    im = ev.need_mode(a[0])
    r = []
    for x in _l(ev, a[0], s, im):
        e, p, b = fpspec.fmt(x)
        sg = fpspec.sign(x)
        q = bit(x, p - 2)
        fin = t.band(fpspec.isfinite(x), t.bnot(fpspec.iszero(x)))
        cl = [t.band(fpspec.isnan(x), q), t.band(fpspec.iszero(x), t.bnot(sg)), t.band(fpspec.iszero(x), sg),
              t.band(fpspec.isinf(x), t.bnot(sg)), t.band(fpspec.isinf(x), sg), fpspec.issubnormal(x),
              t.band(fin, sg), t.band(fpspec.isnan(x), t.bnot(q))]
        v = t.FALSE
        for k in range(8):
            if imm >> k & 1:
                v = t.bor(v, cl[k])
        r.append(v)
    w = mode(m).w
    return (t.zext(cat(r), w) if len(r) < w else cat(r),)


@unspec('UNSPEC_SCALEF')
def _(ev, a, s, m):
    """x * 2^floor(y), rounded once; y is the conversion of a 32-bit integer (an inexact
    conversion changes nothing: the result over- or underflows either way)"""
    r = []
    for x, y in zip(_l(ev, a[0], s, m), _l(ev, a[1], s, m)):
        if y.op == 'c' and fpconc.finite(y.k, y.w):
            n = int(fpconc.to_frac(y.k, y.w))
            r.append(libm_term('ldexp', [x, const(n, 32)], x.w))
        elif y.op == 'fp' and y.k == 's2f' and y.a[0].w <= 32:
            r.append(libm_term('ldexp', [x, t.sext(y.a[0], 32) if y.a[0].w < 32 else y.a[0]], x.w))
        else:
            r.append(t.uf('scalef%d' % x.w, [x, y], x.w))
    return tuple(r)


@unspec('UNSPEC_FIX_NOTRUNC')
def _(ev, a, s, m):
    mm = mode(m)
    im = ev.need_mode(a[0])
    x = _l(ev, a[0], s, im)
    return tuple(t.fp('f2s', [t.fp('nearbyint', [p], p.w)], mm.ew) for p in x)


@unspec('UNSPEC_UNSIGNED_FIX_NOTRUNC')
def _(ev, a, s, m):
    mm = mode(m)
    im = ev.need_mode(a[0])
    x = _l(ev, a[0], s, im)
    return tuple(t.fp('f2u', [t.fp('nearbyint', [p], p.w)], mm.ew) for p in x)


@unspec('UNSPEC_PSADBW')
def _(ev, a, s, m):
    mm = mode(m)
    im = ev.need_mode(a[0])
    x = lanes(ev.ev(a[0], s, im), 8)
    y = lanes(ev.ev(a[1], s, im), 8)
    out = []
    for i in range(mm.w // 64):
        acc = const(0, 64)
        for j in range(8):
            p, q = x[8 * i + j], y[8 * i + j]
            d = ite(t.ult(p, q), t.sub(q, p), t.sub(p, q))
            acc = t.add(acc, t.zext(d, 64))
        out.append(acc)
    return tuple(out)


@unspec('UNSPEC_MASKMOV', 'UNSPEC_MASKLOAD')
def _(ev, a, s, m):
    """masked loads: only selected elements are accessed"""
    mm = mode(m)
    mems = [y for y in a if y[0] == 'mem']
    oth = [y for y in a if y[0] != 'mem']
    if len(mems) != 1:
        # avx512 maskload of a register: plain move
        if len(a) == 1:
            return ev.ev(a[0], s, m)
        raise Unsupported('maskmov')
    mem = mems[0]
    if len(oth) != 1:
        if len(oth) == 0:
            return ev.ev(mem, s, m)
        raise Unsupported('maskmov operands')
    mk = lanes(ev.ev(oth[0], s, oth[0][1]), mm.ew)
    base = ev.memaddr(mem, s)
    out = []
    for i in range(mm.n):
        c = bit(mk[i], mm.ew - 1)
        if c is t.FALSE:
            out.append(const(0, mm.ew))
            continue
        v = one(ev.load(t.add(base, const(i * mm.ew // 8, 64)), mm.ew // 8, s, c))
        out.append(ite(c, v, const(0, mm.ew)))
    return tuple(out)


@unspec('UNSPEC_LDDQU', 'UNSPEC_LOADU', 'UNSPEC_STOREU', 'UNSPEC_MOVNTDQA', 'UNSPEC_MOVNT')
def _(ev, a, s, m):
    return ev.ev(a[0], s, m)


@unspec('UNSPEC_TZCNT')
def _(ev, a, s, m):
    v = one(ev.ev(a[0], s, m))
    return (t.ctz(v, v.w, const(v.w, v.w)),)


@unspec('UNSPEC_LZCNT')
def _(ev, a, s, m):
    v = one(ev.ev(a[0], s, m))
    return (t.clz(v, v.w, const(v.w, v.w)),)


@unspec('UNSPEC_PDEP', 'UNSPEC_PEXT')
def _(ev, a, s, m):
    raise Unsupported('pdep/pext')


del UNSPECS['UNSPEC_PDEP']
del UNSPECS['UNSPEC_PEXT']


@unspec('UNSPEC_PDEP')
def _(ev, a, s, m):
    x = one(ev.ev(a[0], s, m))
    k = one(ev.ev(a[1], s, m))
    if k.op != 'c':
        raise Unsupported('pdep with symbolic mask')
    out = []
    j = 0
    for i in range(x.w):
        if (k.k >> i) & 1:
            out.append(bit(x, j))
            j += 1
        else:
            out.append(const(0, 1))
    return (cat(out),)


@unspec('UNSPEC_PEXT')
def _(ev, a, s, m):
    x = one(ev.ev(a[0], s, m))
    k = one(ev.ev(a[1], s, m))
    if k.op != 'c':
        raise Unsupported('pext with symbolic mask')
    out = [bit(x, i) for i in range(x.w) if (k.k >> i) & 1]
    if len(out) < x.w:
        out.append(const(0, x.w - len(out)))
    return (cat(out),)


@unspec('UNSPEC_CAST')
def _(ev, a, s, m):
    """widening register cast: the upper part is unspecified"""
    mm = mode(m)
    if a[0][0] == 'const_int':
        return (t.fresh(mm.w, 'undef'),)
    im = ev.need_mode(a[0])
    x = tuple(ev.ev(a[0], s, im))
    return x + (t.fresh(mm.w - width(x), 'undef'),)

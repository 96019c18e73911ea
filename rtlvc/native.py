"""Running probes natively: replay of counterexamples and bounded falsification.

A probe library is built from the very same probe sources with the ordinary
compiler options; every call happens in a forked child with each argument in its
own mapping next to an inaccessible page."""
import ctypes
import mmap
import os
import pickle
import random
import signal
import subprocess
import sys
import time
from . import term as t
from . import ceval, dsl, engine, fpconc
from .evalr import Region

PAGE = 4096
_libc = ctypes.CDLL(None, use_errno=True)
_libm = ctypes.CDLL('libm.so.6')
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


def cpu_flags():
    try:
        with open('/proc/cpuinfo') as f:
            for l in f:
                if l.startswith('flags'):
                    return set(l.split(':', 1)[1].split())
    except OSError:
        pass
    return set()


_cpu = cpu_flags()


def can_run(isa):
    return isa.arch == 'x86' and all(c in _cpu for c in isa.cpu)


def build(isa, probes, workdir, opt='-O1', nondet=False, extra=(), tag='n'):
    src, specs = engine.tu_source(probes, nondet)
    if nondet:
        src += ('\nextern "C" { unsigned char verif_cp_bits[4096]; int verif_cp_mode, verif_cp_pos; '
                'int verif_nondet_cp() noexcept { int p = verif_cp_pos++ & 4095; '
                'return verif_cp_mode == 0 ? 0 : verif_cp_mode == 1 ? 1 : verif_cp_bits[p]; } }\n')
    cpp = os.path.join(workdir, tag + '.cpp')
    so = os.path.join(workdir, tag + '.so')
    with open(cpp, 'w') as f:
        f.write(src)
    cxx, flags = engine.isa_cxx(isa)
    cmd = [cxx] + engine.BASE + [opt] + flags + list(extra) + ['-shared', '-fPIC', cpp, '-o', so, '-lm']
    r = engine.run(cmd)
    if r.returncode != 0:
        raise engine.CompileError(r.stdout)
    return so, specs


class Slot:
    """a buffer flush against an inaccessible page (end or start placement)"""

    def __init__(self, size):
        self.size = size
        n = (size + PAGE - 1) // PAGE + 2
        self.map = mmap.mmap(-1, n * PAGE)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.map))
        self.n = n
        _libc.mprotect(self.base, PAGE, 0)
        _libc.mprotect(self.base + (n - 1) * PAGE, PAGE, 0)

    def addr(self, place, align):
        if place == 'end':
            a = self.base + (self.n - 1) * PAGE - self.size
            return a // align * align
        return self.base + PAGE

    def lo(self):
        return self.base + PAGE

    def span(self):
        return (self.n - 2) * PAGE


class Harness:
    """calls one probe with concrete inputs; lives in the child process"""

    def __init__(self, so, probe, lay):
        self.lib = ctypes.CDLL(so)
        self.fn = getattr(self.lib, probe.name)
        self.fn.restype = None
        self.probe = probe
        self.lay = lay
        self.slots = []
        self.info = []
        for p in probe.params:
            sz = dsl.region_size(p, lay)
            al = dsl.param_align(p, lay)
            self.slots.append(Slot(sz))
            self.info.append((p, sz, al))
        self.fn.argtypes = [ctypes.c_void_p] * len(probe.params)

    def cut_addr(self, sl, p, sz, al, cut):
        """address at which element cut[1] starts an inaccessible page ('hi': the elements from
        cut[1] on are unselected) or ends one ('lo': the elements below cut[1] are unselected)"""
        es = p.T.size
        if cut[0] == 'hi':
            a = sl.base + (sl.n - 1) * PAGE - cut[1] * es
            return a, 0, cut[1] * es
        a = sl.base + PAGE - cut[1] * es
        return a, cut[1] * es, sz

    def call(self, images, place, cp=None, cut=None):
        """images: list of bytes per parameter -> list of bytes after the call"""
        if cp is not None:
            try:
                ctypes.c_int.in_dll(self.lib, 'verif_cp_pos').value = 0
                ctypes.c_int.in_dll(self.lib, 'verif_cp_mode').value = cp[0]
                if cp[1]:
                    arr = (ctypes.c_ubyte * 4096).in_dll(self.lib, 'verif_cp_bits')
                    for i, v in enumerate(cp[1]):
                        arr[i] = v
            except ValueError:
                pass
        addrs = []
        for sl, (p, sz, al), im in zip(self.slots, self.info, images):
            ctypes.memset(sl.lo(), 0xA5, sl.span())
            b, e = 0, sz
            if p.valid and cut:
                a, b, e = self.cut_addr(sl, p, sz, al, cut)
                if a % al:
                    return None, None
            else:
                a = sl.addr(place, al)
            if e > b:
                ctypes.memmove(a + b, bytes(im)[b:e], e - b)
            addrs.append((a, b, e))
        fdiv = getattr(self.probe, 'fdiv', False)
        if fdiv:
            _libm.feclearexcept(61)
        self.fn(*[x[0] for x in addrs])
        out = []
        redzone = None
        if fdiv and _libm.fetestexcept(4):
            redzone = 'divide-by-zero flag'
        for sl, (p, sz, al), (a, b, e), im in zip(self.slots, self.info, addrs, images):
            whole = ctypes.string_at(sl.lo(), sl.span())
            if e > b:
                o = a + b - sl.lo()
                img = bytes(im)[:b] + whole[o:o + e - b] + bytes(im)[e:]
                if whole[:o].strip(b'\xa5') or whole[o + e - b:].strip(b'\xa5'):
                    redzone = p.name
            else:
                img = bytes(im)
                if whole.strip(b'\xa5'):
                    redzone = p.name
            if p.mode == 'in' and img != bytes(im):
                redzone = p.name
            out.append(img)
        return out, redzone


# ------------------------------------------------------------ inputs
def specials(w):
    m = t.mask(w)
    s = [0, 1, 2, 3, 5, 7, 8, w - 1, w, w // 2, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) - 1,
         0x55 * (m // 255), 0xaa * (m // 255) & m]
    if w == 8:
        s += [0x80, 0x7f, 0xfe, 31]
    if w in (16, 32, 64):
        s += [15, 16, 31, 32, 63, 127, 128, 255, 256, 0x7f80 & m, -2 & m, -3 & m, -128 & m, -129 & m]
    if w in (32, 64):
        s += [0xffff, 0x10000, 0x7fff, 0x8000, -32768 & m, 0xffffff, 0x1000000, 0x1000001]
    if w == 64:
        s += [0xffffffff, 0x80000000, 0x100000000, -(1 << 31) & m, (1 << 53), (1 << 53) + 1, 1 << 24]
    if w == 32:
        s += FS32
    if w == 64:
        s += FS64
    return [x & m for x in s]


def _fb(v, w):
    import numpy as np
    return fpconc.b(np.float32(v) if w == 32 else np.float64(v), w)


_fv = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49999997, 3.0, 127.5, 255.5, 1e10, -1e10,
       8388607.5, 8388608.0, 16777216.0, 4503599627370495.5, 4503599627370496.0, 9007199254740992.0,
       2147483647.0, 2147483648.0, -2147483648.0, 4294967295.0, 4294967296.0, 32767.0, 65535.0]
FS32 = [0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 1, 0x80000001, 0x00800000, 0x007fffff, 0x7f7fffff]
FS64 = [0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x8000000000000001,
        0x0010000000000000, 0x000fffffffffffff, 0x7fefffffffffffff]
for _v in _fv:
    try:
        FS32.append(_fb(_v, 32))
        FS64.append(_fb(_v, 64))
    except Exception:
        pass
_sp = {}


def rand_value(rng, w, small):
    if w == 1:
        return rng.getrandbits(1)
    k = rng.random()
    if small and k < 0.5:
        return rng.randrange(0, 34) & t.mask(w)
    if k < 0.45:
        s = _sp.get(w)
        if s is None:
            s = _sp[w] = specials(w)
        return rng.choice(s)
    if k < 0.6:
        v = rng.randrange(-40, 41)
        if w in (32, 64) and rng.random() < 0.5:
            return _fb(v / 4.0, w)
        return v & t.mask(w)
    if w in (32, 64) and k < 0.8:
        # floats of moderate exponent
        e, p = t.FPW[w]
        bias = (1 << (e - 1)) - 1
        return (rng.getrandbits(1) << (w - 1)) | ((bias + rng.randrange(-40, 70)) << (p - 1)) | \
            (rng.getrandbits(p - 1) if rng.random() < 0.5 else rng.getrandbits(p - 1) & (t.mask(p - 1) << (p - 5)) & t.mask(p - 1))
    return rng.getrandbits(w)


class Inputs:
    """input generation for a probe"""

    def __init__(self, probe, lay):
        self.probe = probe
        self.lay = lay
        self.c = dsl.Ctx()
        self.c.lay = lay
        self.cells = []
        self.req = []
        self.vars = {}
        for p in probe.params:
            cells, lanes, rq = dsl.input_cells(p, lay)
            self.cells.append(cells)
            self.c.old[p.name] = lanes
            self.req.extend(rq)
            for _, x in cells:
                for v in t.free_vars([x]):
                    self.vars[v.k] = v.w
        if probe.requires:
            self.req.extend(probe.requires(self.c))
        self.req = [r for r in self.req if r is not t.TRUE]
        fl = []
        for r in self.req:
            fl.extend(r.a if r.op == 'and' else [r])
        self.req = fl
        self.reqv = [[v for v in t.fv(r)] for r in self.req]

    def sample(self, rng):
        small = rng.random() < 0.5
        env = {k: rand_value(rng, w, small) for k, w in self.vars.items()}
        nv = getattr(self.probe, 'nat_values', None)
        if nv:
            for k in env:
                vs = nv.get(k.split('.')[0])
                if vs and '.pad' not in k:
                    env[k] = rng.choice(vs)
        for p in self.probe.params:
            if p.valid and rng.random() < 0.6:
                ks = [v.k for v in self.c.old[p.valid] if v.op == 'v']
                j = rng.randrange(len(ks) + 1)
                for v in (ks[:j] if rng.random() < 0.5 else ks[j:]):
                    env[v] = 0
        if rng.random() < 0.15:
            # equal lanes
            groups = {}
            for k, w in self.vars.items():
                g = k.split('.')[0]
                if rng.random() < 0.9:
                    env[k] = groups.setdefault((g, w), env[k])
        for _ in range(60):
            memo = {}
            bad = set()
            for r, vs in zip(self.req, self.reqv):
                try:
                    if not ceval.ev(r, env, memo):
                        bad.update(vs)
                except ceval.NoValue:
                    bad.update(vs)
            if not bad:
                return env
            for v in bad:
                if v in self.vars:
                    env[v] = rand_value(rng, self.vars[v], True)
        return None

    def admissible(self, env):
        memo = {}
        for r in self.req:
            try:
                if not ceval.ev(r, env, memo):
                    return False
            except ceval.NoValue:
                return False
        return True

    def images(self, env):
        memo = {}
        out = []
        for p, cells in zip(self.probe.params, self.cells):
            buf = bytearray(dsl.region_size(p, self.lay))
            for off, x in cells:
                v = ceval.ev(x, env, memo, default=lambda q: 0)
                buf[off:off + x.w // 8] = v.to_bytes(x.w // 8, 'little')
            out.append(bytes(buf))
        return out


class Post:
    """the postcondition over input and output variables"""

    def __init__(self, probe, lay, inp):
        self.probe = probe
        self.goals = []
        c = inp.c
        self.outs = []
        for i, p in enumerate(probe.params):
            if p.mode == 'in':
                continue
            sz = dsl.region_size(p, lay)
            r = Region('out', t.var('&out', 64), sz, True, 'param')
            vs = []
            if p.kind == 'simd' or (p.kind == 'arr' and p.T.key != 'b'):
                T = p.s.T if p.kind == 'simd' else p.T
                step = T.size
            elif p.kind == 'mask' and p.s.abi == 'vb':
                step = p.s.T.size
            else:
                step = 1
            o = 0
            while o < sz:
                st = step if o + step <= sz else 1
                v = t.var('out.%s@%d' % (p.name, o), 8 * st)
                r.put(o, (v,))
                vs.append((o, st, v.k))
                o += st
            lanes, inv = dsl.view(p, lay, r)
            c.new[p.name] = lanes
            self.outs.append((i, vs))
            for lb, g in inv:
                self.goals.append(('invariant', '%s: %s' % (p.name, lb), g))
        for lb, g in (getattr(probe, 'nat_ensures', None) or probe.ensures)(c):
            self.goals.append(('post', lb, g))

    def check(self, env, images):
        e = dict(env)
        for i, vs in self.outs:
            im = images[i]
            for o, st, k in vs:
                e[k] = int.from_bytes(im[o:o + st], 'little')
        memo = {}
        for kind, lb, g in self.goals:
            try:
                if not ceval.ev(g, e, memo):
                    return kind, lb
            except ceval.NoValue:
                continue
        return None


def _child(so, probe, lay, envs, n, seed, nondet, progress, deadline):
    inp = Inputs(probe, lay)
    post = Post(probe, lay, inp)
    h = Harness(so, probe, lay)
    rng = random.Random(seed)
    done = 0
    skipped = 0
    cps = [(0, None), (1, None)] if nondet else [None]
    k = 0
    guard = [p for p in probe.params if p.valid]
    envs = list(envs)
    if guard:
        # counterexamples: also with a prefix / suffix of their selection
        ks = [v.k for v in inp.c.old[guard[0].valid] if v.op == 'v']
        more = []
        for env in envs[:4]:
            for j in range(len(ks) + 1):
                for part in (ks[:j], ks[j:]):
                    e = dict(env)
                    e.update({v: 0 for v in part})
                    more.append(e)
        envs += more

    def cuts(env):
        memo = {}
        sel = [ceval.ev(v, env, memo) for v in inp.c.old[guard[0].valid]]
        first = sel.index(1) if 1 in sel else len(sel)
        last = len(sel) - sel[::-1].index(1) if 1 in sel else 0
        r = []
        for j in range(last, min(len(sel), last + 8)):
            r.append(('hi', j))
        for j in range(max(1, first - 7), first + 1):
            if j <= first:
                r.append(('lo', j))
        return r
    while True:
        given = k < len(envs)
        if not given and done >= n:
            break
        if time.time() > deadline:
            break
        env = dict(envs[k]) if given else inp.sample(rng)
        k += 1
        if env is None:
            skipped += 1
            if skipped > 50:
                break
            continue
        if given:
            for v, w in inp.vars.items():
                env.setdefault(v, 0)
            if not inp.admissible(env):
                continue
        images = inp.images(env)
        cc = list(cps)
        if nondet:
            for _ in range(3):
                cc.append((2, bytes(rng.getrandbits(1) for _ in range(256))))
        for cp in cc:
            for place in ['end', 'start'] + (cuts(env) if guard else []):
                blob = pickle.dumps((env, place, cp))
                if len(blob) < (1 << 16) - 8:
                    progress.seek(0)
                    progress.write(len(blob).to_bytes(8, 'little') + blob)
                cut = place if isinstance(place, tuple) else None
                out, rz = h.call(images, 'end' if cut else place, cp, cut)
                if out is None:
                    continue
                done += 1
                if rz:
                    return done, ('frame', 'memory outside the assigns clause changed (%s)' % rz, env, place, cp, out)
                bad = post.check(env, out)
                if bad:
                    return done, bad + (env, place, cp, out)
    return done, None


def run_probe(so, probe, lay, envs=(), n=200, seed=1, nondet=False, tmo=20):
    """-> (calls made, failure or None); failure = (kind, label, env, place, cp, outputs)"""
    progress = mmap.mmap(-1, 1 << 16)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open('/dev/null', os.O_WRONLY)
            os.dup2(devnull, 2)
            try:
                r = _child(so, probe, lay, list(envs), n, seed, nondet, progress, time.time() + tmo)
            except BaseException as e:
                r = ('err', repr(e))
            data = pickle.dumps(r)
            with os.fdopen(wfd, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wfd)
    data = b''
    t0 = time.time()
    import select
    while True:
        rl, _, _ = select.select([rfd], [], [], 1.0)
        if rl:
            d = os.read(rfd, 1 << 16)
            if not d:
                break
            data += d
        elif time.time() - t0 > tmo + 20:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGKILL:
            return 0, None
        progress.seek(0)
        ln = int.from_bytes(progress.read(8), 'little')
        env = place = cp = None
        if ln:
            env, place, cp = pickle.loads(progress.read(ln))
        kind = 'trap' if sig in (signal.SIGFPE, signal.SIGILL, signal.SIGTRAP, signal.SIGABRT) else 'bounds'
        return 1, (kind, 'signal %s' % signal.Signals(sig).name, env, place, cp, None)
    if not data:
        return 0, None
    r = pickle.loads(data)
    if r[0] == 'err':
        raise RuntimeError(r[1])
    return r

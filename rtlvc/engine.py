"""Compile probes against /repo, extract RTL, generate and discharge obligations."""
import hashlib
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback
from . import term as t
from . import evalr, rtl, solve, dsl, ceval
from .evalr import Program, Eval, Region, Unsupported
from .term import const

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'g++'
BASE = ['-std=c++17', '-w', '-fcf-protection=none', '-fno-stack-protector', '-fno-jump-tables',
        '-I' + REPO, '-DNDEBUG', '-fno-exceptions', '-fno-asynchronous-unwind-tables']
BASE_X = ['-std=c++17', '-w', '-I' + REPO, '-DNDEBUG', '-fno-exceptions', '-fno-stack-protector']
RTLF = ['-S', '-dp'] + ['-fdisable-rtl-' + p for p in
        'cse1 fwprop1 ce1 cse2 dse1 fwprop2 combine ce2 ud_dce subreg1 cmpelim ce3'.split()]

PRE = '''#include <experimental/simd>
#include <cmath>
#include <bitset>
#include <functional>
namespace stdx = std::experimental;
using namespace stdx::__proposed;
'''

# opaque __builtin_constant_p: both the "known at compile time" branch and the
# ordinary branch of the library are generated and verified.
NONDET = '''
extern "C" int verif_nondet_cp() noexcept;
#define __builtin_constant_p(...) (__builtin_is_constant_evaluated() || ((void)sizeof(__VA_ARGS__), verif_nondet_cp()))
'''


def lay_code(specs):
    out = []
    for s in specs:
        out.append('extern "C" { extern const int LAY_%s[]; const int LAY_%s[] = '
                   '{ (int)sizeof(%s), (int)sizeof(%s), (int)%s::size(), (int)alignof(%s), (int)alignof(%s), 77 }; }\n'
                   % (s.key, s.key, s.cxx, s.mcxx, s.cxx, s.cxx, s.mcxx))
    return ''.join(out)


def tu_source(probes, nondet=False):
    specs = {}
    for p in probes:
        for q in p.params:
            if q.s is not None:
                specs[q.s.key] = q.s
    src = ''
    if nondet:
        src += ('#include <cmath>\n#include <bitset>\n#include <functional>\n#include <utility>\n#include <array>\n'
                '#include <limits>\n#include <iosfwd>\n#include <iterator>\n#include <climits>\n#include <cstring>\n'
                '#include <type_traits>\n#include <cstdint>\n#include <cstdlib>\n#include <stdexcept>\n'
                '#include <memory>\n#include <random>\n#include <ostream>\n'
                '#if __x86_64__\n#include <x86intrin.h>\n#include <immintrin.h>\n#endif\n')
        src += NONDET
    src += PRE
    src += lay_code(specs.values())
    for p in probes:
        src += p.code()
    return src, specs


class CompileError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_rtl(isa, probes, workdir, opt='-O1', nondet=False, extra=()):
    src, specs = tu_source(probes, nondet)
    cpp = os.path.join(workdir, 't.cpp')
    with open(cpp, 'w') as f:
        f.write(src)
    s = os.path.join(workdir, 't.s')
    d = os.path.join(workdir, 't.rtl')
    cxx, flags = isa_cxx(isa)
    cmd = [cxx] + BASE + [opt] + flags + list(extra) + RTLF + [cpp, '-o', s, '-fdump-rtl-expand=' + d]
    r = run(cmd)
    if r.returncode != 0:
        raise CompileError(r.stdout)
    with open(d) as f:
        dump = f.read()
    with open(s) as f:
        asm = f.read()
    os.environ.get("RTLKEEP") or os.unlink(d)
    os.unlink(s)
    return Program(dump, asm, isa.arch), specs


def isa_cxx(isa):
    return CXX, list(isa.flags)


def layouts(prog, specs):
    lay = {}
    for k in specs:
        d = prog.data.get('LAY_' + k)
        if d is None:
            raise Unsupported('no layout for %s' % k)
        v = [int.from_bytes(d[i:i + 4], 'little') for i in range(0, 24, 4)]
        lay[k] = v
    return lay


def nondet_contract(ev, name, s, dest):
    ev.nondets += 1
    v = t.var('cp!%d' % ev.nondets, 1)
    ev.set_hreg(s, 'ax', (t.zext(v, 32),))
    return s


ARG = ['di', 'si', 'dx', 'cx', 'r8', 'r9']


class VC:
    """verification conditions of one probe"""

    def __init__(self):
        self.obligs = []     # (kind, label, hyps, goal, loc)
        self.req = []
        self.lines = set()


def gen_vc(prog, probe, lay):
    ev = Eval(prog, dict({'verif_nondet_cp': nondet_contract}, **probe.contracts))
    ev.fdiv = getattr(probe, 'fdiv', False)
    s = ev.new_state()
    c = dsl.Ctx()
    c.lay = lay
    req = []
    for i, p in enumerate(probe.params):
        sz = dsl.region_size(p, lay)
        base = ev.region_base(p.name)
        r = Region(p.name, base, sz, p.mode != 'in', 'param')
        r.align = dsl.param_align(p, lay)
        cells, lanes, rq = dsl.input_cells(p, lay)
        for off, x in cells:
            r.put(off, (x,))
        if p.mode == 'out':
            pass
        req.extend(rq)
        c.old[p.name] = lanes
        if p.valid:
            r.valid = [(i * p.T.size, p.T.size, k) for i, k in enumerate(c.old[p.valid])]
        s.mem[p.name] = r
        s.owned.add(p.name)
        ev.set_hreg(s, ARG[i], (base,))
    if probe.requires:
        req.extend(probe.requires(c))
    req = [x for x in req if x is not t.TRUE]
    out = ev.run(probe.name, s)
    vc = VC()
    vc.req = req
    vc.lines = ev.lines
    vc.calls = ev.calls
    vc.nondets = ev.nondets
    for o in ev.obligs:
        vc.obligs.append((o.kind, o.label, tuple(req) + o.pc, o.goal, o.loc))
    if out is None:
        vc.obligs.append(('post', 'function returns', tuple(req), t.FALSE, None))
        return vc, c, None
    for p in probe.params:
        if p.mode == 'in':
            continue
        lanes, inv = dsl.view(p, lay, out.mem[p.name])
        c.new[p.name] = lanes
        for lb, g in inv:
            vc.obligs.append(('invariant', '%s: %s' % (p.name, lb), tuple(req) + out.pc, g, None))
    for lb, g in probe.ensures(c):
        vc.obligs.append(('post', lb, tuple(req) + out.pc, g, None))
    return vc, c, out


class Result:
    __slots__ = ('probe', 'isa', 'status', 'n', 'kinds', 'failed', 'detail', 'lines', 'undecided',
                 'time', 'backends', 'nondets', 'calls', 'sat_pre')

    def __init__(self, probe, isa):
        self.probe = probe
        self.isa = isa
        self.status = None     # proved / failed / undecided / unsupported / nocompile
        self.n = 0
        self.kinds = {}
        self.failed = []
        self.undecided = []
        self.detail = ''
        self.lines = set()
        self.time = 0
        self.backends = {}
        self.nondets = 0
        self.calls = []
        self.sat_pre = True


def verify_probe(prog, probe, lay, isa, tmo=10000, fptmo=20000, max_fail=4, budget=1e9):
    r = Result(probe.name, isa.key)
    t0 = time.time()
    try:
        vc, c, out = gen_vc(prog, probe, lay)
    except Unsupported as e:
        r.status = 'unsupported'
        r.detail = str(e)
        r.time = time.time() - t0
        return r, None
    except RecursionError as e:
        r.status = 'unsupported'
        r.detail = 'recursion'
        return r, None
    except Exception as e:
        r.status = 'unsupported'
        r.detail = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + \
            ' @ ' + traceback.format_exc().strip().split('\n')[-3].strip()
        return r, None
    r.lines = vc.lines
    r.nondets = vc.nondets
    r.calls = vc.calls
    fails = []
    for kind, label, hyps, goal, loc in vc.obligs:
        r.n += 1
        r.kinds[kind] = r.kinds.get(kind, 0) + 1
        ms = int(1000 * (budget - (time.time() - t0)))
        verdict, be, env = solve.check(hyps, goal, max(0, min(tmo, ms)), max(0, min(fptmo, ms)))
        if verdict == 'valid':
            r.backends[be] = r.backends.get(be, 0) + 1
        elif verdict == 'invalid':
            fails.append((kind, label, be, env, loc))
            r.failed.append((kind, label, be, env, loc))
            if len(fails) >= max_fail:
                break
        else:
            r.undecided.append((kind, label, be, env, loc))
            if len(r.undecided) >= 3:
                break
    # vacuity: the precondition must be satisfiable, and the exit reachable
    if vc.req:
        r.sat_pre = solve.satisfiable(vc.req)
    if r.failed:
        r.status = 'failed'
    elif r.undecided:
        r.status = 'undecided'
    elif not r.sat_pre or r.n == 0:
        r.status = 'undecided'
        r.detail = 'vacuous'
    else:
        r.status = 'proved'
    r.time = time.time() - t0
    return r, vc

"""Runs the contracts of one property: compile, generate, discharge, replay, report."""
import atexit
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import dsl, engine, native, solve
from . import term as t

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')


class Config:
    """how a group of contracts is compiled"""

    def __init__(self, isa, mode='plain', opt='-O1', extra=(), set='main', chunk=None):
        self.isa = dsl.ISAS[isa]
        self.mode = mode          # 'plain' or 'cp' (opaque __builtin_constant_p)
        self.opt = opt
        self.extra = tuple(extra)
        self.set = set
        self.chunk = chunk

    def key(self):
        k = self.isa.key
        if self.mode != 'plain':
            k += '+' + self.mode
        if self.opt != '-O1':
            k += self.opt
        if self.set != 'main':
            k += ':' + self.set
        if self.extra:
            k += ''.join(self.extra)
        return k


_mod = None
_cfgs = None
_probes = {}
_tier = 'quick'
_seed = 1
_soft = _hard = 0.0    # no solver calls after _soft, no native calls after _hard


def get_probes(ci):
    p = _probes.get(ci)
    if p is None:
        cfg = _cfgs[ci]
        p = _mod.probes(cfg, _tier)
        names = set()
        for i, q in enumerate(p):
            q.name = 'p%d' % i
            q.index = i
        _probes[ci] = p
    return p


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)


def compile_chunk(cfg, probes, work, nocompile, tag='t'):
    """-> list of (program, specs, probes) covering all that compile"""
    try:
        d = tempfile.mkdtemp(dir=work)
        prog, specs = engine.compile_rtl(cfg.isa, probes, d, cfg.opt, cfg.mode == 'cp', cfg.extra)
        shutil.rmtree(d, ignore_errors=True)
        return [(prog, specs, probes)]
    except engine.CompileError as e:
        if len(probes) == 1:
            nocompile.append((probes[0], str(e)))
            return []
        h = len(probes) // 2
        return compile_chunk(cfg, probes[:h], work, nocompile) + \
            compile_chunk(cfg, probes[h:], work, nocompile)


def env_clean(env):
    return {k: v for k, v in (env or {}).items()}


def worker(job):
    ci, idx = job
    cfg = _cfgs[ci]
    allp = get_probes(ci)
    probes = [allp[i] for i in idx]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='rtlvc')
    out = {'ci': ci, 'results': [], 'lines': set(), 'compile_s': 0.0, 'tus': 0}
    try:
        nocompile = []
        units = compile_chunk(cfg, probes, work, nocompile)
        out['compile_s'] = time.time() - t0
        out['tus'] = len(units)
        for p, err in nocompile:
            out['results'].append(dict(i=p.index, status='nocompile', detail=err[-3000:], n=1))
        todo = []
        for prog, specs, ps in units:
            lay = engine.layouts(prog, specs)
            for p in ps:
                left = _soft - time.time()
                r, vc = engine.verify_probe(prog, p, lay, cfg.isa, getattr(p, 'tmo', 6000),
                                            getattr(p, 'fptmo', 8000),
                                            budget=max(0.0, min(left, 40.0 if _tier == 'quick' else 300.0)))
                d = dict(i=p.index, status=r.status, n=r.n, kinds=r.kinds, backends=r.backends,
                         detail=r.detail, time=r.time, nondets=r.nondets,
                         failed=[(k, l, b, env_clean(e), loc) for k, l, b, e, loc in r.failed],
                         undecided=[(k, l, b, env_clean(e), loc) for k, l, b, e, loc in r.undecided],
                         calls=sorted(set(r.calls))[:20])
                out['results'].append(d)
                out['lines'] |= r.lines
                if r.status != 'proved':
                    todo.append((p, d, lay))
        if todo:
            bounded(cfg, todo, work)
    except BaseException as e:
        out['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out['wall'] = time.time() - t0
    out['stats'] = dict(solve.STATS)
    for k in solve.STATS:
        solve.STATS[k] = 0 if k != 'solver_s' else 0.0
    return out


def bounded(cfg, todo, work):
    """native replay of failed obligations, bounded search where no proof exists"""
    if not native.can_run(cfg.isa):
        for p, d, lay in todo:
            d['native'] = 'not runnable on this cpu'
        return
    opts = ['-O1', '-O2'] if _tier == 'thorough' else ['-O2']
    nb = 3000 if _tier == 'thorough' else 600
    if len(todo) > 60:
        nb = max(100, nb // 4)
    libs = {}
    for opt in opts:
        try:
            libs[opt] = native.build(cfg.isa, [p for p, d, lay in todo], work, opt, cfg.mode == 'cp',
                                     cfg.extra, tag='n' + opt)[0]
        except engine.CompileError as e:
            libs[opt] = None
    per = 30 if _tier == 'thorough' else 8
    for p, d, lay in todo:
        if time.time() > _hard:
            d['native'] = 'skipped, time budget used up'
            continue
        envs = []
        for f in d['failed'] + d['undecided']:
            if f[3]:
                envs.append({k: v for k, v in f[3].items() if '!' not in k})
        d['tried'] = 0
        d['hit'] = None
        for opt, so in libs.items():
            if so is None:
                continue
            try:
                n, bad = native.run_probe(so, p, lay, envs, nb, _seed + p.index, cfg.mode == 'cp',
                                          per)
            except Exception as e:
                d['native'] = 'error ' + repr(e)
                continue
            d['tried'] += n
            if bad:
                kind, lb, env, place, cp, outs = bad
                d['hit'] = dict(kind=kind, label=lb, env=env, place=place,
                                cp=None if not cp else [cp[0], cp[1].hex() if cp[1] else None],
                                out=[o.hex() for o in outs] if outs else None, opt=opt)
                break


def chunks(n, size):
    k = max(1, (n + size - 1) // size)
    b = [n * i // k for i in range(k + 1)]
    return [list(range(b[i], b[i + 1])) for i in range(k)]


def source_functions(lines):
    """names of the library functions whose statements occur in the evaluated code"""
    by = {}
    for f, l in lines:
        by.setdefault(f, set()).add(l)
    names = set()
    per = {}
    kw = {'if', 'for', 'while', 'switch', 'return', 'sizeof', 'constexpr', 'else', 'do', 'decltype', 'static_assert'}
    for f, ls in by.items():
        try:
            with open(f) as fh:
                src = fh.read().split('\n')
        except OSError:
            continue
        base = os.path.basename(f)
        per[base] = len(ls)
        cur = None
        pat = re.compile(r'^\s+(?:[\w:<>,&*\s]*?)\b(operator\s*[^\s(]+|[_a-zA-Z]\w*)\s*\(')
        at = {}
        for i, line in enumerate(src, 1):
            if re.match(r'^\s{0,8}\{', line) or line.rstrip().endswith(')') or '{ return' in line or True:
                m = re.match(r'^\s{0,8}(?:_GLIBCXX_\w+\s+|friend\s+|static\s+|inline\s+|constexpr\s+|explicit\s+)*'
                             r'[\w:<>,&*\s.]*?\b(operator\s*[^\s(]+|_S_\w+|__?\w+|\w+)\s*\(', line)
                if m and m.group(1) not in kw and not line.lstrip().startswith(
                        ('return', '//', '*', '?', ':', '#', 'if', 'using', 'for', '&&', '||', '=')):
                    if not line.rstrip().endswith(';') or '{' in line:
                        ind = len(line) - len(line.lstrip())
                        if ind <= 8:
                            cur = m.group(1)
            at[i] = cur
        for l in ls:
            n = at.get(l)
            if n:
                names.add(base + ':' + n)
    return names, per


def known_findings():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)
    except OSError:
        return {'findings': [], 'fixed': []}


def main(prop, tier='quick', only=None, verbose=False, jobs=None):
    global _mod, _cfgs, _tier, _seed, _soft, _hard
    t0 = time.time()
    _tier = tier
    _soft, _hard = (t0 + 480, t0 + 640) if tier == 'quick' else (t0 + 20 * 3600, t0 + 22 * 3600)
    _seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    _mod = importlib.import_module('contracts.' + prop.lower())
    _cfgs = _mod.configs(tier)
    if only:
        _cfgs = [c for c in _cfgs if re.search(only, c.key())]
    _limits()
    work = []
    for ci, cfg in enumerate(_cfgs):
        ps = get_probes(ci)
        for ch in chunks(len(ps), cfg.chunk or getattr(_mod, 'CHUNK', 110)):
            if ch:
                work.append((ci, ch))
    # heavy ISAs first
    work.sort(key=lambda j: -len(j[1]) * (3 if _cfgs[j[0]].isa.f else 1))
    outs = []
    ctx = mp.get_context('fork')
    njobs = jobs or min(8, os.cpu_count() or 8, max(1, len(work)))
    budget = 820 if tier == 'quick' else 24 * 3600
    solve.SHARED = shared = tempfile.mkdtemp(prefix='rtlvc-verdicts')
    atexit.register(shutil.rmtree, shared, True)
    with ctx.Pool(njobs, maxtasksperchild=3) as pool:
        it = pool.imap_unordered(worker, work, 1)
        for _ in work:
            try:
                outs.append(it.next(timeout=max(5, budget - (time.time() - t0))))
            except mp.TimeoutError:
                print('TIMEOUT: %d of %d units done' % (len(outs), len(work)))
                pool.terminate()
                break
    return report(prop, tier, outs, work, t0, verbose)


def group_of(p):
    return p.group or p.name


def report(prop, tier, outs, work, t0, verbose):
    known = known_findings()
    kf = [k for k in known.get('findings', []) if k['property'] == prop]
    S = dict(obligations=0, discharged=0, contracts=0, proved=0, bounded=0, failed=0)
    backends = {}
    kinds = {}
    lines = set()
    solver_s = compile_s = 0.0
    violations = []
    bounded_list = []
    unconfirmed = []
    errors = []
    seen_known = {}
    tried = 0
    nond = 0
    percfg = {}
    for o in outs:
        cfg = _cfgs[o['ci']]
        ps = get_probes(o['ci'])
        lines |= o['lines']
        compile_s += o['compile_s']
        solver_s += o.get('stats', {}).get('solver_s', 0)
        if o.get('error'):
            errors.append(cfg.key() + ': ' + o['error'])
        for d in o['results']:
            p = ps[d['i']]
            S['contracts'] += 1
            S['obligations'] += d['n']
            nd = sum(d.get('backends', {}).values())
            S['discharged'] += nd
            nond += d.get('nondets', 0)
            for k, v in d.get('backends', {}).items():
                backends[k] = backends.get(k, 0) + v
            for k, v in d.get('kinds', {}).items():
                kinds[k] = kinds.get(k, 0) + v
            pc = percfg.setdefault(cfg.key(), {})
            pc[d['status']] = pc.get(d['status'], 0) + 1
            tried += d.get('tried', 0)
            if d['status'] == 'proved':
                S['proved'] += 1
                continue
            if d['status'] == 'nocompile':
                if cfg.mode == 'cp':
                    unconfirmed.append((cfg, p, d))
                    continue
                violations.append((cfg, p, d, 'nocompile'))
                continue
            if d.get('hit'):
                violations.append((cfg, p, d, 'hit'))
                continue
            if d['status'] == 'failed' and d.get('native', '').startswith('not runnable'):
                violations.append((cfg, p, d, 'noreplay'))
                continue
            S['bounded'] += 1
            if d['status'] == 'failed':
                unconfirmed.append((cfg, p, d))
            bounded_list.append((cfg, p, d))
            if verbose:
                print('  %s [%s] %s %s %s tried=%s %s' % (d['status'], cfg.key(), group_of(p), d['detail'],
                                                  (d['failed'] or d['undecided'])[:1], d.get('tried'),
                                                  d.get('native', '')))
    # report
    new = []
    for cfg, p, d, why in violations:
        k = match_known(kf, cfg, p, d)
        if k is not None:
            seen_known.setdefault(k['id'], (k, 0))
            seen_known[k['id']] = (k, seen_known[k['id']][1] + 1)
        else:
            new.append((cfg, p, d, why))
    for k, n in seen_known.values():
        print('KNOWN-FINDING: property=%s %s (%d contracts)' % (prop, k['what'], n))
    shutil.rmtree(os.path.join(REPLAYS, prop), ignore_errors=True)
    shown = 0
    # confirmed inputs first
    new.sort(key=lambda v: v[3] != 'hit')
    for cfg, p, d, why in new:
        path = write_replay(prop, shown, cfg, p, d, why)
        if shown < 8 or verbose:
            if why == 'hit':
                f = d['failed'][0] if d['failed'] else None
                print('failed obligation: [%s] %s: %s: %s (native: %s %s)' % (
                    cfg.key(), group_of(p), f[0] if f else '-', f[1] if f else '-',
                    d['hit']['kind'], d['hit']['label']))
                print('VIOLATION property=%s replay=%s' % (prop, path))
            elif why == 'noreplay':
                f = d['failed'][0]
                print('failed obligation: [%s] %s: %s: %s (%s)' % (cfg.key(), group_of(p), f[0], f[1], d['native']))
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            else:
                print('failed obligation: [%s] %s: well-formed: %s' % (cfg.key(), group_of(p),
                                                                    first_error(d['detail'])))
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        shown += 1
    if shown > 8 and not verbose:
        print('... %d further failing contracts' % (shown - 8))
    fn, per = source_functions(lines)
    wall = time.time() - t0
    level = getattr(_mod, 'LEVEL', 'proof')
    incomplete = len(outs) != len(work)
    cov = dict(
        obligations=S['obligations'], discharged=S['discharged'],
        checker_cmd='python3-vt run.py --property %s --tier %s' % (prop, tier),
        trusted_base=TRUSTED + list(getattr(_mod, 'TRUSTED', [])),
        contracts=S['contracts'], contracts_proved=S['proved'], contracts_bounded_only=S['bounded'],
        contracts_violated=len(new), contracts_known_finding=sum(n for _, n in seen_known.values()),
        obligations_by_kind=kinds, discharged_by_backend=backends,
        solver_seconds=round(solver_s, 2), compile_seconds=round(compile_s, 2),
        translation_units=sum(o['tus'] for o in outs),
        configurations=percfg,
        library_functions_under_contract=len(fn),
        library_lines_evaluated=per,
        opaque_constant_p_sites=nond,
        bounded_native_calls=tried,
        bounded_contracts=['[%s] %s: %s (%s native calls)' % (c.key(), group_of(p), (d['detail'] or (
            (d['failed'] or d['undecided'] or [['', '']])[0][1])), d.get('tried', 0))
            for c, p, d in bounded_list][:200],
        failing_obligations_not_reproduced=['[%s] %s' % (c.key(), group_of(p)) for c, p, d in unconfirmed][:50],
        functions=sorted(fn)[:400],
        samples=[get_probes(0)[i].code().strip() for i in (0, len(get_probes(0)) // 2)] if _cfgs else [],
        incomplete=incomplete, internal_errors=errors[:5])
    if getattr(_mod, 'LEMMAS', False):
        # the lemmas used by the rewriting before the floating-point solver, proved once more
        try:
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'tools', 'lemmas.py'), tier], capture_output=True,
                               text=True, timeout=120 if tier == 'quick' else 3000)
            ls = [l for l in r.stdout.split('\n') if l]
        except subprocess.TimeoutExpired:
            ls = ['not finished']
        if tier == 'quick':
            ls.append('binary64 L7: proved by the thorough tier only (3 minutes)')
        cov['lemmas'] = ls
        cov['lemmas_not_proved'] = [l for l in ls if 'proved' not in l]
    ev = dict(property=prop, tier=tier, seed=_seed, level=level, coverage=cov,
              assumptions=ASSUME + list(getattr(_mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: %d contracts, %d proved, %d bounded only, %d violated; %d/%d obligations discharged %s; '
          'solver %.1fs, wall %.1fs' % (prop, tier, S['contracts'], S['proved'], S['bounded'], len(new),
                                        S['discharged'], S['obligations'], backends, solver_s, wall))
    for e in errors:
        print('internal error:', e[-1500:], file=sys.stderr)
    if new:
        return 1
    if errors or incomplete:
        return 2
    return 0


def first_error(s):
    for l in s.split('\n'):
        if 'error:' in l:
            return l.strip()[:300]
    return s[:200]


def match_known(kf, cfg, p, d):
    for k in kf:
        if k.get('probe') and not re.search(k['probe'], group_of(p)):
            continue
        if k.get('config') and not re.search(k['config'], cfg.key()):
            continue
        if getattr(p, 'known', None) != k['id']:
            continue
        return k
    return None


def write_replay(prop, n, cfg, p, d, why):
    dd = os.path.join(REPLAYS, prop)
    os.makedirs(dd, exist_ok=True)
    path = os.path.join(dd, '%03d.json' % n)
    with open(path, 'w') as f:
        json.dump(dict(property=prop, config=cfg.key(), isa_flags=cfg.isa.flags, mode=cfg.mode, contract=group_of(p),
                       probe_index=p.index, tier=_tier, probe=p.code(), why=why, status=d['status'], verifier=d.get('detail'),
                       failed_obligations=d.get('failed'), undecided=d.get('undecided'),
                       native=d.get('hit')), f, indent=1, default=str)
    return path


TRUSTED = [
    'g++ 13.3.0 front end and middle end up to RTL expansion (the obligations are generated from its RTL of the '
    'code in /repo; later passes and the assembler are not covered)',
    'rtlvc: RTL parser, semantics of RTL and of the x86 unspecs, term normaliser (/verif/rtlvc)',
    'z3 4.x (bit-vector and floating-point theories)',
]
ASSUME = [
    'IEEE-754 binary32/64, round to nearest, no traps, no flush-to-zero; NaN payloads are not distinguished',
    'contracts are instantiated for the listed element types, ABIs and ISAs; template arguments outside that '
    'list are not covered',
    'pointer parameters of a contract do not alias',
]

#!/usr/bin/env python3
"""Runs the property-based checks against /repo's working tree.

  run.py check <id> [--tier quick|thorough] [--seed N] [--cfg a,b] [--only SUBSTR] [--unit SUBSTR]
  run.py replay <file>
  run.py setup

Exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run.
"""
import traceback
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('DPM_REPO', '/repo')
H = os.path.join(HERE, 'harness')
BUILD = os.environ.get('DPM_BUILD', os.path.join(HERE, 'build'))
from props import PROPS, CFGS, TYPES
JOBS = os.cpu_count() or 8
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:handle_sigbus=0:halt_on_error=0:suppress_equal_pcs=0:log_path=/dev/null')
DEFS = ['-DDPM_INLINE_EXTENSIONS', '-DDPM_HANDLE_ERRORS', '-DDPM_PROPAGATE_NAN']


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:20]


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(('.hpp', '.cpp', '.h')):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


class CompileError(Exception):
    def __init__(self, cmd, err):
        self.cmd, self.err = cmd, err


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def compile_(cmd):
    """Runs one compiler command, retrying once so that a killed compiler is not taken for an error in the code."""
    for k in range(2):
        r = sh(cmd)
        if r.returncode == 0:
            return
    raise CompileError(cmd, r.stderr)


class Builder:
    def __init__(self):
        self.src = tree_hash(os.path.join(REPO, 'dpm'))
        self.lock = {}
        self.g = threading.Lock()
        # dpm/detail/export.gen.hpp is generated by CMake; supply a stand-in for a tree that was never configured
        self.inc = ['-I' + REPO]
        if not os.path.exists(os.path.join(REPO, 'dpm/detail/export.gen.hpp')):
            d = os.path.join(BUILD, 'shim')
            os.makedirs(os.path.join(d, 'dpm/detail'), exist_ok=True)
            with open(os.path.join(d, 'dpm/detail/export.gen.hpp'), 'w') as f:
                f.write('#pragma once\n#define DPM_PUBLIC\n#define DPM_PRIVATE\n')
            # quote includes search the including file's directory first, then -I
            self.inc.append('-I' + d)
            self.inc.append('-I' + os.path.join(d, 'dpm/detail'))

    def once(self, key, fn, outs):
        with self.g:
            l = self.lock.setdefault(key, threading.Lock())
        with l:
            if all(os.path.exists(o) for o in outs):
                for o in outs:
                    try: os.utime(o)
                    except OSError: pass
                return
            fn()

    def flags(self, cfg, opt):
        c = CFGS[cfg]
        fl = ['-std=c++20', opt, '-w'] + c['flags'] + c.get('defs', DEFS)
        if not c.get('debug'):
            fl.append('-DNDEBUG')
        return c.get('cxx', 'g++'), fl

    def atomic(self, cmd, out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.tmp%d_%d' % (os.getpid(), threading.get_ident())
        compile_(cmd + ['-o', tmp])
        os.replace(tmp, out)

    def engine(self):
        s = open(os.path.join(H, 'engine.cpp'), 'rb').read() + open(os.path.join(H, 'pbt.hpp'), 'rb').read()
        out = os.path.join(BUILD, 'engine-%s.o' % sha(s))
        self.once(out, lambda: self.atomic(['g++', '-std=c++20', '-O2', '-w', '-c', os.path.join(H, 'engine.cpp')], out), [out])
        return out

    def lib(self, cfg):
        """The compiled kernels (dpm's .cpp files), built for this configuration."""
        cxx, fl = self.flags(cfg, '-O2')
        d = os.path.join(BUILD, 'lib', sha(self.src, cxx, *fl))
        srcs = []
        for dd, ds, fs in sorted(os.walk(os.path.join(REPO, 'dpm'))):
            srcs += [os.path.join(dd, f) for f in sorted(fs) if f.endswith('.cpp')]
        objs = []
        for s in srcs:
            o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.o')
            objs.append((o, [cxx] + fl + self.inc + ['-c', s]))
        return objs

    def pch(self, cfg, opt, extra):
        cxx, fl = self.flags(cfg, opt)
        hs = b''.join(open(os.path.join(H, f), 'rb').read() for f in ('common.hpp', 'pbt.hpp'))
        d = os.path.join(BUILD, 'pch', sha(self.src, hs, cxx, *fl, *extra))
        hdr = os.path.join(d, 'all.hpp')
        gch = hdr + ('.gch' if cxx == 'g++' else '.pch')

        def go():
            os.makedirs(d, exist_ok=True)
            with open(hdr, 'w') as f:
                f.write('#include "%s"\n' % os.path.join(H, 'common.hpp'))
            self.atomic([cxx] + fl + extra + self.inc + ['-I' + H, '-x', 'c++-header', hdr], gch)
        return hdr, gch, go

    def prune(self):
        """Keeps the build folder small: when it passes 6 GB, drops what no run of the last two hours used."""
        fs = []
        for n in ('pch', 'lib', 'bin'):
            for d, _, ff in os.walk(os.path.join(BUILD, n)):
                for f in ff:
                    try: st = os.stat(os.path.join(d, f))
                    except OSError: continue
                    fs.append((st.st_mtime, st.st_size, os.path.join(d, f)))
        tot = sum(x[1] for x in fs)
        for t, n, f in sorted(fs):
            if tot <= 6 << 30 or t > time.time() - 7200: break
            try: os.unlink(f)
            except OSError: pass
            tot -= n


def units(p, tier, seed=1):
    """All (source, type tag, cfg, flags, cases) the property asks for in this tier."""
    out = []
    for u in PROPS[p]['units']:
        cfgs = u.get('cfgs_' + tier, u.get('cfgs', PROPS[p].get('cfgs_' + tier)))
        if cfgs is None:
            cfgs = ['sse2', 'sse42', 'avx', 'avx2'] if tier == 'quick' else ['sse2', 'sse3', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2nofma', 'avx2', 'avx2O3', 'clang-avx2']
        for t in u.get('types_' + tier, u.get('types', [None])):
            for c in cfgs:
                q = u.get('cases', 300)
                out.append(dict(src=u['src'], type=t, cfg=c, opt=CFGS[c].get('opt', u.get('opt', '-O1' if tier == 'quick' else '-O2')), defs=[d.format(seed=seed) for d in u.get('defs', [])] + (['-DH_MORE_ABIS'] if tier == 'thorough' else []),
                                cases=q if tier == 'quick' else u.get('tcases', q * 20), secs=u.get('secs', 60 if tier == 'quick' else 600), pch=u.get('pch', True)))
    return out


def uname(u):
    return u['src'].replace('.cpp', '') + ('-' + u['type'] if u['type'] else '') + ''.join('-s' + d[8:] for d in u['defs'] if d.startswith('-DSIZES='))


def make(b, us, pool):
    """Builds every unit; returns list of (unit, binary) and list of (unit, CompileError)."""
    eng = b.engine()
    libs, pchs = {}, {}
    pre = []
    for u in us:
        if u['cfg'] not in libs:
            libs[u['cfg']] = b.lib(u['cfg'])
            for o, cmd in libs[u['cfg']]:
                pre.append(pool.submit(b.once, o, (lambda cmd=cmd, o=o: b.atomic(cmd, o)), [o]))
        if u['pch']:
            ex = [d for d in u['defs'] if d.startswith('-DH_')] + ['-fwrapv']
            k = (u['cfg'], u['opt'], tuple(ex))
            if k not in pchs:
                pchs[k] = b.pch(u['cfg'], u['opt'], ex)
                h, g, go = pchs[k]
                pre.append(pool.submit(b.once, g, go, [g]))
            u['pchk'] = k
    err = []
    pre_err = None
    for f in pre:
        try: f.result()
        except CompileError as e: pre_err = e
    if pre_err:
        return [], [(us[0], pre_err)]

    def one(u):
        cxx, fl = b.flags(u['cfg'], u['opt'])
        src = os.path.join(H, u['src'])
        hs = b''.join(open(os.path.join(H, f), 'rb').read() for f in sorted(os.listdir(H)) if f.endswith('.hpp'))
        ty = ['-DVT=' + TYPES[u['type']]] if u['type'] else []
        key = sha(b.src, hs, open(src, 'rb').read(), open(eng, 'rb').read(), cxx, *fl, *u['defs'], *ty)
        d = os.path.join(BUILD, 'bin')
        out = os.path.join(d, '%s-%s-%s' % (uname(u), u['cfg'], key))
        def go():
            ex = ['-fwrapv']
            cmd = [cxx] + fl + ex + u['defs'] + ty
            if u['pch']:
                h, g, _ = pchs[u['pchk']]
                cmd += ['-include', h] if cxx == 'g++' else ['-include-pch', g]
            o = out + '.o'
            b.atomic(cmd + b.inc + ['-I' + H, '-c', src], o)
            b.atomic([cxx] + fl + [o, eng] + [x for x, _ in libs[u['cfg']]] + ['-lquadmath', '-lm'], out)
            os.remove(o)
        b.once(out, go, [out])
        return out
    res = []
    futs = [(u, pool.submit(one, u)) for u in us]
    for u, f in futs:
        try: res.append((u, f.result()))
        except CompileError as e: err.append((u, e))
    return res, err


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}


def check(args):
    p, tier, seed = args.id, args.tier, args.seed
    t0 = time.time()
    b = Builder()
    os.makedirs(BUILD, exist_ok=True)
    us = units(p, tier, seed)
    if args.cfg: us = [u for u in us if u['cfg'] in args.cfg.split(',')]
    if args.unit: us = [u for u in us if args.unit in uname(u)]
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(p + '-'): os.remove(os.path.join(rdir, f))
    viol, known, broken = [], [], []
    kf = [k for k in load_known()['known'] if k['property'] == p]
    agg = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, excluded=0, subjects=0)
    ops, samples, per_unit, trunc = {}, [], {}, 0
    # longest compiles first
    us.sort(key=lambda u: (u['cfg'] not in ('avx2', 'clang-avx2', 'avx'), u['type'] or ''))
    with cf.ThreadPoolExecutor(args.jobs) as pool:
        bins, errs = make(b, us, pool)
        tb = time.time()
        for u, e in errs:
            m = [l for l in e.err.splitlines() if 'error' in l]
            if not m or re.search(r'internal compiler error|Killed|cannot allocate|No space left|out of memory', e.err):
                broken.append('%s/%s: compiler did not run: %s' % (uname(u), u['cfg'], e.err[-300:]))
                continue
            fn = os.path.join(rdir, '%s-%s-%s-compile.replay' % (p, u['cfg'], uname(u)))
            with open(fn, 'w') as f:
                f.write('property %s\nconfig %s\nunit %s\ncompile %s\nfailure the public interface no longer compiles for %s\n%s\n' % (p, u['cfg'], uname(u), ' '.join(e.cmd), uname(u), e.err[:6000]))
            viol.append((fn, 'does not compile: ' + m[0][:300]))

        def run(ub):
            u, bn = ub
            out = bn + '.json'
            base = [bn, '--seed', str(seed), '--cases', str(int(u['cases'] * args.scale)), '--out', out, '--rdir', rdir, '--prop', p, '--cfg', u['cfg'], '--unit', uname(u), '--max-secs', str(u['secs'])]
            if args.only: base += ['--only', args.only]
            for k in range(2):
                if os.path.exists(out): os.remove(out)
                try:
                    r = sh(base, timeout=u['secs'] * 3 + 120, env=ENV)
                    rc, er = r.returncode, r.stderr if len(r.stderr) < 2400 else r.stderr[:1200] + ' ... ' + r.stderr[-1200:]
                except subprocess.TimeoutExpired:
                    rc, er = 'timeout', ''
                if rc in (0, 1) and os.path.exists(out):
                    try: return u, json.load(open(out)), rc, er
                    except ValueError: pass
            fn = os.path.join(rdir, '%s-%s-%s-crash.replay' % (p, u['cfg'], uname(u)))
            with open(fn, 'w') as f:
                f.write('property %s\nconfig %s\nunit %s\nrun %s\nfailure the run died twice with status %s\n%s\n' % (p, u['cfg'], uname(u), ' '.join(base), rc, er))
            return u, None, rc, fn
        for u, js, rc, er in pool.map(run, bins):
            if js is None:
                viol.append((er, 'run of %s (%s) died with status %s' % (uname(u), u['cfg'], rc)))
                continue
            for k in ('evaluations', 'nontrivial', 'distinct_nontrivial', 'excluded', 'subjects'): agg[k] += js[k]
            trunc += js['truncated']
            per_unit['%s/%s' % (uname(u), u['cfg'])] = dict(evaluations=js['evaluations'], distinct_nontrivial=js['distinct_nontrivial'], subjects=js['subjects'])
            samples += [u['cfg'] + '/' + s for s in js['samples'][:3]]
            for k, v in js['ops'].items():
                o = ops.setdefault(k, dict(eval=0, nontrivial=0, excluded=0, classes={}))
                for q in ('eval', 'nontrivial', 'excluded'): o[q] += v[q]
                for ck, cv in v['classes'].items(): o['classes'][ck] = o['classes'].get(ck, 0) + cv
            for f in js['failures']:
                k = next((k for k in kf if re.fullmatch(k['subject'], f['subject']) and re.search(k.get('config', ''), u['cfg'])), None)
                if k: known.append((k['what'], f))
                elif f['confirmed'] == 0: broken.append('not reproducible: %s %s %s' % (u['cfg'], f['subject'], f['msg'])); viol.append((f['replay'], '[%s] %s: %s (did not reproduce from its tape)' % (u['cfg'], f['subject'], f['msg'])))
                else: viol.append((f['replay'], '[%s] %s: %s' % (u['cfg'], f['subject'], f['msg'])))
    if not viol and not (args.only or args.unit):
        for u, v in per_unit.items():
            if not v['evaluations']: broken.append('unit %s generated no case' % u)
    wall = time.time() - t0
    random_samples = samples[::max(1, len(samples) // 12)][:12]
    ev = dict(property=p, tier=tier, seed=seed, level=PROPS[p].get('level', 'exploration'), wall_s=round(wall, 1),
              coverage=dict(evaluations=agg['evaluations'], distinct_nontrivial=agg['distinct_nontrivial'],
                            rule=PROPS[p]['rule'], samples=random_samples))
    ev['coverage']['nontrivial'] = agg['nontrivial']
    ev['coverage']['excluded_known'] = agg['excluded']
    ev['coverage']['subjects'] = agg['subjects']
    ev['coverage']['configurations'] = sorted({u['cfg'] for u in us})
    ev['coverage']['units'] = per_unit
    ev['coverage']['operations'] = ops
    ev['coverage']['truncated_units'] = trunc
    ev['coverage']['violations'] = len(viol)
    ev['coverage']['build_s'] = round(tb - t0, 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not (args.cfg or args.only or args.unit):
        with open(os.path.join(HERE, 'evidence', p + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    b.prune()
    print('%s %s: %d cases, %d distinct non-trivial, %d subjects, %d units, build %.0f s, total %.0f s' % (p, tier, agg['evaluations'], agg['distinct_nontrivial'], agg['subjects'], len(us), tb - t0, wall))
    for w in sorted({w for w, _ in known}): print('KNOWN-FINDING: property=%s %s' % (p, w))
    for fn, m in viol[:args.show]: print('  ' + m[:1200])
    if viol:
        for fn, m in viol[:args.show]: print('VIOLATION property=%s replay=%s' % (p, fn))
        return 1
    if broken:
        for m in broken: print('BROKEN ' + m)
        return 2
    return 0


def replay(args):
    meta = {}
    for l in open(args.file):
        k, _, v = l.rstrip('\n').partition(' ')
        meta.setdefault(k, v)
    b = Builder()
    us = [u for t in ('quick', 'thorough') for u in units(meta['property'], t, int(meta.get('seed', '1').split()[0])) if u['cfg'] == meta['config'] and uname(u) == meta['unit']]
    with cf.ThreadPoolExecutor(JOBS) as pool:
        for u in us:
            bins, errs = make(b, [u], pool)
            if errs:
                print('FAILS: does not compile'); print(errs[0][1].err[:3000]); return 1
            if 'subject' not in meta:
                r = sh([bins[0][1], '--prop', meta['property']], env=ENV); print('run exited', r.returncode); return 0 if r.returncode == 0 else 1
            r = sh([bins[0][1], '--replay', args.file], env=ENV)
            if r.returncode == 2: continue
            print(r.stdout, end='')
            return r.returncode
    print('no unit knows this subject'); return 2


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd', required=True)
    c = sp.add_parser('check'); c.add_argument('id'); c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1'))); c.add_argument('--cfg'); c.add_argument('--only'); c.add_argument('--unit')
    c.add_argument('--jobs', type=int, default=JOBS); c.add_argument('--scale', type=float, default=1.0); c.add_argument('--show', type=int, default=12)
    r = sp.add_parser('replay'); r.add_argument('file')
    sp.add_parser('setup')
    a = ap.parse_args()
    if a.cmd == 'check': return check(a)
    if a.cmd == 'replay': return replay(a)
    os.makedirs(BUILD, exist_ok=True)
    Builder().engine()
    print('engine built')
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        print('BROKEN the check itself failed')
        sys.exit(2)

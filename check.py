#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the property's harness from /repo's working tree, searches generated
cases for a violation, and writes evidence/<property>.json.
Exit 0: held. Exit 1: VIOLATION line printed. Anything else: check error.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PBT_REPO', '/repo')
sys.path.insert(0, VERIF)
from registry import PROPS
BUILD = os.path.join(VERIF, 'build')
COMMON = ['-std=gnu++14', '-msse4', '-Wno-invalid-offsetof', '-w', '-DNDEBUG', '-g1']
VARIANTS = {
    # the project's own release configuration
    'rel': ('g++-9', ['-O3', '-fPIC']),
    # memory errors made visible
    'san': ('g++-9', ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer',
                      '-fsanitize=bounds,unreachable,return,integer-divide-by-zero',
                      '-fno-sanitize-recover=all']),
    'tsan': ('clang++-18', ['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer',
                            '-include', 'limits', '-include', 'cstdint', '-fno-strict-aliasing']),
    'fuzz': ('clang++-18', ['-O1', '-fsanitize=fuzzer,address', '-DPBT_FUZZ', '-fno-omit-frame-pointer',
                            '-include', 'limits', '-include', 'cstdint', '-fno-strict-aliasing']),
}
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=99:allocator_may_return_null=1:'
                       'max_allocation_size_mb=2048:detect_stack_use_after_return=0:'
                       'malloc_fill_byte=190:max_malloc_fill_size=65536:hard_rss_limit_mb=2500:'
                       'detect_odr_violation=0:handle_abort=0')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1'
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'
ENV['LC_ALL'] = 'C.UTF-8'


# the quick tier runs this many times the cases named in the harness, where these take little time
QUICK = {'C02': 5, 'C03': 8, 'C04': 8, 'C05': 4, 'C06': 3, 'C09': 6, 'C11': 4, 'C13': 4, 'C14': 6, 'C15': 3, 'C16': 8, 'C17': 6,
         'C20': 6, 'C21': 6, 'C22': 8, 'C23': 2, 'C24': 4, 'C25': 8, 'C26': 8, 'C27': 6, 'C28': 6, 'C29': 8, 'C30': 2, 'C32': 8, 'C34': 4}


def repo_hash():
    h = hashlib.sha256()
    for d in ('datas', 'formats', 'uni'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p[len(REPO):].encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h


def sh_hash(base, *paths):
    h = base.copy()
    for p in paths:
        with open(p, 'rb') as fh:
            h.update(fh.read())
    return h


class BuildError(Exception):
    pass


def compile_one(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])


def build(pid, variants, pool):
    cfg = PROPS[pid]
    rh = repo_hash()
    harness = os.path.join(VERIF, 'harness', cfg['harness'])
    libfiles = sorted(glob.glob(os.path.join(VERIF, 'lib', '*')) + glob.glob(os.path.join(VERIF, 'harness', '*.hpp')) + glob.glob(os.path.join(VERIF, 'harness', 'py2', '*'))
                      + [os.path.join(VERIF, 'harness', x) for x in cfg.get('extra', [])])
    outs, jobs, links = {}, [], []
    for v in variants:
        cxx, flags = VARIANTS[v]
        flags = COMMON + flags + cfg.get('flags', []) + cfg.get('flags_' + v, [])
        h = sh_hash(rh, harness, *libfiles)
        h.update(repr((cxx, flags, cfg.get('srcs'), cfg.get('libs'), REPO)).encode())
        d = os.path.join(BUILD, f'{pid}-{v}')
        exe = os.path.join(d, 'h')
        outs[v] = exe
        stamp = os.path.join(d, 'stamp')
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        objs = []
        inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'datas'), '-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'harness')]
        inc += ['-I' + os.path.join(VERIF, x) for x in cfg.get('inc', [])]
        srcs = [(harness, [])]
        for s_ in cfg.get('srcs', []):
            srcs.append((os.path.join(REPO, s_), []))
        for s_ in cfg.get('extra', []):
            srcs.append((os.path.join(VERIF, 'harness', s_), []))
        for i, (s_, ex) in enumerate(srcs):
            o = os.path.join(d, f'o{i}.o')
            objs.append(o)
            jobs.append(pool.submit(compile_one, [cxx] + flags + ex + inc + ['-c', s_, '-o', o], d))
        links.append(([cxx] + flags + objs + ['-o', exe] + cfg.get('libs', []) + ['-lpthread'], d, stamp, h.hexdigest()))
    for j in jobs:
        j.result()
    for cmd, d, stamp, hx in links:
        compile_one(cmd, d)
        with open(stamp, 'w') as f:
            f.write(hx)
    return outs


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                m = re.match(r'finding: property=(\S+) probe=(\S+) (.*)', line)
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    return out


def run_probe(exe, name, env):
    r = subprocess.run([exe, '--only', name, '--probe'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replays, scale, only = [], None, None
    while a:
        k = a.pop(0)
        if k == '--tier': tier = a.pop(0)
        elif k == '--seed': seed = int(a.pop(0))
        elif k == '--replay': replays.append(os.path.abspath(a.pop(0)))
        elif k == '--scale': scale = float(a.pop(0))
        elif k == '--only': only = a.pop(0)
    cfg = PROPS[pid]
    t0 = time.time()
    variants = [v for v in cfg.get('variants', ['rel', 'san']) if v in os.environ.get('PBT_VARIANTS', v).split(',')]
    fuzz = tier == 'thorough' and cfg.get('fuzz', False) and not replays
    pool = cf.ThreadPoolExecutor(8)
    try:
        exes = build(pid, variants + (['fuzz'] if fuzz else []), pool)
    except BuildError as e:
        print('BUILD-ERROR', e)
        return 2
    tbuild = time.time() - t0
    work = os.path.join(BUILD, f'run-{pid}-{os.getpid()}')
    os.makedirs(work, exist_ok=True)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    env = dict(ENV)
    env['PBT_WORK'] = work
    env['PBT_REPO'] = REPO
    if replays:
        rc = 0
        for v in variants:
            c = [exes[v], '--out', os.path.join(work, 'rp-' + v)]
            for r in replays: c += ['--replay', r]
            p = subprocess.run(c, env=env, cwd=work)
            rc = max(rc, p.returncode)
        shutil.rmtree(work, ignore_errors=True)
        return rc
    violations, errors, flaky = [], [], []
    finds = []
    for probe, text in known_findings(pid):
        v = 'san' if 'san' in exes else variants[0]
        c = [exes[v], '--only', probe, '--probe', '--out', os.path.join(work, 'kf-' + probe), '--replay-dir', work]
        p = subprocess.run(c, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 1:
            finds.append(text)
            print(f'KNOWN-FINDING: property={pid} {text}')
        elif p.returncode != 0:
            errors.append('probe ' + probe + ': ' + p.stdout[-500:])
    # random search: every shard of every variant
    nsh = cfg.get('shards', 4)
    jobs = []
    for vi, v in enumerate(variants):
        sc = cfg.get('scale_' + v, 1.0 if v == 'rel' else 0.25) * (scale or (QUICK.get(pid, 1.0) if tier == 'quick' else 1.0))
        for i in range(nsh):
            o = os.path.join(work, f'{v}-{i}')
            c = [exes[v], '--seed', str(seed * 1000 + vi), '--shard', f'{i}/{nsh}', '--scale', str(sc),
                 '--out', o, '--replay-dir', rdir, '--tag', f'{pid}-{v}']
            if tier == 'thorough': c.append('--thorough')
            if only: c += ['--only', only]
            wd = os.path.join(work, f'wd-{v}-{i}')
            os.makedirs(wd)
            e2 = dict(env)
            e2['PBT_WORK'] = wd
            jobs.append((v, o, c, wd, e2))
    limit = 1e9
    def go(j):
        v, o, c, wd, e2 = j
        p = subprocess.run(c, env=e2, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return v, o, p.returncode, p.stdout
    stats, hashes, samples = {}, set(), []
    import array
    for v, o, rc, outp in pool.map(go, jobs):
        for line in outp.splitlines():
            if line.startswith('FAIL '): violations.append((v, line))
            elif line.startswith('FLAKY '): flaky.append((v, line))
        if rc not in (0, 1, 4):
            errors.append(f'{v} rc={rc}: {outp[-800:]}')
        if os.path.exists(o + '.json'):
            d = json.load(open(o + '.json'))
            for t in d['tests']:
                s_ = stats.setdefault(t['name'], {'cases': 0, 'nontrivial': 0, 'labels': {}})
                s_['cases'] += t['cases']; s_['nontrivial'] += t['nontrivial']
                for l, n in t['labels'].items(): s_['labels'][l] = s_['labels'].get(l, 0) + n
                if v == variants[0]:
                    for x in t['samples'][:2]:
                        samples.append(t['name'] + ': ' + x[:600])
            ar = array.array('Q')
            with open(o + '.hashes', 'rb') as f:
                ar.frombytes(f.read())
            if len(hashes) < 8_000_000:
                hashes.update(ar)
    fuzzinfo = None
    if fuzz and not violations:
        fuzzinfo, fv = run_fuzz(pid, cfg, exes, env, work, rdir, seed, pool)
        violations += fv
    evals = sum(t['cases'] for t in stats.values()) + (fuzzinfo['executions'] if fuzzinfo else 0)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(hashes),
            'rule': cfg['rule'],
            'samples': samples[:40],
            'tests': stats,
            'variants': variants,
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if fuzzinfo: ev['coverage']['libfuzzer'] = fuzzinfo
    if flaky: ev['coverage']['unconfirmed'] = [l for _, l in flaky][:10]
    if finds: ev['coverage']['known_findings'] = finds
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for v, l in flaky: print('UNCONFIRMED', v, l)
    seen = set()
    for v, line in violations:
        m = re.match(r'FAIL test=(\S+) replay=(\S+) msg=(.*)', line)
        if m.group(1) in seen: continue
        seen.add(m.group(1))
        print(f'VIOLATION property={pid} replay={m.group(2)}')
        print(f'  variant={v} test={m.group(1)}: {m.group(3)[:1500]}')
    print(f'{pid} {tier} seed={seed}: {evals} cases, {len(hashes)} distinct non-trivial, '
          f'{len(violations)} violations, build {tbuild:.1f}s, total {time.time()-t0:.1f}s')
    if violations: return 1
    if errors:
        print('ERROR', *errors, sep='\n')
        return 2
    if evals == 0:
        print('ERROR no cases')
        return 2
    return 0


def run_fuzz(pid, cfg, exes, env, work, rdir, seed, pool):
    secs = cfg.get('fuzz_secs', 180)
    nproc = 8
    viol = []
    total = [0]
    def one(i):
        d = os.path.join(work, f'fz{i}')
        cor = os.path.join(d, 'corpus')
        os.makedirs(cor)
        e = dict(env)
        e['PBT_WORK'] = d
        if cfg.get('fuzz_skip'): e['PBT_SKIP'] = cfg['fuzz_skip']
        e['PBT_LAST'] = os.path.join(d, 'last.replay')
        c = [exes['fuzz'], f'-seed={seed * 100 + i + 1}', f'-max_total_time={secs}', '-max_len=3000', '-len_control=20',
             '-print_final_stats=1', '-rss_limit_mb=3500', '-timeout=60', f'-artifact_prefix={d}/', cor]
        if i % 2: c.insert(1, '-use_value_profile=1')
        p = subprocess.run(c, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        m = re.search(r'number_of_executed_units: (\d+)', p.stdout)
        n = int(m.group(1)) if m else 0
        arts = [x for x in glob.glob(d + '/crash-*') + glob.glob(d + '/timeout-*')]
        res = []
        for art in arts:
            e['PBT_DECODE'] = '1'
            subprocess.run([exes['fuzz'], art], env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            rp = os.path.join(rdir, f'{pid}-fuzz-{i}-{os.path.basename(art)[:14]}.replay')
            if not os.path.exists(e['PBT_LAST']): continue
            shutil.copy(e['PBT_LAST'], rp)
            # only believed when the gcc builds of the harness agree
            for v in [x for x in exes if x != 'fuzz']:
                q = subprocess.run([exes[v], '--out', os.path.join(d, 'cf'), '--replay', rp], env=e, cwd=d,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                m2 = re.search(r'test=(\S+) fails=3/3 msg=(.*)', q.stdout)
                if m2:
                    res.append((v, f'FAIL test={m2.group(1)} replay={rp} msg={m2.group(2)}'))
                    break
        return n, res
    for n, res in pool.map(one, range(nproc)):
        total[0] += n
        viol += res
    return {'executions': total[0], 'processes': nproc, 'seconds_each': secs}, viol


if __name__ == '__main__':
    sys.exit(main())

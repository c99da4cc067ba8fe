#!/usr/bin/env python3
"""Runtime-monitoring driver.

  check.py P01                 run the check of one property (tier from VERIF_TIER / --thorough)
  check.py --replay FILE       rebuild and re-run the single execution recorded in a replay file
  check.py --list              list properties
  check.py --build             build every monitor once (setup_cmd)

Every run compiles the library sources of the repository's current working tree
together with the monitors in harness/ (several instrumented variants), drives them
with seeded workloads in 8 parallel shards, and turns the monitors' reports into an
exit status, VIOLATION lines, replay files and the evidence file.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
HARN = os.path.join(HERE, 'harness')
NPROC = 8

from spec import PROPS, VARIANTS, HARNESSES   # noqa: E402


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ---------------------------------------------------------------- building
def lib_sources(kind):
    d = os.path.join(REPO, 'deprecated') if kind == 'deprecated' else os.path.join(REPO, 'src')
    return d, sorted(glob.glob(os.path.join(d, '*.c')))


def config_header(var):
    """the header cmake would generate, with this variant's settings"""
    t = open(os.path.join(REPO, 'config', 'r3d-config.h.in')).read()
    vals = {'R3D_MAX_VERTS': str(var.get('max3', 512)), 'SHIFT_POLY': ''}
    t = re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), ''), t)
    if var.get('noshift'):
        t = re.sub(r'(?m)^\s*#\s*define\s+SHIFT_POLY.*$', '', t)
    return t


def digest(harness, vname, modes):
    h = hashlib.sha256()
    h.update(json.dumps([harness, HARNESSES[harness], VARIANTS[vname], modes]).encode())
    d, srcs = lib_sources(HARNESSES[harness].get('lib', 'src'))
    files = srcs + sorted(glob.glob(os.path.join(d, '*.h'))) + sorted(glob.glob(os.path.join(HARN, '*')))
    files.append(os.path.join(REPO, 'config', 'r3d-config.h.in'))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def build(harness, vname, modes):
    """returns path of the monitor binary"""
    var = VARIANTS[vname]
    H = HARNESSES[harness]
    key = digest(harness, vname, modes)
    out = os.path.join(BUILD, '%s-%s-%s' % (harness, vname, key))
    binary = os.path.join(out, 'monitor')
    if os.path.exists(binary):
        return binary
    tmp = out + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, 'inc'))
    srcdir, srcs = lib_sources(H.get('lib', 'src'))
    if not srcs:
        raise ToolError('no library sources in ' + srcdir)
    incs = ['-I' + os.path.join(tmp, 'inc')]
    if H.get('lib') != 'deprecated':
        open(os.path.join(tmp, 'inc', 'r3d-config.h'), 'w').write(config_header(var))
    # headers are copied so that compile-time capacities can be varied where the
    # header hard-codes them
    for f in glob.glob(os.path.join(srcdir, '*.h')):
        t = open(f).read()
        for name, val in var.get('header_defines', {}).items():
            t = re.sub(r'(?m)^(\s*#\s*define\s+%s)\s+\(?\d+\)?(?=\s|$)' % name, r'\g<1> %d' % val, t)
        open(os.path.join(tmp, 'inc', os.path.basename(f)), 'w').write(t)
    lsrc = []
    for f in srcs:  # library sources are compiled from a copy so that "x.h" finds those headers
        if H.get('only') and os.path.basename(f) not in H['only']:
            if os.path.basename(f) in ('r2d.c', 'v2d.c', 'r3d.c', 'v3d.c', 'rNd.c', 'vNd.c'):
                continue
        g = os.path.join(tmp, os.path.basename(f))
        shutil.copy(f, g)
        lsrc.append(g)
    cc, cxx = ('clang', 'clang++') if var.get('clang') else ('gcc', 'g++')
    cdefs = ['-D' + x for x in var.get('defs', [])]
    cflags = var.get('cflags', ['-O2', '-DNDEBUG']) + ['-g', '-w']
    jobs = [[cc] + cflags + cdefs + incs + ['-c', f, '-o', f[:-2] + '.o'] for f in lsrc]
    hflags = ['-std=c++17', '-w', '-g'] + [x.replace('@HARN@', HARN) for x in var.get('hflags', ['-O1'])] + cdefs + incs + ['-I' + HARN]
    if modes:
        hflags.append('-DMODE_LIST=' + ' '.join('X(%s)' % m for m in modes))
    hflags += ['-D%s' % x for x in H.get('defs', [])]
    hobj = os.path.join(tmp, 'harness.o')
    jobs.append([cxx] + hflags + ['-c', os.path.join(HARN, H['src']), '-o', hobj])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for j, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                raise ToolError('compilation failed: %s\n%s' % (' '.join(j), r.stdout[-4000:]))
    link = [cxx] + var.get('lflags', []) + [hobj] + [f[:-2] + '.o' for f in lsrc] + ['-o', os.path.join(tmp, 'monitor'), '-lm', '-lpthread']
    if H.get('wrap') and not var.get('nowrap'):
        link.append('-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc')
    r = sh(link)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise ToolError('link failed: %s\n%s' % (' '.join(link), r.stdout[-4000:]))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return binary


# ---------------------------------------------------------------- running
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=173'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
ENV['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1'
ENV['MSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:print_stats=0:intercept_memcmp=0:intercept_strlen=0:intercept_strcmp=0:strict_memcmp=0'


def san_summary(err):
    m = re.search(r'SUMMARY: (.*)', err)
    first = re.search(r'(?m)^(==\d+==ERROR: .*|.*runtime error: .*|WARNING: ThreadSanitizer.*|==\d+==WARNING: .*)$', err)
    parts = []
    if first:
        parts.append(re.sub(r'0x[0-9a-f]+', '0x..', re.sub(r'==\d+==', '', first.group(1))))
    if m:
        parts.append(re.sub(r'0x[0-9a-f]+', '0x..', m.group(1)))
    s = ' | '.join(parts)
    s = s.replace(BUILD, '')
    return re.sub(r'/\S*/', '', s)[:600]


def run_one(binary, run, seed, args, prog, timeout):
    cmd = [binary, '--mode', run['mode'], '--variant', run['variant'], '--seed', str(seed), '--progress', prog] + args
    cmd += run.get('args', [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        rc, out, err = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        rc, out, err = 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')
    cur = -1
    try:
        cur = struct.unpack('q', open(prog, 'rb').read(8))[0]
    except Exception:
        pass
    return rc, out, err, cur


def shard_job(binary, run, seed, ncases, shard, nsh, tmpdir):
    """run one shard; returns (violations, stats)"""
    prog = os.path.join(tmpdir, 'prog-%s-%s-%d-%d' % (run['mode'], run['variant'], shard, id(run)))
    open(prog, 'wb').write(b'\xff' * 64)
    rc, out, err, cur = run_one(binary, run, seed,
                                ['--cases', str(ncases), '--shard', str(shard), '--nshards', str(nsh)], prog, run.get('timeout', 800))
    viol, stats = [], None
    for line in out.splitlines():
        f = line.split('\t')
        if f[0] == 'VIOL' and len(f) >= 5:
            viol.append({'case': int(f[1]), 'key': f[2], 'msg': f[3], 'desc': f[4]})
        elif f[0] == 'STAT':
            stats = json.loads(line.split('\t', 1)[1])
    if rc in (0, 1) and stats is not None:
        if rc == 0 and err and run.get('stderr_is_violation'):
            viol.append({'case': cur, 'key': 'sanitizer', 'msg': san_summary(err), 'desc': ''})
        return viol, stats, None
    if rc == 77:                       # watchdog: confirm alone, with a larger allowance
        rc2, out2, err2, _ = run_one(binary, run, seed, ['--case', str(cur), '--hang-ms', '60000'], prog, 300)
        if rc2 == 77 or rc2 == 'timeout':
            viol.append({'case': cur, 'key': 'hang', 'msg': 'the call does not return (60 s of CPU time in one case)', 'desc': ''})
            return viol, stats, None
        return viol, stats, 'shard stopped: case %d was slow once but finished alone' % cur
    if rc == 'timeout':
        return viol, stats, 'shard timed out in case %d' % cur
    if rc == 3 or cur < 0:
        return viol, stats, 'monitor could not start (exit %s): %s' % (rc, (out + err)[-500:])
    # crash or sanitizer report: attribute to the case in progress
    s = san_summary(err) or ('terminated by signal %d' % -rc if isinstance(rc, int) and rc < 0 else 'exit status %s: %s' % (rc, err[-300:]))
    key = 'sanitizer' if rc == 99 or 'Sanitizer' in err or 'runtime error' in err else 'crash'
    viol.append({'case': cur, 'key': key, 'msg': s, 'desc': ''})
    return viol, stats, None


def load_known():
    f = os.path.join(HERE, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else []


def matches(k, pid, v):
    return (k.get('status') == 'known' and k['property'] == pid and
            re.search(k.get('key', '.*') + r'\Z', v['key']) and re.search(k['match'], v['msg'] + ' || ' + v['desc']))


def check(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    runs = []
    for r in P['runs']:
        n = r.get(tier, r['quick'] * P.get('thorough_factor', 20) if tier == 'thorough' else 0)
        if n > 0:
            runs.append(dict(r, n=n))
    # one binary per (harness, variant)
    want = {}
    for r in runs:
        want.setdefault((r['harness'], r['variant']), set()).add(r['mode'])
    bins = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = {k: ex.submit(build, k[0], k[1], sorted(m)) for k, m in want.items()}
        for k, f in futs.items():
            bins[k] = f.result()
    tb = time.time() - t0
    tmpdir = os.path.join(BUILD, 'tmp-%s-%d' % (pid, os.getpid()))
    os.makedirs(tmpdir, exist_ok=True)
    viol, notes = [], []
    total = {'cases': 0, 'skipped': 0}
    events, worst, samples, sigs, perrun = {}, [], [], set(), []
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = []
            for r in runs:
                nsh = max(1, min(r.get('shards', NPROC), r['n']))
                for s in range(nsh):
                    futs.append((r, ex.submit(shard_job, bins[(r['harness'], r['variant'])], r, seed, r['n'], s, nsh, tmpdir)))
            agg = {}
            for r, f in futs:
                v, st, note = f.result()
                for x in v:
                    x.update(harness=r['harness'], mode=r['mode'], variant=r['variant'], args=r.get('args', []))
                viol += v
                if note:
                    notes.append('%s/%s/%s: %s' % (r['harness'], r['mode'], r['variant'], note))
                a = agg.setdefault(id(r), {'monitor': r['harness'] + ':' + r['mode'], 'variant': r['variant'], 'cases': 0, 'skipped': 0})
                if st:
                    a['cases'] += st['cases']
                    a['skipped'] += st['skipped']
                    total['cases'] += st['cases']
                    total['skipped'] += st['skipped']
                    worst.append((st['worst'], '%s:%s/%s %s' % (r['harness'], r['mode'], r['variant'], st['worstwhat'])))
                    for k, n in st['events'].items():
                        events[k] = events.get(k, 0) + n
                    if st['samples'] and len(samples) < 6 and not any(s['monitor'] == r['harness'] + ':' + r['mode'] and s['variant'] == r['variant'] for s in samples):
                        samples.append({'monitor': r['harness'] + ':' + r['mode'], 'variant': r['variant'], 'case': st['samples'][0]})
                    sigs |= {r['harness'] + r['mode'] + x for x in st['sigs'].split()}
            perrun = list(agg.values())
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    known = load_known()
    real, hit = [], {}
    for v in viol:
        for k in known:
            if matches(k, pid, v):
                hit[k['what']] = hit.get(k['what'], 0) + 1
                break
        else:
            real.append(v)
    floor_fail = []
    if not real:
        for k, n in P.get('floors', {}).items():
            if events.get(k, 0) < n:
                floor_fail.append('%s=%d < %d' % (k, events.get(k, 0), n))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['cases'], 'distinct_nontrivial': len(sigs),
            'rule': P['rule'], 'samples': samples, 'observed_events': dict(sorted(events.items())),
            'runs': perrun, 'skipped_cases': total['skipped'],
            'worst_error_over_tolerance': max(worst)[0] if worst else 0,
            'worst_error_where': max(worst)[1] if worst else '', 'build_s': round(tb, 2), 'notes': notes,
        },
        'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(real),
    }
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for w, n in hit.items():
        print('KNOWN-FINDING: property=%s %s (seen %d times)' % (pid, w, n))
    if real:
        seen = set()
        for v in real:
            k = (v['key'], v['harness'], v['mode'], v['variant'])
            if k in seen:
                continue
            seen.add(k)
            path = os.path.join(EVID, 'replay-%s-%s-%s-%s.json' % (pid, v['mode'], v['variant'], re.sub(r'\W', '_', v['key'])))
            json.dump({'property': pid, 'seed': seed, 'harness': v['harness'], 'mode': v['mode'], 'variant': v['variant'],
                       'case': v['case'], 'args': v['args'], 'key': v['key'], 'message': v['msg'], 'input': v['desc']},
                      open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s:%s/%s case %d [%s] %s' % (v['harness'], v['mode'], v['variant'], v['case'], v['key'], v['msg'][:300]))
        return 1
    if notes:
        for n in notes:
            print('note: ' + n)
        if any('could not start' in n or 'timed out' in n for n in notes):
            return 2
    if floor_fail:
        print('the workload did not reach what it must reach: ' + ', '.join(floor_fail))
        return 2
    print('%s held on %d executions (%d distinct), %.1f s' % (pid, total['cases'], len(sigs), time.time() - t0))
    return 0


def replay(path):
    r = json.load(open(path))
    b = build(r['harness'], r['variant'], [r['mode']])
    run = {'mode': r['mode'], 'variant': r['variant'], 'args': r.get('args', [])}
    os.makedirs(BUILD, exist_ok=True)
    prog = os.path.join(BUILD, 'replay-prog')
    rc, out, err, cur = run_one(b, run, r['seed'], ['--case', str(r['case']), '-v'], prog, 600)
    os.unlink(prog)
    sys.stdout.write(re.sub(r'"sigs":"[^"]*"', '', out))
    sys.stderr.write(err[-6000:])
    print('exit status %s' % rc)
    return 0 if rc == 0 else 1


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if not a or a[0] == '--list':
        for p in PROPS:
            print(p, PROPS[p]['rule'][:90])
        return 0
    if a[0] == '--replay':
        return replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in a:
        tier = 'thorough'
    if '--quick' in a:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    try:
        if a[0] == '--build':
            jobs = {}
            for p in PROPS.values():
                for r in p['runs']:
                    if r['quick'] > 0:
                        jobs.setdefault((r['harness'], r['variant']), set()).add(r['mode'])
            k = sorted(jobs)[0]
            build(k[0], k[1], sorted(jobs[k])[:1])
            print('toolchain works')
            return 0
        return check(a[0], tier, seed)
    except ToolError as e:
        print('error: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())

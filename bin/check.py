#!/usr/bin/env python3
"""Decides one property: builds its harness from /repo's working tree, runs the
exhaustive exploration, writes evidence, prints VIOLATION / KNOWN-FINDING lines.

usage: check.py <property> [--tier quick|thorough] [--replay FILE] [--keep]
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import checks

NCPU = os.cpu_count() or 4
T0 = time.time()
CXX = 'g++'
BASE = ['-std=c++17', '-DNO_POPCNT', '-DNDEBUG', '-pthread', '-w', '-I' + REPO]
FLAVOURS = {
    'plain': ['-O1', '-g1'],
    'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
    # instrumented for the controlled scheduler (rt/): calls of __tsan_*, own runtime
    'sched': ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-include', os.path.join(VERIF, 'rt', 'instr.hpp')],
    'notsan': ['-O2', '-g1'],
}
BOOST = ['-lboost_program_options', '-lboost_filesystem', '-lboost_system', '-lboost_locale', '-lboost_thread', '-lboost_atomic']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log('ERROR:', msg)
    sys.exit(2)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def repo_files():
    r = []
    for pat in ('*.cpp', '*.hpp', '*.h', '*.c', '*.ipp', '*.cc'):
        r += glob.glob(os.path.join(REPO, '**', pat), recursive=True)
    return [p for p in r if '/_build/' not in p and '/third' not in p]


class Builder:
    def __init__(self):
        self.root = os.path.join(VERIF, 'build')
        os.makedirs(self.root, exist_ok=True)
        own = glob.glob(os.path.join(VERIF, 'common', '*')) + glob.glob(os.path.join(VERIF, 'rt', '*')) + glob.glob(os.path.join(VERIF, 'harness', '*'))
        self.repo_key = file_hash(repo_files())
        self.own_key = file_hash([p for p in own if os.path.isfile(p)])
        self.jobs = {}  # out -> cmd
        self.prune()

    def prune(self):
        ents = sorted((os.path.join(self.root, e) for e in os.listdir(self.root)), key=os.path.getmtime)
        if len(ents) > 1500:
            for e in ents[:len(ents) - 1500]:
                try:
                    os.unlink(e)
                except OSError:
                    pass

    def obj(self, src, flavour, extra=(), own=False):
        cmd = [CXX] + BASE + FLAVOURS[flavour] + list(extra) + ['-c', src]
        key = hashlib.sha256(('\0'.join(cmd) + self.repo_key + (self.own_key if own else '')).encode()).hexdigest()[:24]
        out = os.path.join(self.root, os.path.basename(src) + '.' + key + '.o')
        self.jobs[out] = cmd
        return out

    def run_jobs(self):
        todo = [(o, c) for o, c in self.jobs.items() if not os.path.exists(o)]
        for o in self.jobs:
            if os.path.exists(o):
                os.utime(o)
        self.jobs = {}
        # long ones first
        todo.sort(key=lambda oc: -os.path.getsize(oc[1][-1]))

        def one(oc):
            out, cmd = oc
            tmp = out + '.tmp%d' % os.getpid()
            p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return ' '.join(cmd) + '\n' + p.stdout[-4000:]
            os.rename(tmp, out)
            return None
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            die('build failed\n' + '\n'.join(errs))

    def link(self, name, objs, flavour, extra=(), static=True, cxx=CXX):
        cmd = [cxx, '-pthread'] + list(objs)
        if flavour == 'asan':
            cmd += ['-fsanitize=address']
        elif static:
            cmd += ['-static']
        cmd += list(extra)
        key = hashlib.sha256(('\0'.join(cmd)).encode()).hexdigest()[:24]
        out = os.path.join(self.root, name + '.' + key)
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                die('link failed\n' + ' '.join(cmd) + '\n' + p.stdout[-4000:])
            os.rename(tmp, out)
        else:
            os.utime(out)
        return out


def component(d):
    """all sources of a component directory (not of its sub-directories)"""
    return sorted(glob.glob(os.path.join(REPO, d, '*.cpp')))


def build(cfg):
    b = Builder()
    plan = []
    for exe in [cfg['main']] + cfg.get('also', []) + cfg.get('tools', []):
        spec = dict(checks.EXES[exe])
        if 'script' in spec:
            continue
        fl = spec.get('flavour', 'plain')
        objs = []
        for d in spec.get('repo', []):
            for s in component(d):
                ex = list(spec.get('repo_flags', []))
                if d in spec.get('tool_dirs', []):
                    ex.append('-Dmain=' + spec.get('tool_main', 'tool_main'))
                objs.append(b.obj(s, fl, ex))
        for f in spec.get('repo_files', []):
            objs.append(b.obj(os.path.join(REPO, f), fl, spec.get('repo_flags', [])))
        for s in spec.get('own', []):
            ofl = spec.get('own_flavour', fl)
            objs.append(b.obj(os.path.join(VERIF, s), spec.get('file_flavour', {}).get(s, ofl), spec.get('own_flags', []), own=True))
        plan.append((exe, objs, fl, spec))
    b.run_jobs()
    paths = {exe: [spec['interpreter'], os.path.join(VERIF, spec['script'])] for exe, spec in checks.EXES.items() if 'script' in spec}

    def lk(p):
        exe, objs, fl, spec = p
        extra = list(spec.get('link', [])) + ['-Wl,--start-group'] + BOOST + ['-lcrypto', '-lbz2', '-lz', '-ldl', '-Wl,--end-group']
        if spec.get('nocrypto'):
            extra.remove('-lcrypto')
        paths[exe] = b.link(exe, objs, fl, extra, spec.get('static', True))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lk, plan))
    return paths


def load_known(pid):
    """lines: known: property=<id> explore=<name> sig=<sig> <what fails>"""
    res = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known: property=(\S+) explore=(\S+) sig=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res[m.group(2) + ' ' + m.group(3)] = m.group(4)
    return res


def main():
    args = sys.argv[1:]
    if not args:
        die(__doc__)
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    replay = None
    extra_args = []
    i = 1
    while i < len(args):
        if args[i] == '--tier':
            tier = args[i + 1]; i += 2
        elif args[i] == '--replay':
            replay = args[i + 1]; i += 2
        elif args[i].startswith('--'):
            extra_args.append(args[i]); i += 1
        else:
            die('unknown argument ' + args[i])
    if pid not in checks.CHECKS:
        die('no such property: ' + pid)
    cfg = checks.CHECKS[pid]
    paths = build(cfg)
    tbuild = time.time() - T0
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 2 << 30 else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix='pwned-mc-', dir=base)
    known = load_known(pid)
    evidence = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence) and not replay:
        os.unlink(evidence)
    rc = 2
    try:
        os.chmod(scratch, 0o755)
        limit = cfg.get('limit', {}).get(tier, 780 if tier == 'quick' else 6 * 3600)
        budget = cfg.get('budget', {}).get(tier, 420 if tier == 'quick' else 5 * 3600)
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3000:handle_segv=1:allocator_may_return_null=0:max_allocation_size_mb=2048'
        env['LC_ALL'] = 'C'
        env['TZ'] = 'UTC'
        env['TMPDIR'] = scratch
        r = {'explorations': [], 'violations': []}
        code = 0
        for exe in [cfg['main']] + cfg.get('also', []):
            out = os.path.join(scratch, exe + '.json')
            sub = os.path.join(scratch, exe)
            os.mkdir(sub)
            cmd = (paths[exe] if isinstance(paths[exe], list) else [paths[exe]]) + ['--prop=' + cfg.get('mode', pid), '--tier=' + tier, '--scratch=' + sub, '--out=' + out, '--repo=' + REPO]
            cmd.append('--budget=%d' % max(10, budget - (time.time() - T0 - tbuild)))
            for t in cfg.get('tools', []):
                cmd.append('--%s=%s' % (t, paths[t]))
            cmd += cfg.get('args', [])
            if known:
                cmd.append('--known=' + ';'.join(known))
            if replay:
                cmd.append('--replay=' + os.path.abspath(replay))
            cmd += extra_args
            p = subprocess.Popen(cmd, env=env, start_new_session=True, cwd=sub)
            try:
                p.wait(max(20, limit - (time.time() - T0 - tbuild)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                die('harness exceeded %d s' % limit)
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            code = max(code, abs(p.returncode))
            if replay:
                continue
            if not os.path.exists(out):
                die('harness %s ended with status %s and without a result' % (exe, p.returncode))
            one = json.load(open(out))
            r['explorations'] += one['explorations']
            r['violations'] += one['violations']
            if any(not v['known'] for v in one['violations']):
                break
        if replay:
            return code
    finally:
        subprocess.run(['chmod', '-R', 'u+rwX', scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    ex = r['explorations']
    viol = [v for v in r['violations'] if not v['known']]
    errors = [v for v in viol if v['sig'] == 'ERROR']
    samples = []
    for e in ex:
        for s in e['samples'][:3]:
            samples.append({'exploration': e['name'], 'case': s})
    cov = {
        'states': sum(e['states'] for e in ex),
        'transitions': sum(e['transitions'] for e in ex),
        'traces_validated_against_impl': sum(e['executions'] for e in ex),
        'distinct_outcomes': sum(e['outcomes'] for e in ex),
        'exhaustive': all(e['exhaustive'] for e in ex) and not viol,
        'bounds': cfg.get('bounds', {}).get(tier, cfg.get('bounds', {}).get('quick', '')),
        'what_a_state_is': cfg.get('state', 'a distinct (model state, operation, observed result)'),
        'how_traces_are_validated': cfg.get('validated', 'every explored execution runs the code built from /repo and is compared with the reference model step by step'),
        'explorations': [{k: e[k] for k in ('name', 'executions', 'transitions', 'states', 'outcomes', 'max_choices', 'exhaustive', 'wall_s', 'counters')} for e in ex],
        'samples': samples[:24],
    }
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': cfg.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': cfg.get('assumptions', []), 'violations': len(viol), 'wall_s': round(time.time() - T0, 2), }
    ev['coverage']['build_s'] = round(tbuild, 2)
    tmp = evidence + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, evidence)
    for v in r['violations']:
        if v['known']:
            print('KNOWN-FINDING: property=%s %s' % (pid, known.get(v['explore'] + ' ' + v['sig'], v['sig'])))
    if errors:
        die('exploration is not reliable: ' + '; '.join(v['msg'] for v in errors))
    if viol:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viol):
            path = os.path.join(d, '%s-%d.txt' % (pid, n))
            with open(path, 'w') as f:
                f.write('property=%s\nexplore=%s\nsig=%s\npath=%s\ntier=%s\nreplay with: bin/check.py %s --tier %s --replay %s\n\n%s\n\nexecution:\n%s\n' % (
                    pid, v['explore'], v['sig'], v['path'], tier, pid, tier, path, v['msg'], v['notes']))
            print('violated: %s: %s: %s' % (v['explore'], v['sig'], v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not ex or cov['traces_validated_against_impl'] == 0:
        die('nothing was explored')
    print('property %s held: %d executions, %d transitions, %d states%s, %.1f s' % (
        pid, cov['traces_validated_against_impl'], cov['transitions'], cov['states'], '' if cov['exhaustive'] else ' (capped)', time.time() - T0))
    return 0


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))  # let the clean-up run
    sys.exit(main())

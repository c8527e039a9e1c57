#!/usr/bin/env python3
"""Builds and runs the checks.  Usage:
     run.py check <property> [--tier quick|thorough]
     run.py replay <replay file>
     run.py setup
   See DESIGN.md."""
import fcntl, fnmatch, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
JOBS = max(2, min(8, os.cpu_count() or 2))
FALLBACK = ['src/*.cpp', 'src/math/*.cpp', 'src/file/*.cpp', 'src/penguinv/*.cpp', 'src/tool/*.cpp', 'src/memory/*.cpp', 'src/parameter_validation*.cpp', 'src/thirdparty/kissfft/*.c']


class CheckError(Exception):
    pass


# ------------------------------------------------------------------------------------------------------------- building
def sha(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def compile_one(job):
    src, obj, cmd = job
    dep, key = obj + '.d', obj + '.key'
    tag = hashlib.sha256(' '.join(cmd).encode()).hexdigest()
    try:
        with open(key) as f:
            old = json.load(f)
        if old['tag'] == tag and os.path.exists(obj) and all(os.path.exists(p) and sha(p) == d for p, d in old['deps'].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd + ['-MMD', '-MF', dep, '-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError('compilation of %s failed:\n%s' % (src, r.stdout[-3000:]))
    with open(dep) as f:
        names = f.read().replace('\\\n', ' ').split(':', 1)[1].split()
    with open(key, 'w') as f:
        json.dump({'tag': tag, 'deps': {n: sha(n) for n in names if os.path.exists(n) and not n.startswith('/usr/')}}, f)
    return src


def find_sources(patterns, excludes=()):
    out = []
    for p in patterns:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            if not any(fnmatch.fnmatch(os.path.relpath(f, REPO), e) for e in excludes) and f not in out:
                out.append(f)
    return out


def swig(interface, out):
    """Generates the binding for python; the result is replaced only when it is different."""
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(out + '.new', exist_ok=True)
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(['swig', '-python', '-c++', '-outdir', out + '.new', '-o', out + '.new/wrap.cpp', interface], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError('swig failed:\n' + r.stdout[-3000:])
        for name in os.listdir(out + '.new'):
            new, old = os.path.join(out + '.new', name), os.path.join(out, name)
            if os.path.exists(old) and open(old).read() == open(new).read():
                os.unlink(new)
            else:
                os.replace(new, old)
    return os.path.join(out, 'wrap.cpp')


def build(check):
    """Returns the path of the harness binary of a check, built from the current tree."""
    c = check
    os.makedirs(BUILD, exist_ok=True)
    jobs, objs = [], []
    include = list(c.get('include', []))

    def add(src, flags, std):
        if src.endswith('.cu'):  # device code on the stand-in runtime
            cmd = [sys.executable, VERIF + '/tools/cucc.py', '-std=c++17'] + c['cuda_flags']
        else:
            cmd = ['gcc'] if src.endswith('.c') else ['g++', '-std=' + std]
            cmd += flags
        cmd += include + ['-I' + REPO + '/src', '-I' + VERIF + '/harness']
        name = hashlib.sha256((src + ' '.join(cmd)).encode()).hexdigest()[:12] + '-' + os.path.basename(src) + '.o'
        obj = os.path.join(BUILD, 'obj', name)
        jobs.append((src, obj, cmd))
        objs.append(obj)

    for s in find_sources(c.get('lib', []), c.get('lib_exclude', [])):
        add(s, c['lib_flags'], 'c++11')
    if 'swig' in c:  # the binding for python
        out = os.path.join(BUILD, 'swig', hashlib.sha256(REPO.encode()).hexdigest()[:8])
        include += ['-I' + REPO + '/src/python', '-DSWIG_OUT="%s"' % out, '-DVERIF_PYTHON="%s/harness/python"' % VERIF]
        add(swig(os.path.join(REPO, c['swig']), out), c['lib_flags'], 'c++11')
    for s in c.get('runtime', []):
        add(os.path.join(VERIF, s), c.get('runtime_flags', ['-O2', '-g']), 'c++17')
    for s in c['harness']:
        add(os.path.join(VERIF, s), c['harness_flags'], 'c++17')
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(compile_one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))))
        binary = os.path.join(BUILD, 'bin', c['name'])
        os.makedirs(os.path.dirname(binary), exist_ok=True)
        # relinking is cheap and makes staleness impossible
        r = subprocess.run(['g++'] + c.get('link_flags', []) + objs + ['-o', binary] + c.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and 'undefined reference' in r.stdout and c.get('lib'):
            # code of the repository moved to other files: offer everything else the repository has as an archive
            have = set(objs)
            jobs[:] = []
            taken = find_sources(c.get('lib', []), c.get('lib_exclude', []))
            for s in find_sources(FALLBACK):
                if s not in taken:
                    add(s, c['lib_flags'], 'c++11')
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(compile_one, jobs))
            archive = binary + '.a'
            if os.path.exists(archive):
                os.unlink(archive)
            subprocess.run(['ar', 'rcs', archive] + [o for o in objs if o not in have], check=True)
            r = subprocess.run(['g++'] + c.get('link_flags', []) + [o for o in objs if o in have] + ['-o', binary, archive] + c.get('libs', []) + ['-lpng', '-ljpeg'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError('linking of %s failed:\n%s' % (c['name'], r.stdout[-3000:]))
    return binary


# -------------------------------------------------------------------------------------------------------------- running
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) pattern=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def run_env(extra=None):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4096'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
    env['LSAN_OPTIONS'] = 'exitcode=78:print_suppressions=0'
    env['LC_ALL'] = 'C'
    if extra:
        env.update(extra)
    return env


class Stats(dict):
    def add(self, k, v):
        if k.startswith('max_'):
            self[k] = max(self.get(k, 0), v)
        else:
            self[k] = self.get(k, 0) + v


def spawn(binary, args, check, work, timeout):
    """Runs one harness process; returns (returncode or None on timeout, stdout, stderr tail)."""
    out = tempfile.TemporaryFile()
    err = tempfile.TemporaryFile()
    p = subprocess.Popen([binary] + args, stdout=out, stderr=err, cwd=work, env=run_env(check.get('env')), start_new_session=True)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = None
    out.seek(0)
    err.seek(0)
    o = out.read().decode(errors='replace')
    e = err.read().decode(errors='replace')
    return rc, o, e


def parse(out, stats, samples, notes):
    for line in out.splitlines():
        if line.startswith('STAT '):
            for kv in line[5:].split():
                k, v = kv.split('=')
                stats.add(k, int(v))
        elif line.startswith('SAMPLE '):
            samples.append(line[7:])
        elif line.startswith('NOTE '):
            if line[5:] not in notes:
                notes.append(line[5:])


def failure(rc, out, err):
    """Extracts the failing case from the output of a harness process, or None."""
    m = re.search(r'^FAIL index=(\d+) case=(.*)$', out, re.M)
    w = re.search(r'^WHAT (.*)$', out, re.M)
    if m:
        return int(m.group(1)), m.group(2), (w.group(1) if w else '?')
    m = re.search(r'^CRASH index=(\d+) case=(.*)$', out, re.M)
    if m:
        s = re.search(r'(SUMMARY: .*|runtime error: .*)', err)
        t = re.search(r'runtime error: .*', err)
        return int(m.group(1)), m.group(2), 'crash: ' + ((t or s).group(0) if (t or s) else 'exit status %s' % rc)
    m = re.search(r'^HANG index=(\d+) case=(.*)$', out, re.M)
    if m:
        return int(m.group(1)), m.group(2), 'no progress for a long time (hang)'
    if rc == 78 or 'LeakSanitizer: detected memory leaks' in err:
        s = re.search(r'SUMMARY: .*', err)
        return -1, 'end of run', 'memory leak: ' + (s.group(0) if s else '')
    return None


def write_replay(prop, data):
    d = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, os.getpid()))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1)
    return path


def run_enum(prop, check, tier, seed):
    binary = build(check)
    known = known_findings(prop)
    budget = float(check.get('limit', {}).get(tier, 600 if tier == 'quick' else 3 * 3600))
    work = tempfile.mkdtemp(prefix='work-', dir=BUILD)
    shards = check.get('shards', JOBS)
    stats, samples, notes = Stats(), [], []
    try:
        base = list(check.get('args', [])) + ['--tier', tier, '--seed', str(seed)]
        for pat, _ in known:
            base += ['--known', pat]

        def one(i):
            w = os.path.join(work, 's%d' % i)
            os.makedirs(w, exist_ok=True)
            return spawn(binary, base + ['--shard', '%d/%d' % (i, shards)], check, w, budget)

        with ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(one, range(shards)))
        knownSeen = set()
        found = None
        for i, (rc, out, err) in enumerate(results):
            parse(out, stats, samples, notes)
            for m in re.finditer(r'^KNOWN (\d+)$', out, re.M):
                knownSeen.add(int(m.group(1)))
            f = failure(rc, out, err)
            if f and found is None:
                found = (i, rc, f, out, err)
            elif rc == 0:
                continue
            elif found is None:
                if rc is None:
                    raise CheckError('shard %d did not end within %.0f s' % (i, budget))
                raise CheckError('shard %d ended with status %s\n%s\n%s' % (i, rc, out[-1500:], err[-3000:]))
        if found:
            i, rc, (index, case, what), out, err = found
            # replay before report: the single case first, then (when it depends on earlier calls) the whole shard
            mode = None
            w = os.path.join(work, 'replay')
            os.makedirs(w, exist_ok=True)
            if index >= 0:
                rc2, o2, e2 = spawn(binary, base + ['--index', str(index)], check, w, 300)
                f2 = failure(rc2, o2, e2)
                if rc2 is None or (f2 and f2[1] == case):
                    mode = ['--index', str(index)]
                    if f2:
                        what = f2[2]
                        err = e2
            if mode is None:
                rc2, o2, e2 = spawn(binary, base + ['--shard', '%d/%d' % (i, shards)], check, w, budget)
                f2 = failure(rc2, o2, e2)
                if f2 and f2[1] == case:
                    mode = ['--shard', '%d/%d' % (i, shards)]
            if mode is None:
                raise CheckError('a reported failure could not be reproduced: %s: %s' % (case, what))
            replay = write_replay(prop, {'property': prop, 'check': check['name'], 'args': base + mode, 'case': case, 'what': what, 'details': err[-6000:]})
            print('%s: %s' % (case, what))
            if err.strip():
                print(err[-2500:])
            return 1, stats, samples, notes, [(what, case, replay)], knownSeen
        return 0, stats, samples, notes, [], knownSeen
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_sched(prop, check, tier, seed):
    binary = build(check)
    work = tempfile.mkdtemp(prefix='work-', dir=BUILD)
    stats, samples, notes = Stats(), [], []
    try:
        args = list(check.get('args', [])) + ['--jobs', str(JOBS)]
        if tier == 'thorough':
            args += ['--thorough']
        limit = float(check.get('limit', {}).get(tier, 600 if tier == 'quick' else 3 * 3600))
        args += ['--limit', str(limit)]
        rc, out, err = spawn(binary, args, check, work, limit + 200)
        sys.stdout.write(out)
        if rc is None:
            raise CheckError('the explorer did not end')
        capped = []
        for m in re.finditer(r'^SCENARIO (\S+) bound=(-?\d+) (.*)$', out, re.M):
            kv = dict(x.split('=') for x in m.group(3).split())
            stats.add('scenarios', 1)
            for k in ('states', 'transitions', 'executions', 'completed', 'outcomes'):
                stats.add({'executions': 'schedules', 'completed': 'schedules_run_to_end', 'outcomes': 'distinct_outcomes'}.get(k, k), int(kv[k]))
            stats.add('max_depth', int(kv['depth']))
            if kv['capped'] == '1':
                capped.append(m.group(1))
            samples.append('%s: preemption bound %s, %s states, %s schedules, %s distinct outcomes%s' % (
                m.group(1), 'none (all interleavings)' if m.group(2) == '-1' else m.group(2), kv['states'], kv['executions'], kv['outcomes'], ', CAPPED' if kv['capped'] == '1' else ''))
        if capped:
            notes.append('not completed within the time or table limit: ' + ', '.join(capped))
            stats['capped_scenarios'] = len(capped)
        # one count per name: executions that ran to their end on the real code with every assertion evaluated
        stats['traces_validated_against_impl'] = stats.pop('schedules_run_to_end', 0)
        f = re.search(r'^FAIL (scenario=.*)$', out, re.M)
        if rc == 1 and f:
            what = re.search(r'^WHAT (.*)$', out, re.M).group(1)
            replay = write_replay(prop, {'property': prop, 'check': check['name'], 'schedule': f.group(1), 'what': what})
            return 1, stats, samples, notes, [(what, f.group(1)[:80], replay)], set()
        if rc != 0:
            raise CheckError('explorer failed with status %s\n%s\n%s' % (rc, out[-1500:], err[-3000:]))
        return 0, stats, samples, notes, [], set()
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, checks, tier, seed, stats, samples, notes, violations, wall):
    c0 = checks[0]
    cov = dict(stats)
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        cov.setdefault(k, 0)
    if c0['level'] == 'fault_enumeration':
        cov['evaluations'] = cov.pop('transitions')
        cov['distinct_nontrivial'] = cov.pop('states')
        cov['rule'] = c0['rule']
        cov.pop('traces_validated_against_impl', None)
    step = max(1, len(samples) // 12)
    cov['samples'] = samples[::step][:14] or ['(the run ended before a sample was taken)']
    cov['exhaustive'] = not stats.get('capped_scenarios') and not violations
    cov['bounds'] = ' '.join(c.get('bounds', '') for c in checks).strip()
    if notes:
        cov['notes'] = notes
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': c0['level'], 'coverage': cov,
         'assumptions': sum((c.get('assumptions', []) for c in checks), []), 'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1)


def main():
    from checks import CHECKS, by_name
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'setup':
        seen = set()
        for p in CHECKS:
            for c in CHECKS[p]:
                if c['name'] not in seen:
                    seen.add(c['name'])
                    build(c)
        print('built %d harnesses' % len(seen))
        return 0
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        c = by_name(d['check'])
        binary = build(c)
        work = tempfile.mkdtemp(prefix='work-', dir=BUILD)
        try:
            if 'schedule' in d:
                with open(os.path.join(work, 'schedule'), 'w') as f:
                    f.write(d['schedule'])
                args = list(c.get('args', [])) + ['--thorough', '--replay', os.path.join(work, 'schedule')]
            else:
                args = d['args']
            rc, out, err = spawn(binary, args, c, work, 900)
            print(out[-4000:])
            print(err[-8000:])
            return 1 if rc != 0 else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    prop = sys.argv[2]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    stats, samples, notes, violations, seen = Stats(), [], [], [], set()
    try:
        for c in CHECKS[prop]:
            rc, st, sa, no, vi, ks = (run_sched if c['kind'] == 'sched' else run_enum)(prop, c, tier, seed)
            for k, v in st.items():
                stats.add(k, v)
            samples += sa
            notes += no
            violations += vi
            seen |= ks
            if violations:
                break
    except CheckError as e:
        print('ERROR %s: %s' % (prop, e))
        return 2
    evidence(prop, CHECKS[prop], tier, seed, stats, samples, notes, violations, time.time() - start)
    for i, (pat, text) in enumerate(known_findings(prop)):
        if i in seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    for what, case, replay in violations:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        print('  %s: %s' % (case, what))
    if not violations:
        print('OK %s (%s): %s, %.1f s' % (prop, tier, ' '.join('%s=%d' % kv for kv in sorted(stats.items())), time.time() - start))
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())

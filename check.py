#!/usr/bin/env python3
"""Decides one property: builds the IR of /repo's current tree together with the harness, explores
it symbolically (engine/), replays every counterexample natively (replay/) and writes the evidence.
  check.py PROPERTY [--tier quick|thorough] [--keep]
exit 0: held on everything explored; 1: VIOLATION; 2: the machinery failed."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from jobs import JOBS, BOUNDS  # noqa: E402

REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)
STUBS = re.compile(r'(4core4hash3sip.*Hasher(5write|9write_str|6finish)|4core9panicking|3std9panicking(11begin_panic|15panic_with_hook|10rust_panic))')


class Failure(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise Failure('%s failed (%d):\n%s' % (' '.join(cmd)[:200], p.returncode, p.stdout[-3000:]))
    return p.stdout


def llvm_bin():
    sysroot = run(['rustc', '--print', 'sysroot'], env=ENV).strip()
    return glob.glob(sysroot + '/lib/rustlib/*/bin')[0]


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (REPO + '/src', ROOT + '/harness/src'):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    files += [REPO + '/Cargo.toml', REPO + '/Cargo.lock', ROOT + '/harness/Cargo.toml', ROOT + '/harness/Cargo.lock']
    if os.path.exists(REPO + '/build.rs'):
        files.append(REPO + '/build.rs')
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
    return h.hexdigest()


def build_engine():
    run(['cargo', 'build', '--release', '--offline'], cwd=ROOT + '/engine', env=dict(ENV, CARGO_TARGET_DIR=BUILD + '/engine'))
    return BUILD + '/engine/release/symex'


def fresh(target, want):
    """cargo decides by time stamps; make it decide by content"""
    stamp = target + '/tree'
    if os.path.exists(target) and (not os.path.exists(stamp) or open(stamp).read() != want):
        for d in glob.glob(target + '/debug/.fingerprint/*'):
            if re.match(r'(rphtml|harness|replay)-', os.path.basename(d)):
                subprocess.run(['rm', '-rf', d])
    os.makedirs(target, exist_ok=True)
    open(stamp, 'w').write(want)


def strip_stubs(src, dst):
    """the bodies of the functions that the engine implements itself become declarations"""
    out, skip = [], False
    for line in open(src):
        if skip:
            if line.startswith('}'):
                skip = False
            continue
        if line.startswith('define'):
            m = re.search(r'@"?([^"(]+)"?\(', line)
            if m and STUBS.search(m.group(1)):
                l = line.rstrip().rstrip('{').replace('define internal', 'declare').replace('define', 'declare')
                l = re.sub(r' %[\w.]+(?=[,)])', '', l)
                l = re.sub(r' personality .*$', '', l)
                l = re.sub(r' ![\w.]+ !\d+', '', l)
                out.append(l + '\n')
                skip = True
                continue
        out.append(line)
    open(dst, 'w').writelines(out)


def build_ir(names, want, tag):
    lock = open(BUILD + '/ir.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    target = BUILD + '/harness'
    fresh(target, want)
    run(['cargo', 'rustc', '--lib', '--offline', '--', '--emit=llvm-bc'], cwd=ROOT + '/harness', env=dict(ENV, CARGO_TARGET_DIR=target))
    bcs = glob.glob(target + '/debug/deps/harness*.bc')
    if not bcs:
        raise Failure('no bitcode')
    bc = max(bcs, key=os.path.getmtime)
    L = llvm_bin()
    w = BUILD + '/ir-' + tag
    api = '-internalize-public-api-list=' + ','.join(sorted(names))
    run([L + '/opt', '-passes=internalize,globaldce', api, bc, '-o', w + '-a.bc'])
    fcntl.flock(lock, fcntl.LOCK_UN)
    run([L + '/llvm-dis', w + '-a.bc', '-o', w + '-a.ll'])
    strip_stubs(w + '-a.ll', w + '-b.ll')
    run([L + '/opt', '-S', '-passes=internalize,globaldce,default<O2>,globaldce', api, '-vectorize-loops=false',
         '-vectorize-slp=false', w + '-b.ll', '-o', w + '.ll'])
    for x in ('-a.bc', '-a.ll', '-b.ll'):
        os.unlink(w + x)
    return w + '.ll'


def build_replay(want):
    lock = open(BUILD + '/replay.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    target = BUILD + '/replay'
    fresh(target, want)
    run(['cargo', 'build', '--offline'], cwd=ROOT + '/replay', env=dict(ENV, CARGO_TARGET_DIR=target))
    return target + '/debug/replay'


def case_line(v):
    return '%s %d %s\n' % (v['fn'], v['param'], ','.join('%d=%d' % tuple(x) for x in v['values']))


def native(binary, path, skip=0, timeout=30):
    """one line per case"""
    try:
        p = subprocess.run([binary, path, str(skip)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return ['TIMEOUT']
    lines = p.stdout.splitlines()
    if p.returncode != 0:
        lines.append('PANIC process ended with %d' % p.returncode)
    return lines


def text_of(v):
    """the symbolic characters of a case, for people"""
    return ''.join(chr(x) if x < 0x110000 and not 0xd800 <= x < 0xe000 else '\ufffd' for i, x in v['values'] if i < 100)


def known_findings(pid):
    out = []
    p = ROOT + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                e = json.loads(l)
                if e.get('property') == pid and e.get('status') == 'known':
                    out.append(e)
    return out


def demangle(names):
    try:
        o = subprocess.run(['rustfilt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        if o.returncode == 0:
            return o.stdout.splitlines()
    except OSError:
        pass
    out = []
    for n in names:
        m = re.match(r'_ZN(.*)17h[0-9a-f]{16}E$', n)
        if m:
            s, parts = m.group(1), []
            while s and s[0].isdigit():
                k = re.match(r'\d+', s).group(0)
                parts.append(s[len(k):len(k) + int(k)])
                s = s[len(k) + int(k):]
            n = '::'.join(parts)
        out.append(n)
    return out


def cross_check(queries, limit):
    """decide a sample of the discharged queries with other solvers"""
    res = {'cvc5': [0, 0], 'z3-new': [0, 0]}
    if not queries:
        return res
    step = max(1, len(queries) // limit)
    for q, sat in queries[::step][:limit]:
        want = 'sat' if sat else 'unsat'
        for name, cmd in (('cvc5', ['cvc5', '--lang=smt2', '-q']), ('z3-new', ['z3-new', '-in'])):
            try:
                p = subprocess.run(cmd, input=q, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
                got = p.stdout.split()
                got = got[0] if got else '?'
            except (OSError, subprocess.TimeoutExpired):
                got = '?'
            if got in ('sat', 'unsat'):
                res[name][0] += 1
                if got != want:
                    res[name][1] += 1
    return res


def main():
    t0 = time.time()
    pid = sys.argv[1]
    if pid == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        build_ir({'h_init'}, tree_hash(), 'setup')
        build_replay(tree_hash())
        os.unlink(BUILD + '/ir-setup.ll')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid not in JOBS:
        raise Failure('unknown property ' + pid)
    jobs = JOBS[pid][tier]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    names = {'h_init'} | {j.split(':')[0] for j in jobs} | {e['fn'] for e in known_findings(pid) if 'fn' in e}
    want = tree_hash()

    rb = {}

    def bg():
        try:
            rb['bin'] = build_replay(want)
        except Exception as e:  # noqa: BLE001
            rb['err'] = str(e)
    engine = build_engine()
    th = threading.Thread(target=bg)
    th.start()
    tag = '%s-%s' % (pid, tier)
    ir = build_ir(names, want, tag)
    t_build = time.time() - t0
    deadline = 240 if tier == 'quick' else 3000
    cmd = [engine, ir, '--init', 'h_init', '--threads', '8', '--deadline', str(deadline), '--steps', '30000000', '--max-viol', '40',
           '--samples', '6', '--dump-queries', '40' if tier == 'quick' else '400']
    for j in jobs:
        cmd += ['--job', j]
    for e in known_findings(pid):
        if 'job' in e:
            cmd += ['--job', e['job']]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    th.join()
    try:
        r = json.loads(p.stdout)
    except ValueError:
        raise Failure('the engine failed (%d): %s %s' % (p.returncode, p.stdout[-500:], p.stderr[-2000:]))
    if 'fatal' in r:
        raise Failure(r['fatal'])
    if 'bin' not in rb:
        raise Failure('replay build: ' + rb.get('err', '?'))
    replay = rb['bin']
    if '--keep' not in sys.argv:
        os.unlink(ir)

    # 1. counterexamples: each is run on the real code
    known = known_findings(pid)
    confirmed, unconfirmed, seen_known = [], [], set()
    beyond = 0
    rdir = ROOT + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob('%s/%s-*.case' % (rdir, pid)):
        os.unlink(old)
    for i, v in enumerate(r['violations']):
        path = '%s/%s-%d.case' % (rdir, pid, i)
        open(path, 'w').write(case_line(v))
        got = (native(replay, path, timeout=20) or [''])[0]
        ok = got.startswith('ASSERT') or got.startswith('PANIC') or got == 'TIMEOUT'
        k = next((e for e in known if e.get('fn') == v['fn']), None)
        if ok and k is not None:
            seen_known.add(k['id'])
            os.unlink(path)
        elif ok:
            confirmed.append((v, path, got))
        elif v['kind'] == 'limit' and got.startswith('END'):
            # it does end, beyond the bound on steps: a path that was not explored
            beyond += 1
            os.unlink(path)
        else:
            unconfirmed.append((v, path, got))
    # 2. sampled paths: the real code does what the symbolic execution says
    samples = r.get('samples', [])
    validated, mismatches = 0, []
    if samples:
        step = max(1, len(samples) // 400)
        off = seed % step
        picked = samples[off::step]
        path = '%s/%s-samples.case' % (rdir, pid)
        open(path, 'w').writelines(case_line(s) for s in picked)
        done = 0
        while done < len(picked):
            lines = native(replay, path, done, timeout=120)
            if not lines:
                break
            for l in lines:
                s = picked[done] if done < len(picked) else None
                if s is None:
                    break
                expect = ('END ' + ' '.join(map(str, s['out']))).strip()
                if l.strip() == expect:
                    validated += 1
                else:
                    mismatches.append({'case': case_line(s).strip(), 'engine': expect, 'native': l})
                done += 1
        os.unlink(path)
    xs = cross_check(r.get('queries', []), 12 if tier == 'quick' else 300)
    disagree = sum(x[1] for x in xs.values())

    lost = r['unsupported']
    incomplete = lost > 0 or beyond > 0 or r['timed_out'] or r['left'] > 0 or any(j['incomplete'] for j in r['jobs'])
    own = [f for f in demangle(r['functions']) if 'rphtml' in f]
    paths = sum(j['paths'] for j in r['jobs'])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the LLVM IR that rustc emits for /repo (and its dependencies) '
                           'together with the harness; every branch and every assertion is decided by z3 for all values '
                           'of the symbolic inputs within the bounds.',
            'bounds': BOUNDS[pid],
            'jobs': [{k: j[k] for k in ('fn', 'lo', 'hi', 'paths', 'infeasible', 'allowed_panics', 'steps', 'max_path_steps', 'asserts')}
                     for j in r['jobs']],
            'paths': paths,
            'assertions_decided': sum(j['asserts'] for j in r['jobs']),
            'solver': r['solver'],
            'functions_encoded': len(r['functions']),
            'functions_of_the_crate_encoded': own,
            'covers': [{'fn': c[0], 'cover': c[1], 'paths': c[2]} for c in r['covers']],
            'exhaustive_within_bounds': not incomplete and not r['violations'],
            'paths_validated_natively': validated,
            'native_mismatches': mismatches[:5],
            'queries_cross_checked': {k: {'decided': v[0], 'disagreements': v[1]} for k, v in xs.items()},
            'samples': [{'fn': s['fn'], 'param': s['param'], 'values': s['values'], 'text': text_of(s), 'out': s['out'][:12]} for s in samples[:5]],
        },
        'assumptions': ['the SipHash of std::collections is replaced by a hash of the key length (the maps are only looked up)',
                        'allocation does not fail; integer overflow traps as in a debug build',
                        'inputs beyond the stated bounds are not covered'],
        'wall_s': round(time.time() - t0, 2),
        'build_s': round(t_build, 2),
        'explore_s': r['wall_s'],
        'violations': len(confirmed),
    }
    ev['not_explored'] = {'paths_beyond_the_engine': lost, 'reasons': r['errors'], 'jobs_with_paths_beyond_the_step_bound': beyond,
                          'deadline_reached': bool(r['timed_out'])}
    ev['counterexamples'] = [{'fn': v['fn'], 'param': v['param'], 'kind': v['kind'], 'code': v['code'], 'text': text_of(v), 'native': g, 'replay': p}
                             for v, p, g in confirmed]
    ev['known_findings_seen'] = sorted(seen_known)
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, pid), 'w'), indent=1)

    print('%s %s: %d paths, %d assertions, %d queries (%d to z3, %.1f s), %d sampled paths agree natively, build %.0f s, explore %.1f s%s' % (
        pid, tier, paths, ev['coverage']['assertions_decided'], r['solver']['queries'], r['solver']['z3_calls'], r['solver']['time_s'],
        validated, t_build, r['wall_s'], ' (incomplete)' if incomplete else ''))
    for e in known:
        if e['id'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    if confirmed:
        for v, path, got in confirmed[:10]:
            print('  %s:%d %s %s  text=%r  native: %s' % (v['fn'], v['param'], v['kind'], v['code'][:150], text_of(v), got[:200]))
        print('VIOLATION property=%s replay=%s' % (pid, confirmed[0][1]))
        print('  (replay: %s %s)' % (replay, confirmed[0][1]))
        return 1
    for e in r['errors']:
        print('engine error: ' + e[:600])
    # single paths that the engine cannot follow are left out (and listed); if most are, that is no answer
    if r['errors'] and (lost == 0 or lost * 2 > paths):
        return 2
    if unconfirmed:
        for v, path, got in unconfirmed[:5]:
            print('not reproduced: %s:%d %s %s text=%r native: %s' % (v['fn'], v['param'], v['kind'], v['code'], text_of(v), got))
        return 2
    if mismatches or disagree:
        print('disagreement: %s %s' % (mismatches[:3], xs))
        return 2
    per = {}
    for c in r['covers']:
        per.setdefault(c[0], set()).add(c[1])
    vac = [j['fn'] for j in r['jobs'] if not per.get(j['fn']) and not any(e.get('fn') == j['fn'] for e in known)]
    if vac and not r['timed_out'] and r['left'] == 0:
        print('vacuous: %s' % vac)
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Failure as e:
        print('check failed: %s' % e)
        sys.exit(2)

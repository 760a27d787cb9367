#!/usr/bin/env python3
"""Runs one check: python3 run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness of the property from /repo's current headers (clang,
AddressSanitizer and UndefinedBehaviorSanitizer), runs its generated cases, and
writes evidence/<ID>.json. Exit 0: held on everything explored; exit 1 with a
VIOLATION line: broken; exit 2: the check itself could not run.
"""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
REPLAYS = os.path.join(ROOT, 'replays')
CXX = 'clang++'
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr', '-fno-sanitize-recover=all']
BASE = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-w', '-ferror-limit=20']
PLAIN_CXX = 'g++'
PLAIN = ['-std=c++17', '-g1', '-O2', '-DNDEBUG', '-DVERIF_PLAIN', '-ftrivial-auto-var-init=pattern', '-w']
# max_malloc_fill_size: uninitialised memory reads as garbage, the same every time.
ENV = dict(ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:hard_rss_limit_mb=6000:'
                        'max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=1:quarantine_size_mb=16:print_stats=0:symbolize=1',
           TSAN_OPTIONS='halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:atexit_sleep_ms=0:abort_on_error=0',
           MALLOC_PERTURB_='90',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')


def sanitizers(conf):
    return ['-fsanitize=thread', '-pthread'] if conf.get('sanitize') == 'thread' else SAN


def checks():
    with open(os.path.join(ROOT, 'checks', 'checks.json')) as f:
        return json.load(f)


def findings():
    """The committed known findings: {property: {id: description}}."""
    known = {}
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            if line.startswith('known: '):
                head, _, what = line[len('known: '):].partition(' -- ')
                kv = dict(x.split('=', 1) for x in head.split())
                known.setdefault(kv['property'], {})[kv['id']] = what.strip()
    return known


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def content_key(files, flags):
    h = hashlib.sha256(' '.join(flags).encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as g:
            h.update(g.read())
    return h.hexdigest()[:24]


def tree(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


class CompileError(Exception):
    pass


def variants(conf):
    """The configurations of a check: the storage orders, with sanitizers, and (last,
    named plain) what users build: g++, optimised, without assertions, and the
    allocator of the system, which fills what it hands out."""
    return conf['variants'] + (['plain'] if conf.get('plain', True) else [])


def build(cid, conf, tier):
    """Returns {variant: binary}."""
    SAN = sanitizers(conf)
    # At -O0 the compiler is quick, which matters more in the short runs.
    BASE = globals()['BASE'] + SAN + ['-O0' if tier == 'quick' else '-O1']
    VARIANTS = variants(conf)

    def command(v):
        return ([PLAIN_CXX] + PLAIN) if v == 'plain' else ([CXX] + BASE)
    inc = ['-I' + REPO + '/include', '-I' + ROOT + '/engine']
    srcs = [os.path.join(ROOT, 'checks', p) for p in conf['sources']]
    shared = [os.path.join(ROOT, 'checks', p) for p in conf.get('library', [])]
    headers = tree(REPO + '/include') + tree(ROOT + '/engine') + [os.path.join(ROOT, 'checks', f) for f in sorted(os.listdir(ROOT + '/checks')) if f.endswith(('.hpp', '.snippets'))]
    key = content_key(headers + srcs + shared, BASE + PLAIN + [cid] + conf.get('flags', []) + VARIANTS)
    out = os.path.join(BUILD, cid + '-' + key)
    bins = {v: os.path.join(out, v) for v in VARIANTS}
    if all(os.path.exists(b) for b in bins.values()) and os.path.exists(out + '/complete'):
        return bins
    # Leftovers of other versions of this check.
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if d.startswith(cid + '-') and not tier.startswith('t'):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    jobs = []
    for v in VARIANTS:
        fl = inc + [f for f in conf.get('flags', []) if v != 'plain' or 'sanitize' not in f] + (['-DVERIF_COL_MAJOR'] if v == 'col' else [])
        for s in srcs:
            o = os.path.join(out, v + '_' + os.path.basename(s) + '.o')
            jobs.append((s, o, command(v) + fl + ['-c', s, '-o', o]))
    lib = None
    if shared:
        lib = os.path.join(out, 'other.so')
        for s in shared:
            o = os.path.join(out, 'lib_' + os.path.basename(s) + '.o')
            jobs.append((s, o, [CXX] + BASE + inc + conf.get('flags', []) + ['-DVERIF_COL_MAJOR', '-DVERIF_LIBRARY', '-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-c', s, '-o', o]))

    def run(j):
        return j, sh(j[2])
    with ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(run, jobs):
            if r.returncode != 0:
                shutil.rmtree(out, ignore_errors=True)
                raise CompileError(' '.join(j[2]) + '\n' + r.stdout)
    for v in VARIANTS:
        objs = [o for (_, o, _) in jobs if os.path.basename(o).startswith(v + '_')]
        r = sh(([PLAIN_CXX] if v == 'plain' else [CXX] + SAN) + conf.get('link', []) + objs + ['-o', bins[v], '-ldl'])
        if r.returncode != 0:
            shutil.rmtree(out, ignore_errors=True)
            raise CompileError('link\n' + r.stdout)
    if lib:
        objs = [o for (_, o, _) in jobs if os.path.basename(o).startswith('lib_')]
        r = sh([CXX] + SAN + ['-shared', '-Wl,-Bsymbolic'] + objs + ['-o', lib])
        if r.returncode != 0:
            shutil.rmtree(out, ignore_errors=True)
            raise CompileError('link\n' + r.stdout)
    for (_, o, _) in jobs:
        if os.path.exists(o):
            os.unlink(o)
    open(out + '/complete', 'w').close()
    return bins


def compiler_works():
    """Whether the library's headers compile on their own with this compiler."""
    src = '#include "malg_all.hpp"\nint main(){ malg::Matrix<double> m(2, 2, 1.0); return m(0, 0) == 1.0 ? 0 : 1; }\n'
    r = subprocess.run([CXX] + BASE + ['-I' + REPO + '/include', '-I' + ROOT + '/engine', '-x', 'c++', '-fsyntax-only', '-'],
                       input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def main():
    args = sys.argv[1:]
    cid = args.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    replay = only = None
    scale = 1.0
    while args:
        a = args.pop(0)
        if a == '--tier': tier = args.pop(0)
        elif a == '--seed': seed = int(args.pop(0))
        elif a == '--replay': replay = args.pop(0)
        elif a == '--only': only = args.pop(0)
        elif a == '--scale': scale = float(args.pop(0))
    if tier not in ('quick', 'thorough'): tier = 'quick'
    conf = checks()[cid]
    known = findings().get(cid, {})
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    env = dict(os.environ, VERIF_INCLUDE=os.path.join(os.path.abspath(REPO), 'include'), VERIF_CHECKS=os.path.join(ROOT, 'checks'), **ENV)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=conf['rule'], samples=[], nontrivial=0, discarded=0, labels={}, configurations={})
    ev = dict(property=cid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=conf.get('assumptions', []), wall_s=0.0, violations=0)

    def finish(code):
        ev['wall_s'] = round(time.time() - t0, 2)
        cov['known_findings_seen'] = sorted(seen)
        with open(os.path.join(ROOT, 'evidence', cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        sys.stdout.flush()
        sys.exit(code)

    def violation(path, what):
        ev['violations'] = 1
        print(what)
        print('VIOLATION property=%s replay=%s' % (cid, path))
        finish(1)

    seen = set()
    try:
        bins = build(cid, conf, tier)
    except CompileError as e:
        ok, log = compiler_works()
        if not ok:
            # Not even the headers compile: nothing can be said about the property.
            print('the headers do not compile:\n' + log[-4000:])
            sys.exit(2)
        path = os.path.join(REPLAYS, cid + '-compile.log')
        with open(path, 'w') as f:
            f.write(str(e))
        cov['samples'].append('the program of this check no longer compiles')
        violation(path, 'an operation that the property covers does not compile any more:\n' + str(e)[-3000:])
    if replay:
        rc = 0
        for v, b in bins.items():
            if ('.' + v + '.') in os.path.basename(replay) or len(bins) == 1 or '-' + v not in replay:
                rc = max(rc, subprocess.run([b, '--replay', replay], env=env).returncode)
        sys.exit(rc)
    workers = 8
    n = max(1, int(conf['cases'][tier] * scale))
    budget = conf.get('max_s', {}).get(tier, 600 if tier == 'quick' else 3000)
    for vi, (v, b) in enumerate(bins.items()):
        tmp = os.path.join(BUILD, 'run-%s-%s-%d' % (cid, v, os.getpid()))
        os.makedirs(tmp, exist_ok=True)
        out = os.path.join(tmp, 'out.json')
        path = os.path.join(REPLAYS, '%s-%s-%s-%d.replay' % (cid, v, tier, seed))
        if os.path.exists(path):
            os.unlink(path)
        cmd = [b, '--seed', str(seed + 104729 * vi), '--cases', str(n), '--workers', str(workers), '--max-s', str(budget), '--out', out, '--replay-out', path, '--tmp', tmp]
        if only: cmd += ['--only', only]
        e2 = dict(env, VERIF_TMP=tmp)
        r = sh(cmd, env=e2, cwd=tmp)
        if r.returncode == 4:
            # A failure that did not show again on its own: run it all once more.
            r2 = sh(cmd, env=e2, cwd=tmp)
            if r2.returncode == 4:
                with open(path, 'w') as f:
                    f.write('whole run: %s\n%s\n%s' % (' '.join(cmd), r.stdout, r2.stdout))
                shutil.rmtree(tmp, ignore_errors=True)
                violation(path, 'fails in every whole run (see the replay file):\n' + r2.stdout[-3000:])
            r = r2
        if r.returncode not in (0, 1):
            print('the harness ended with %d:\n%s' % (r.returncode, r.stdout[-6000:]))
            shutil.rmtree(tmp, ignore_errors=True)
            sys.exit(2)
        with open(out) as f:
            rep = json.load(f)
        shutil.rmtree(tmp, ignore_errors=True)
        cov['evaluations'] += rep['evaluations']
        cov['nontrivial'] += rep['nontrivial']
        cov['distinct_nontrivial'] += rep['distinct_nontrivial']
        cov['discarded'] += rep['discarded']
        cov['configurations'][v] = rep['evaluations']
        for k, c in rep['labels'].items():
            cov['labels'][k] = cov['labels'].get(k, 0) + c
        cov['samples'] += [dict(x, configuration=v) for x in rep['samples'][:16]]
        if r.returncode == 1:
            violation(path, r.stdout[-6000:])
        for k in rep['known']:
            if k not in known:
                with open(path, 'w') as f:
                    f.write('finding %s is not listed in KNOWN_FINDINGS.txt\n' % k)
                violation(path, 'finding %s is not listed' % k)
            seen.add(k)
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s: %s' % (cid, k, known[k]))
    print('%s: held on %d cases (%d distinct and non-trivial), %.1f s' % (cid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    finish(0)


main()

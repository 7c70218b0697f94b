#!/usr/bin/env python3
"""Runs the check of one property:  check.py PID [--tier quick|thorough] [--repo DIR]

1. build the extractor (clang plugin) if needed, extract every function of the code under test from the compiler's AST
2. generate and discharge the property's obligations (altrovc/specs/<pid>.py)
3. an obligation that fails is reported as the violation; the executable contract harness (harness/<pid>.cpp) is
   compiled against the real code and searched for a failing input to put into the replay
4. functions the verifier could not bring within reach are covered by the same harness as a bounded stand-in
"""
import sys, os, subprocess, json, time, hashlib, tempfile, glob, shutil, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and os.path.exists(VT) \
        and not os.environ.get('ALTROVC_VT'):
    os.environ['ALTROVC_VT'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def build_exporter():
    src = os.path.join(HERE, 'exporter', 'exporter.cpp')
    bdir = os.path.join(HERE, 'build')
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, f'exporter-{fhash(src)}.so')
    if not os.path.exists(out):
        tmp = out + f'.{os.getpid()}'
        r = sh(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-fPIC', '-shared', '-I/usr/lib/llvm-18/include', src, '-o', tmp])
        if r.returncode:
            raise SystemExit('exporter does not build:\n' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


CXXFLAGS = ['-std=c++14', '-DFMT_DEPRECATED_OSTREAM']


def extract(repo, work):
    so = build_exporter()
    out = os.path.join(work, 'ast.json')
    r = sh(['clang++', *CXXFLAGS, '-ferror-limit=0', '-w', '-I' + repo, '-fsyntax-only', '-fplugin=' + so,
            '-Xclang', '-plugin-arg-altrovc', '-Xclang', 'prefix=' + repo + '/',
            '-Xclang', '-plugin-arg-altrovc', '-Xclang', 'out=' + out, os.path.join(HERE, 'altrovc', 'driver.cpp')])
    if not os.path.exists(out):
        return None, r.stdout
    return out, r.stdout


def repo_sources(repo):
    s = [p for p in glob.glob(os.path.join(repo, 'altro', '**', '*.cpp'), recursive=True)
         if os.path.basename(p) != 'main.cpp']
    s += [p for p in glob.glob(os.path.join(repo, 'examples', '*.cpp'))]
    return sorted(s)


def build_harness(repo, pid, work, extra=()):
    """compile the code under test and the harness; returns (binary or None, log)"""
    src = os.path.join(HERE, 'harness', pid.lower() + '.cpp')
    if not os.path.exists(src):
        return None, 'no harness'
    flags = [*CXXFLAGS, '-O1', '-DFMT_HEADER_ONLY', '-w', '-I' + repo, '-I' + os.path.join(HERE, 'harness'), *extra]
    objs, jobs = [], []
    for i, p in enumerate(repo_sources(repo) + [src]):
        o = os.path.join(work, f'o{i}.o')
        objs.append(o)
        jobs.append(['g++', *flags, '-c', p, '-o', o])
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(sh, jobs))
    bad = [r.stdout for r in rs if r.returncode]
    if bad:
        return None, bad[0][-3000:]
    out = os.path.join(work, 'harness')
    r = sh(['g++', *extra, *objs, '-o', out, '-lpthread'])
    if r.returncode:
        return None, r.stdout[-3000:]
    return out, ''


def run_harness(binary, seed, tier, work, timeout):
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier)
    try:
        r = subprocess.run([binary], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env,
                           timeout=timeout, cwd=work)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b''
        if isinstance(out, bytes):
            out = out.decode(errors='replace')
        return 'timeout', out


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=' + pid + ' '):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    t0 = time.time()
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        build_exporter()
        print('exporter built')
        return 0
    pid = args[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    repo = '/repo'
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--repo' in args:
        repo = args[args.index('--repo') + 1]
    keep = '--keep' in args
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='altrovc-')
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    try:
        return check(pid, tier, repo, seed, work, rdir, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, repo, seed, work, rdir, t0):
    import importlib
    ast, log = extract(repo, work)
    failed, unsupported, job = [], [], None
    mod = importlib.import_module('altrovc.specs.' + pid.lower())
    if ast is None:
        unsupported = [('extraction', log[-1500:])]
    else:
        from altrovc.vc import Job
        from altrovc.core import Program, Unsupported
        job = Job(pid, Program(ast))
        job.tier = tier
        try:
            mod.run(job)
        except Unsupported as u:
            job.unsupported.append(('(specification)', str(u)))
        except Exception as e:     # the generator met something it does not know: not a verdict
            job.unsupported.append(('(generator)', ''.join(traceback.format_exception(e))[-1800:]))
        failed = [(n, job.obs[n]['detail']) for n in job.failed()]
        unsupported = job.unsupported
    known = known_findings(pid)
    knownhit = [k for k in known]
    bounded = list(getattr(mod, 'BOUNDED', []))
    hres, hout, hcode, hlog = None, '', 0, ''
    need = bool(failed or unsupported or bounded or tier == 'thorough')
    if need:
        extra = list(getattr(mod, 'HARNESS_FLAGS', []))
        binary, hlog = build_harness(repo, pid, work, extra)
        if extra and (not binary or subprocess.run([binary, 'probe'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0):
            binary, hlog = build_harness(repo, pid, work)     # the sanitizer does not work here
        if binary:
            hcode, hout = run_harness(binary, seed, tier, work, 240 if tier == 'quick' else 700)
            if hcode != 0 and tier == 'quick' and hcode == 'timeout' and not failed:
                pass
    fails = [l for l in hout.splitlines() if l.startswith('FAIL')]
    crashed = need and hcode not in (0, 1, 'timeout')
    hung = need and hcode == 'timeout'
    stats = [l for l in hout.splitlines() if l.startswith('STATS')]
    evals = 0
    if stats:
        try:
            evals = int(dict(kv.split('=') for kv in stats[-1].split()[1:]).get('evaluations', 0))
        except Exception:
            pass
    found = bool(fails) or crashed or hung
    violation = bool(failed) or found
    nobs = len(job.obs) if job else 0
    replay = os.path.join(rdir, f'{pid}.txt')
    if violation:
        with open(replay, 'w') as f:
            f.write(f'property {pid}\nrepo {repo}\nseed {seed} tier {tier}\n')
            for n, d in failed:
                f.write(f'\n== failed obligation: {n}\n{d}\n')
            for n, d in unsupported:
                f.write(f'\n== not decided by the verifier: {n}: {d}\n')
            if need:
                f.write(f'\n== executable contract harness (harness/{pid.lower()}.cpp, seed {seed}): exit {hcode}\n')
                f.write('\n'.join(fails) + '\n' + hout[-3000:] + '\n' + hlog[-2000:] + '\n')
            f.write(f'\nto replay: cd /verif && VERIF_SEED={seed} python3 check.py {pid} --tier {tier}\n')
    from altrovc.trust import COMMON_TRUST
    cov = {
        'obligations': nobs,
        'discharged': nobs - len(failed),
        'checker_cmd': f'python3 check.py {pid} --tier {tier}',
        'trusted_base': COMMON_TRUST + sorted(job.trusted if job else []) + list(getattr(mod, 'TRUST', [])),
        'functions_under_contract': {k: v for k, v in (job.functions if job else {}).items() if not k.startswith('(inlined)')},
        'functions_inlined': {k[10:]: v for k, v in (job.functions if job else {}).items() if k.startswith('(inlined)')},
        'obligation_list': {n: {'status': o['status'], 'path_instances': o['n'], 'backends': o['backend']} for n, o in
                            (job.obs.items() if job else [])},
        'backends': job.backends if job else {},
        'solver_time_s': round(job.solver_time, 2) if job else 0,
        'solver_checks': job.checks if job else 0,
        'paths': job.paths if job else 0,
        'not_decided_deductively': [f'{a}: {b}' for a, b in unsupported],
        'bounded_standins': bounded + ([f'{a} (verifier could not decide it on this tree)' for a, _ in unsupported]),
        'bounded_evaluations': evals,
    }
    if need:
        cov['harness'] = {'exit': str(hcode), 'stats': stats[-1:] , 'failures': fails[:5]}
    level = 'proof' if (nobs and not unsupported and job) else 'other'
    if level == 'other':
        cov['explanation'] = 'The verifier could not decide every function on this tree; the bounded harness stood in for the ones listed.'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUME', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': len(failed) + len(fails) + (1 if crashed or hung else 0)}
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {nobs} obligations, {len(failed)} failed, {len(unsupported)} undecided, harness '
          f'{"exit " + str(hcode) if need else "not needed"}, {time.time() - t0:.1f}s')
    for a, b in unsupported:
        print(f'  undecided: {a}: {b.splitlines()[-1] if b else ""}')
    for n, _ in failed[:10]:
        print('  failed:', n)
    for k in knownhit:
        print(f'KNOWN-FINDING: property={pid} {k}')
    if violation:
        for l in fails[:5]:
            print('  ' + l)
        tail = '' if found else ' no-failing-input-found'
        print(f'VIOLATION property={pid} replay={replay}{tail}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Driver of all checks:  run.py <ID> [quick|thorough]   |   run.py --replay FILE

Builds the library of /repo's current working tree (own build, own flags), links
it with checks/<ID>.cc and the explorer core, runs the exhaustive exploration,
replays every violation before reporting it, and writes evidence/<ID>.json.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'g++'
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
BASE = ['-g1', '-O1', '-w', '-std=gnu++17']
sys.path.insert(0, VERIF)
from checks.registry import CHECKS   # noqa: E402


def log(*a):
    print(*a, flush=True)


def makefile_lists():
    t = open(REPO + '/src/Makefile.inc').read().replace('\\\n', ' ')
    v = {}
    for l in t.splitlines():
        m = re.match(r'\s*(\w+)\s*\+?=\s*(.*)', l)
        if m:
            v.setdefault(m[1], []).extend(m[2].split())
    return v


def repo_sources(groups):
    v = makefile_lists()
    s = list(v['basic_SOURCES']) + list(v['rand64_SOURCES'])
    if 'fftw' in groups:
        s += v['fftw_SOURCES']
    if 'arpack' in groups:
        s += v['arpack_cpp_SOURCES'] + [x for x in v['arpack_SOURCES']]
    if 'linalg' not in groups:
        s = [x for x in s if not x.startswith('linalg/')]
    out = []
    for x in s:
        if x not in out and os.path.exists(f'{REPO}/src/{x}'):
            out.append(x)
    return out


def tree_hash(extra):
    h = hashlib.sha256()
    for d in ('include', 'src'):
        for root, dirs, files in sorted(os.walk(f'{REPO}/{d}')):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.o', '.lo', '.la', '.a')):
                    continue
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


INC = lambda: [f'-I{REPO}', f'-I{REPO}/include', f'-I{VERIF}/harness/config', f'-I{VERIF}/harness']


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(' '.join(cmd) + '\n' + r.stdout[-4000:])


def build_lib(spec):
    groups = spec.get('lib', [])
    flags = BASE + (ASAN if spec.get('asan', True) else []) + spec.get('libflags', [])
    key = tree_hash([groups, flags])
    d = f'{VERIF}/build/lib-{key}'
    lib = d + '/libt.a'
    if os.path.exists(lib):
        return lib
    tmp = f'{VERIF}/build/tmp-{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    objs, jobs = [], []
    for x in repo_sources(groups):
        o = f'{tmp}/{x.replace("/", "__")}.o'
        objs.append(o)
        if x.endswith('.f'):
            jobs.append(['gfortran', '-O1', '-g1', '-fallow-argument-mismatch', '-w',
                         f'-I{REPO}/src/arpack-ng', '-c', '-o', o, f'{REPO}/src/{x}'])
        else:
            jobs.append([CXX] + flags + INC() + ['-c', '-o', o, f'{REPO}/src/{x}'])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    run(['ar', 'rcs', tmp + '/libt.a'] + objs)
    for o in objs:
        os.unlink(o)
    shutil.rmtree(d, ignore_errors=True)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return lib


def build_check(cid, spec, lib):
    d = f'{VERIF}/build/bin'
    os.makedirs(d, exist_ok=True)
    out = f'{d}/{cid}-{os.getpid()}'
    flags = BASE + (ASAN if spec.get('asan', True) else []) + spec.get('flags', [])
    srcs = [f'{VERIF}/checks/{s}' for s in spec.get('sources', [cid + '.cc'])] + [f'{VERIF}/harness/mc.cc']
    objs = []

    def comp(s):
        o = f'{out}.{os.path.basename(s)}.o'
        run([CXX] + flags + INC() + ['-c', '-o', o, s])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, srcs))
    libs = ['-lopenblas', '-lfftw3', '-lgfortran', '-lm', '-lpthread']
    run([CXX] + flags + ['-Wl,--wrap=exit'] + spec.get('ldflags', []) + ['-o', out] + objs + [lib] + libs)
    for o in objs:
        os.unlink(o)
    return out


def known_findings(cid):
    out = []
    p = f'{VERIF}/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l:
                continue
            k = json.loads(l)
            if k.get('property') == cid and k.get('status') == 'known':
                out.append(k)
    return out


def matches(k, v):
    return re.fullmatch(k['case'], v['desc'], re.S) is not None and \
        (('message' not in k) or re.search(k['message'], v['msg'], re.S) is not None)


def prune():
    b = f'{VERIF}/build'
    if not os.path.isdir(b):
        return
    libs = sorted([x for x in os.listdir(b) if x.startswith('lib-')], key=lambda x: os.path.getmtime(f'{b}/{x}'))
    for x in libs[:-10]:
        shutil.rmtree(f'{b}/{x}', ignore_errors=True)


def main():
    t0 = time.time()
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        cid, tier = rp['property'], rp['tier']
    else:
        rp = None
        cid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    spec = CHECKS[cid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    env.pop('RANDSEED', None)
    scratch = tempfile.mkdtemp(prefix=f'verif-{cid}-')
    env['MC_SCRATCH'] = scratch
    env['MC_VERIF'] = VERIF
    exe = None
    try:
        prune()
        lib = build_lib(spec)
        exe = build_check(cid, spec, lib)
        tb = time.time() - t0
        os.makedirs(scratch + '/out')
        if rp:
            r = subprocess.run([exe, '--out', scratch + '/out', '--tier', tier, '--replay', str(rp['case']), '--seed', str(seed)], env=env)
            p = scratch + '/out/replay.jsonl'
            if os.path.exists(p):
                sys.stdout.write(open(p).read())
            log('reproduced' if r.returncode == 1 else 'not reproduced')
            return r.returncode
        budget = spec.get('budget', {}).get(tier, 780 - tb if tier == 'quick' else 14400)
        r = subprocess.run([exe, '--out', scratch + '/out', '--tier', tier, '--budget', str(budget),
                            '--shards', str(spec.get('shards', 8)), '--seed', str(seed),
                            '--hang', str(spec.get('hang', 120))], env=env)
        if r.returncode not in (0, 1):
            log(f'check {cid}: explorer failed with status {r.returncode}')
            return 2
        S = json.load(open(scratch + '/out/summary.json'))
        viol, samples, herr = [], [], []
        for s in range(64):
            p = f'{scratch}/out/v.{s}'
            if not os.path.exists(p):
                continue
            for l in open(p):
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                {'violation': viol, 'sample': samples, 'harness-error': herr}.get(e['kind'], []).append(e)
        if herr:
            log(f'check {cid}: harness error: {herr[0]["msg"]}')
            return 2
        viol.sort(key=lambda e: e['case'])
        kn = known_findings(cid)
        known_hit, fresh = {}, []
        for v in viol:
            for i, k in enumerate(kn):
                if matches(k, v):
                    known_hit.setdefault(i, []).append(v)
                    break
            else:
                fresh.append(v)
        # replay before report
        confirmed, unconfirmed = [], []
        os.makedirs(f'{VERIF}/replays', exist_ok=True)
        # those that end soon first; what hangs is killed after a while
        for v in sorted(fresh, key=lambda v: 'process died: hang' in v['msg']):
            if len(confirmed) >= 10 or (time.time() - t0 > 400 and confirmed) or time.time() - t0 > 830:
                break
            po = scratch + '/rp'
            shutil.rmtree(po, ignore_errors=True)
            os.makedirs(po)
            q = subprocess.run([exe, '--out', po, '--tier', tier, '--replay', str(v['case']), '--seed', str(seed),
                                '--hang', str(spec.get('hang', 120))], env=env, stdout=subprocess.PIPE)
            (confirmed if q.returncode == 1 else unconfirmed).append(v)
        if unconfirmed and not confirmed and time.time() - t0 < 700:
            # The failure may need the cases before it (state kept inside the
            # library): run the whole exploration again; what fails there as well
            # is confirmed.
            po = scratch + '/rp2'
            os.makedirs(po)
            subprocess.run([exe, '--out', po, '--tier', tier, '--budget', str(max(60, 850 - (time.time() - t0))),
                            '--shards', str(spec.get('shards', 8)), '--seed', str(seed),
                            '--hang', str(spec.get('hang', 120))], env=env)
            again = set()
            for s in range(64):
                if os.path.exists(f'{po}/v.{s}'):
                    for l in open(f'{po}/v.{s}'):
                        try:
                            e = json.loads(l)
                        except ValueError:
                            continue
                        if e['kind'] == 'violation':
                            again.add((e['case'], e['desc']))
            for v in unconfirmed:
                if (v['case'], v['desc']) in again:
                    v['msg'] += ' [only after the preceding cases of the exploration]'
                    confirmed.append(v)
            unconfirmed = [v for v in unconfirmed if v not in confirmed]
        for i, vs in known_hit.items():
            log(f'KNOWN-FINDING: property={cid} {kn[i]["what"]} ({len(vs)} explored cases, e.g. {vs[0]["desc"]})')
        for i, k in enumerate(kn):
            if i not in known_hit:
                log(f'note: known finding not met in this run: {k["what"]}')
        for n, v in enumerate(confirmed):
            p = f'{VERIF}/replays/{cid}-{v["case"]}.json'
            json.dump(dict(property=cid, tier=tier, case=v['case'], desc=v['desc'], msg=v['msg']), open(p, 'w'), indent=1)
            log(f'VIOLATION property={cid} replay={p}')
            log(f'  case {v["case"]}: {v["desc"]}\n  {v["msg"]}')
        for v in unconfirmed[:5]:
            log(f'note: not reproduced on replay, not reported: {v["desc"]}: {v["msg"]}')
        samples.sort(key=lambda e: e['case'])
        step = max(1, len(samples) // 8)
        smp = [e['desc'] for e in samples[::step]][:10]
        cov = {}
        lvl = spec['level']
        if lvl == 'model_checking':
            cov.update(states=S['states'], transitions=S['transitions'],
                       traces_validated_against_impl=S['traces'])
        else:
            cov.update(evaluations=S['evaluations'], distinct_nontrivial=S['nontrivial'], rule=spec['rule'])
        cov.update(samples=smp, groups=S['groups'], exhaustive=not S['truncated'],
                   bounds=spec['bounds'][tier] if isinstance(spec['bounds'], dict) else spec['bounds'])
        if lvl == 'model_checking':
            cov['cases_executed'] = S['evaluations']
            cov['cases_nontrivial'] = S['nontrivial']
            cov['rule'] = spec['rule']
        else:
            cov['distinct_states'] = S['states']
            cov['library_operations'] = S['transitions']
        if S['states_table_full']:
            cov['states_not_counted'] = S['states_table_full']
        cov['known_findings_met'] = [kn[i]['what'] for i in known_hit]
        cov['unreproduced'] = len(unconfirmed)
        cov['build_s'] = round(tb, 1)
        ev = dict(property=cid, tier=tier, seed=seed, level=lvl, coverage=cov,
                  assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                  violations=len(confirmed))
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{cid}.json', 'w'), indent=1)
        log(f'{cid} {tier}: {S["evaluations"]}/{S["cases"]} cases, {S["transitions"]} operations, {S["states"]} states, '
            f'{S["failures"]} failing, build {tb:.1f}s, total {time.time()-t0:.1f}s'
            + (' TRUNCATED by time budget' if S['truncated'] else ''))
        if confirmed:
            return 1
        if S['failures'] and not viol:
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if exe and os.path.exists(exe):
            os.unlink(exe)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except RuntimeError as e:
        print('BUILD FAILED', e, flush=True)
        sys.exit(2)

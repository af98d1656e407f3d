#!/usr/bin/env python3
"""Decide one property: compile /repo's current tree together with the harness to LLVM IR, explore the
harness entries symbolically, replay every counterexample natively, write evidence/<id>.json.
Usage: check.py ID [quick|thorough]     (tier defaults to $VERIF_TIER, then quick)"""
import json, os, re, shutil, subprocess, sys, time, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import plan

REPO = '/repo'
B = os.path.join(V, '.build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'): ENV.pop(k, None)
IRFLAGS = ['-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']


class Broken(Exception):
    pass


def run(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    if p.returncode:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def build_engine():
    run(['cargo', 'build', '--release', '--offline'], os.path.join(V, 'engine'), dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'engine')))


def build_deps():
    """IR of harness + liner, and the native replay binaries (dev: overflow checks and debug assertions; release)."""
    h = os.path.join(V, 'harness')
    t = {k: os.path.join(B, k) for k in ('ir', 'dev', 'rel')}
    # forget what was compiled from an earlier state of /repo or of the harness
    for k, prof in (('ir', 'release'), ('dev', 'debug'), ('rel', 'release')):
        fp = os.path.join(t[k], prof, '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('redox_liner-', 'harness-')): shutil.rmtree(os.path.join(fp, d))
    jobs = [
        (['cargo', 'rustc', '--release', '--offline', '--lib', '--features', 'sym', '--crate-type', 'cdylib', '--', '--emit=llvm-ir'] + IRFLAGS, t['ir']),
        (['cargo', 'build', '--offline', '--bin', 'replay'], t['dev']),
        (['cargo', 'build', '--release', '--offline', '--bin', 'replay', '--config', 'profile.release.lto=false', '--config', 'profile.release.overflow-checks=false'], t['rel']),
    ]
    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(run, c, h, dict(ENV, CARGO_TARGET_DIR=d)) for c, d in jobs]: f.result()


def build(work):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        build_deps()
        shutil.copy(os.path.join(B, 'engine/release/symex'), work)
        ll = os.path.join(B, 'ir/release/deps/harness.ll')
        shutil.copy(ll, work)
        shutil.copy(os.path.join(B, 'dev/debug/replay'), os.path.join(work, 'replay-dev'))
        shutil.copy(os.path.join(B, 'rel/release/replay'), os.path.join(work, 'replay-rel'))


def native(work, prof, entry, args, inputs, timeout=20):
    """Run one entry natively on given inputs: (status, detail, observations)."""
    cmd = [os.path.join(work, 'replay-' + prof), entry, ','.join(map(str, args)), ','.join(map(str, inputs))]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd='/', preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (4 << 30, 4 << 30)))
    except subprocess.TimeoutExpired:
        return 'hang', 'no result within %d s' % timeout, None
    out, err = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    fails = re.findall(r'^CHECK-FAILED (.*)$', out, re.M)
    m = re.findall(r'^OBS \[(.*)\]$', out, re.M)
    obs = [int(x) for x in m[-1].split(',') if x.strip()] if m else None
    if fails: return 'check', fails[0], obs
    if 'panicked at' in err: return 'panic', ' '.join(err.split('panicked at', 1)[1].split('\n')[:2]), obs
    if 'ASSUME-FAILED' in out: return 'assume', '', obs
    if p.returncode == 0 and 'DONE' in out: return 'ok', '', obs
    return 'crash', 'exit %s %s' % (p.returncode, err[-300:]), obs


CONFIRMS = {'check': ('check',), 'panic': ('panic', 'crash'), 'memory': ('panic', 'crash', 'check'), 'hang': ('hang', 'crash'), 'unreachable': ('panic', 'crash', 'check')}


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        work = os.path.join(B, 'run', 'setup')
        os.makedirs(work, exist_ok=True)
        build(work)
        shutil.rmtree(work)
        return 0
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER')) or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = os.path.join(B, 'run', '%s-%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return check(pid, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, seed, work, t0):
    P = plan.PLAN[pid]
    entries = P[tier] if tier in P else P['quick']
    limit = P.get('time', [600, 3000])[tier == 'thorough']
    build(work)
    t_build = time.time() - t0
    cmd = [os.path.join(work, 'symex'), '--ll', os.path.join(work, 'harness.ll'), '--threads', '8', '--time', str(limit), '--samples', str(P.get('samples', 6)), '--out', os.path.join(work, 'out.json')]
    for e in entries: cmd += ['--entry', e]
    cmd += P.get('opts', [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise Broken('engine failed (%d): %s' % (p.returncode, p.stdout[-3000:]))
    R = json.load(open(os.path.join(work, 'out.json')))
    out = []
    bad = []        # reasons why this run is not an answer
    # 1. every counterexample is replayed on the real build before it is believed
    confirmed, unconfirmed = [], []
    for v in R['violations']:
        ins = [x[1] for x in v['inputs']]
        hit = None
        for prof in ('dev', 'rel'):
            st, det, _ = native(work, prof, v['entry'], v['args'], ins)
            if st in CONFIRMS[v['kind']]:
                hit = (prof, st, det)
                break
        (confirmed if hit else unconfirmed).append((v, hit))
    # 2. sampled paths: the native run must observe what the symbolic path observed
    validated, diverged = 0, []
    sm = R['samples']
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: native(work, 'dev', s['entry'], s['args'], [x[1] for x in s['inputs']]), sm))
    for s, (st, det, obs) in zip(sm, res):
        if st == 'ok' and obs == s['obs']: validated += 1
        elif st == 'check': confirmed.append(({'entry': s['entry'], 'args': s['args'], 'kind': 'check', 'msg': det, 'inputs': s['inputs'], 'stack': []}, ('dev', st, det)))
        else: diverged.append((s, st, det, obs))
    # 3. vacuity: every entry completes paths and reaches its markers
    tot = {k: sum(e[k] for e in R['entries']) for k in ('paths', 'forks', 'instrs', 'infeasible', 'checks', 'lost', 'unfinished')}
    want = P.get('reach', {})
    for e in R['entries']:
        if e['paths'] == 0: bad.append('entry %s%s completed no path' % (e['entry'], e['args']))
        for m in want.get(e['entry'] + ':' + ','.join(map(str, e['args'])), want.get(e['entry'], ['end'])):
            if not e['reached'].get(m): bad.append('entry %s%s never reached %r (vacuous)' % (e['entry'], e['args'], m))
    if diverged: bad.append('native run diverged from the symbolic path: %s' % (diverged[0],))
    if unconfirmed: bad.append('counterexample did not reproduce natively: %s' % (json.dumps(unconfirmed[0][0]),))
    incomplete = []
    if R['errors']: incomplete.append('unsupported: %s' % json.dumps(R['errors'])[:600])
    if R['timed_out']: incomplete.append('time limit %d s reached' % limit)
    if R['unknowns']: incomplete.append('%d solver queries without answer' % R['unknowns'])
    if tot['unfinished']: incomplete.append('%d paths cut short' % tot['unfinished'])
    missing = tot['lost'] + tot['unfinished']
    if R['timed_out'] or missing > 0.02 * (tot['paths'] + missing): bad += incomplete
    # 4. known findings: printed while they still fail, never suppress anything else
    known = []
    for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings']:
        if k['property'] != pid: continue
        st, det, _ = native(work, 'dev', k['entry'], k['args'], k['inputs'])
        if st in ('check', 'panic', 'crash', 'hang'): known.append(k['what'])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'),
        'coverage': {
            'states': tot['paths'] + tot['forks'], 'transitions': tot['instrs'], 'traces_validated_against_impl': validated,
            'samples': [{'entry': s['entry'], 'args': s['args'], 'inputs': s['inputs'], 'observed': s['obs']} for s in sm[:12]],
            'paths_decided': tot['paths'], 'paths_infeasible_or_outside_assumptions': tot['infeasible'], 'assertions_discharged': tot['checks'],
            'solver_queries': R['queries'], 'query_cache_hits': R['cache_hits'], 'solver_seconds': R['solver_s'], 'solver': R['z3'],
            'exploration_seconds': R['wall_s'], 'build_seconds': round(t_build, 2),
            'entries': R['entries'], 'bounds': P['bounds'], 'outside': P.get('outside', ''),
            'functions_encoded': demangle(R['functions']), 'ir_functions_executed': len(R['functions']),
            'incomplete': incomplete, 'known_findings_reproduced': known,
        },
        'assumptions': plan.COMMON + P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d assertions, %d solver queries (%.1f s), %d traces validated, explored in %.1f s, total %.1f s' % (pid, tier, tot['paths'], tot['checks'], R['queries'], R['solver_s'], validated, R['wall_s'], time.time() - t0))
    for m in incomplete: print('INCOMPLETE: ' + m)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if confirmed:
        seen = set()
        for v, hit in confirmed:
            if v['msg'] in seen: continue
            seen.add(v['msg'])
            path = os.path.join(V, 'evidence', 'replay-%s-%d.json' % (pid, len(seen)))
            json.dump({'property': pid, 'entry': v['entry'], 'args': v['args'], 'inputs': v['inputs'], 'kind': v['kind'], 'msg': v['msg'], 'stack': v['stack'], 'confirmed': hit,
                       'rerun': 'python3 /verif/replay.py ' + path}, open(path, 'w'), indent=1)
            print('  %s %s%s: %s (%s build: %s)' % (v['kind'], v['entry'], v['args'], v['msg'], hit[0], hit[2]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if bad:
        for b in bad: print('ERROR: ' + str(b)[:3000])
        return 2
    return 0


def demangle(names):
    """paths of the mangled names that belong to the crate under test."""
    p = subprocess.run(['llvm-cxxfilt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return sorted({re.sub(r'::h[0-9a-f]{16}$', '', d) for d in p.stdout.split('\n') if 'liner::' in d and '{' not in d.split('::')[0]})


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('ERROR: %s' % e)
        sys.exit(2)

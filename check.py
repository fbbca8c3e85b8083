"""check.py PROPERTY: decide one property on /repo's current source.

1. dump the MIR of /repo's crate (driver/), 2. run the verification tasks the property depends on (engine/), one
process each, 3. run the bounded replay battery of the property against the real code (replay/), 4. write evidence.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
EVID = os.path.join(VERIF, 'evidence')
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import registry  # noqa: E402

PY = os.environ.get('VP_PY', 'python3-vt')
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ('RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTFLAGS')}
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(kw)
    return e


def sh(cmd, cwd=None, timeout=600, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def die(msg):
    print('ERROR: %s' % msg, flush=True)
    sys.exit(2)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def lockfile():
    p = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(p) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', p)


def build_driver():
    r = sh(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=os.path.join(VERIF, 'driver'), CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
    if r.returncode:
        die('the MIR driver does not build:\n' + r.stdout[-3000:])


def dump_mir(out):
    lockfile()
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    os.makedirs(out, exist_ok=True)
    f = os.path.join(out, 'newton_rootfinder.json')
    if os.path.exists(f):
        os.remove(f)
    r = sh(['cargo', '+nightly', 'rustc', '--lib', '--profile', 'check', '--all-features', '--offline', '--target-dir', os.path.join(BUILD, 'mir-target'),
            '--', '-Zmir-opt-level=0', '-Awarnings', '--cfg', 'vp_run="%d"' % time.time_ns()], cwd=REPO,
           LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, 'driver/debug/vp-driver'),
           VP_CRATE='newton_rootfinder', VP_MIR_OUT=out)
    if r.returncode or not os.path.exists(f):
        die('the crate does not compile:\n' + r.stdout[-3000:])
    return f


def build_replay():
    d = os.path.join(VERIF, 'replay')
    if not os.path.exists(os.path.join(d, 'Cargo.toml')):
        return None
    lk = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lk) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', lk)
    r = sh(['cargo', 'build', '--offline', '-q', '--profile', 'replay'], cwd=d, CARGO_TARGET_DIR=os.path.join(BUILD, 'replay'))
    if r.returncode:
        log('the replay crate does not build against the current tree:\n' + r.stdout[-3000:])
        return None
    return os.path.join(BUILD, 'replay/replay/vp-replay')


def run_tasks(names, dump, work, limit):
    """run tasks in parallel (8 at a time); returns {name: result}"""
    todo = sorted(names, key=lambda t: -registry.COST.get(t, 1))
    run, res = {}, {}
    ncpu = os.cpu_count() or 8
    end = time.time() + limit
    while todo or run:
        while todo and len(run) < ncpu:
            t = todo.pop(0)
            out = os.path.join(work, re.sub(r'\W', '_', t) + '.json')
            if os.path.exists(out):
                os.remove(out)
            er = open(out + '.err', 'w')
            p = subprocess.Popen([PY, os.path.join(VERIF, 'engine/mktask.py'), t, dump, out], stdout=er, stderr=er, env=env(PYTHONHASHSEED='0'))
            run[t] = (p, out, time.time())
        for t, (p, out, t0) in list(run.items()):
            if p.poll() is not None:
                del run[t]
                if os.path.exists(out):
                    res[t] = json.load(open(out))
                    res[t]['wall'] = round(time.time() - t0, 1)
                else:
                    res[t] = dict(task=t, failed='crashed: ' + open(out + '.err').read()[-600:], obligations=[], functions=[], assumed={}, contracts={}, stats={}, wall=round(time.time() - t0, 1))
            elif time.time() > end:
                p.kill()
                p.wait()
                del run[t]
                res[t] = dict(task=t, failed='out of time', obligations=[], functions=[], assumed={}, contracts={}, stats={}, wall=round(time.time() - t0, 1))
                while todo:
                    q = todo.pop()
                    res[q] = dict(task=q, failed='out of time', obligations=[], functions=[], assumed={}, contracts={}, stats={}, wall=0)
        time.sleep(0.05)
    return res


def known_findings():
    kf = {}
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'KNOWN-FINDING: property=(\S+) (\S+) ?(.*)', line.strip())
        if m:
            kf.setdefault(m.group(1), {})[m.group(2)] = line.strip()
    return kf


def literals(dump, out):
    """the numbers written in the current source: candidate inputs of the bounded runs"""
    d = json.load(open(dump))
    ty, ints, floats = d['types'], set(), set()

    def walk(o):
        if isinstance(o, dict):
            if o.get('k') == 'const' and 'bits' in o:
                t = ty[o['ty']]
                if t['k'] == 'float':
                    floats.add(int(o['bits']))
                elif t['k'] == 'int' and 2 <= int(o['bits']) <= 10 ** 6:
                    ints.add(int(o['bits']))
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    walk(d['fns'])
    with open(out, 'w') as f:
        f.write(''.join('i %d\n' % i for i in sorted(ints)) + ''.join('f %d\n' % i for i in sorted(floats)))
    return out


def hunt(binary, prop, seed, work, hints, seconds):
    """an obligation is not discharged: look for a failing input of the real code, with many seeds and in wider ranges"""
    if binary is None:
        return None, 0
    n, t0, got, cases = os.cpu_count() or 8, time.time(), [], 0
    run, k = [], 0
    while time.time() - t0 < seconds and not got:
        while len(run) < n and k < 40 * n:
            k += 1
            w = os.path.join(work, 'hunt%d' % k)
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            left = max(5, int(seconds - (time.time() - t0)))
            tier = 'hunt' if k % 4 else 'thorough'
            p = subprocess.Popen([binary, prop, tier, str(seed * 1000 + k), os.path.join(w, 'out.json'), w, hints],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(VP_SECONDS=str(left)))
            run.append((p, w, tier, seed * 1000 + k))
        if not run:
            break
        for x in list(run):
            p, w, tier, s = x
            if p.poll() is None:
                continue
            run.remove(x)
            o = os.path.join(w, 'out.json')
            if os.path.exists(o):
                j = json.load(open(o))
                cases += j['cases']
                for f in j['failures']:
                    if not f.get('known'):
                        f['replay'] = 'VP_SECONDS=%d %s %s %s %d OUT.json SCRATCHDIR %s' % (seconds, binary, prop, tier, s, hints)
                        got.append(f)
            shutil.rmtree(w, ignore_errors=True)
        time.sleep(0.05)
    for p, w, _, _ in run:
        p.kill()
        p.wait()
        shutil.rmtree(w, ignore_errors=True)
    return got, cases


def battery(binary, prop, tier, seed, work, hints, limit):
    """bounded runs of the real code"""
    if binary is None:
        return None
    out = os.path.join(work, 'battery.json')
    if os.path.exists(out):
        os.remove(out)
    scratch = os.path.join(work, 'scratch')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        r = sh([binary, prop, tier, str(seed), out, scratch, hints], timeout=limit)
    except subprocess.TimeoutExpired:
        # a run that does not end: the battery names the case it was in
        cur = out + '.current'
        case = open(cur).read() if os.path.exists(cur) else '?'
        return dict(cases=0, distinct=0, failures=[], hung=case)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if not os.path.exists(out):
        log('battery gave no result: ' + r.stdout[-1500:])
        return None
    return json.load(open(out))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    work = os.path.join(BUILD, 'run-%s' % prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    with Lock():
        build_driver()
        dump = dump_mir(os.path.join(work, 'mir'))
        log('MIR dumped')
        binary = build_replay()
        log('replay crate built' if binary else 'no replay crate')
    hints = literals(dump, os.path.join(work, 'literals.txt'))
    bat = battery(binary, prop, tier, seed, work, hints, 250 if tier == 'quick' else 1500)
    if bat:
        log('battery: %d cases, %d failures' % (bat.get('cases', 0), len(bat.get('failures', []))))
    tasks = registry.tasks_of(prop)
    limit = 560 if tier == 'quick' else 3000
    kf0 = known_findings().get(prop, {})
    if tier == 'quick' and any(not (f.get('known') and f['known'] in kf0) for f in (bat or {}).get('failures', [])):
        limit = 330     # a failing input is at hand: the proof only adds which obligation fails
    res = run_tasks(tasks, dump, work, max(60, limit - (time.time() - T0)) if tier == 'quick' else limit)
    log('tasks done')
    own, deps, fns, assumed, contracts, failed = [], [], set(), {}, {}, []
    solver_s, queries = 0.0, 0
    taskinfo = []
    for t in tasks:
        r = res[t]
        if r.get('failed'):
            failed.append('%s: %s' % (t, r['failed']))
        for o in r['obligations']:
            o['task'] = t
            if prop in o['props']:
                own.append(o)
            elif registry.depends(prop, o):
                deps.append(o)
        fns |= set(r['functions'])
        for k, v in r['assumed'].items():
            assumed[k] = assumed.get(k, 0) + v
        for k, v in r['contracts'].items():
            contracts[k] = contracts.get(k, 0) + v
        solver_s += r['stats'].get('time', 0.0)
        queries += r['stats'].get('n', 0)
        taskinfo.append(dict(task=t, theory=r.get('theory'), obligations=len(r['obligations']), wall_s=r['wall']))
    allo = own + deps
    refuted = [o for o in own if o['status'] == 'refuted' and o['exact']]
    known = [o for o in own if o['status'] == 'known']
    undec = [o for o in own if o['status'] not in ('proved', 'known') and o not in refuted]
    depbad = [o for o in deps if o['status'] not in ('proved', 'known')]
    kf = known_findings().get(prop, {})
    viol = []
    for o in known:
        key = o.get('model') or o['clause']
        key = key if isinstance(key, str) else o['clause']
        hit = [l for k, l in kf.items() if k in (key, o['clause']) or k in o['detail']]
        if hit:
            print(hit[0])
        else:
            viol.append(('obligation', o))
    # concrete failures of the real code
    fails = []
    for f in (bat or {}).get('failures', []):
        if f.get('known') and f['known'] in kf:
            continue
        fails.append(f)
    hunted = 0
    if (undec or depbad or refuted or failed or viol) and not fails and not (bat or {}).get('hung'):
        left = (820 if tier == 'quick' else 6000) - (time.time() - T0)
        if left > 20:
            more, hunted = hunt(binary, prop, seed, work, hints, min(left, 150 if refuted or viol else 60) if tier == 'quick' else min(left, 1500))
            fails += more or []
            log('hunt: %d cases, %d failures' % (hunted, len(more or [])))
    nviol = 0
    rp = os.path.join(EVID, 'replay-%s.txt' % prop)
    if os.path.exists(rp):
        os.remove(rp)
    bad = refuted + [o for _, o in viol]
    if fails or bad or (bat or {}).get('hung'):
        nviol = len(bad) + len(fails) + (1 if (bat or {}).get('hung') else 0)
        with open(rp, 'w') as f:
            f.write('property %s violated on the tree of %s\n\n' % (prop, REPO))
            for o in bad:
                f.write('FAILED OBLIGATION  %s :: %s\n  task %s\n  verifier output: %s\n  counterexample: %s\n\n' % (o['fn'], o['clause'], o['task'], o['detail'], o.get('model')))
            for o in undec:
                f.write('UNDISCHARGED OBLIGATION  %s :: %s (%s)\n  task %s\n  %s\n\n' % (o['fn'], o['clause'], o['status'], o['task'], o['detail'][:600]))
            for x in fails:
                f.write('FAILING INPUT (real code)\n%s\n\n' % json.dumps(x, indent=1))
            if (bat or {}).get('hung'):
                f.write('DOES NOT TERMINATE (real code)\n%s\n\n' % bat['hung'])
            f.write('replay of the failing inputs: VERIF_SEED=%d %s %s %s %d /tmp/out.json /tmp/scratch-dir\n' % (seed, binary, prop, tier, seed))
        concrete = bool(fails or (bat or {}).get('hung'))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if concrete else ' no-failing-input-found'))
        for o in bad[:6]:
            print('  failed obligation: %s :: %s' % (o['fn'], o['clause']))
        for x in fails[:3]:
            print('  failing input: %s' % str(x.get('what'))[:300])
    if undec or depbad or failed:
        print('UNDECIDED: %d own obligations, %d obligations of contracts relied on, %d tasks without answer (bounded battery stands in)' % (len(undec), len(depbad), len(failed)))
        for o in (undec + depbad)[:12]:
            print('  %s  %s :: %s  %s' % (o['status'], o['fn'], o['clause'], o['detail'][:160].replace('\n', ' ')))
        for x in failed[:6]:
            print('  task ' + x[:300])
    byfn = {}
    for o in own:
        k = o['fn']
        byfn.setdefault(k, [0, 0])
        byfn[k][0] += 1
        byfn[k][1] += o['status'] == 'proved'
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - T0, 1), violations=nviol)
    disch = sum(o['status'] == 'proved' for o in own)
    cov = dict(
        obligations=len(own), discharged=disch,
        checker_cmd='python3-vt check.py %s (runs engine/mktask.py for the tasks %s)' % (prop, ', '.join(tasks)),
        trusted_base=registry.TRUSTED + ['assumed contract (%d uses): %s' % (v, k) for k, v in sorted(assumed.items())],
        obligations_by_function={k: '%d/%d' % (b, a) for k, (a, b) in sorted(byfn.items())},
        functions_executed_from_mir=sorted(fns),
        contracts_used=contracts,
        relied_on=dict(obligations=len(deps), discharged=sum(o['status'] == 'proved' for o in deps)),
        solver='z3 %s (all queries); sympy for rational identities' % registry.z3v(), solver_queries=queries, solver_s=round(solver_s, 1),
        tasks=taskinfo,
        undecided=[dict(fn=o['fn'], clause=o['clause'], status=o['status'], why=o['detail'][:200]) for o in (undec + depbad)[:40]],
        failed_obligations=[dict(fn=o['fn'], clause=o['clause'], detail=o['detail'][:300]) for o in bad[:20]],
        known=[dict(fn=o['fn'], clause=o['clause']) for o in known],
        tasks_without_answer=failed[:10],
    )
    if bat:
        cov['bounded_stand_in'] = dict(label='bounded: runs of the real code, never counted as proved', evaluations=bat.get('cases', 0),
                                       distinct_nontrivial=bat.get('distinct', 0), rule=bat.get('rule', ''), samples=bat.get('samples', [])[:3],
                                       failures=len(fails), further_evaluations_after_an_undischarged_obligation=hunted, needed_for=len(undec) + len(failed))
    ev['coverage'] = cov
    ev['assumptions'] = registry.assumptions(prop)
    js = json.dumps(ev, indent=1)
    while len(js) > 60000 and cov['trusted_base']:
        cov['functions_executed_from_mir'] = cov['functions_executed_from_mir'][:40]
        cov['trusted_base'] = cov['trusted_base'][:-10]
        js = json.dumps(ev, indent=1)
    with open(os.path.join(EVID, prop + '.json.tmp'), 'w') as f:
        f.write(js)
    os.rename(os.path.join(EVID, prop + '.json.tmp'), os.path.join(EVID, prop + '.json'))
    print('%s: %d/%d obligations discharged, %d undecided, %d failed; relied-on contracts %d/%d; battery %s; %.0f s' % (
        prop, disch, len(own), len(undec), len(bad), cov['relied_on']['discharged'], len(deps),
        '%d cases, %d failing' % (bat.get('cases', 0), len(fails)) if bat else 'none', time.time() - T0))
    shutil.rmtree(os.path.join(work, 'mir'), ignore_errors=True)
    sys.exit(1 if nviol else 0)


if __name__ == '__main__':
    main()

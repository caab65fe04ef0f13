#!/usr/bin/env python3
"""Run one check:  python3 run.py C01 [--tier quick|thorough] [--seed N] [--sub names] [--replay FILE]"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def environment():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('OMPI_COMM', 'PMIX', 'OMPI_UNIVERSE')):
            del env[k]
    out = subprocess.run(['bash', '-c', '. /opt/vp/lib/env.sh; env -0'], capture_output=True, env=env)
    for item in out.stdout.split(b'\0'):
        if b'=' in item:
            k, v = item.decode().split('=', 1)
            env[k] = v
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               NUMEXPR_MAX_THREADS='1', MPLBACKEND='Agg', PYTHONPATH=HERE, HDF5_USE_FILE_LOCKING='FALSE')
    return env


def ensure_vendor(env):
    """hypothesis from the offline wheelhouse, into /verif/.vendor (git-ignored)."""
    target = os.path.join(HERE, '.vendor')
    lockname = os.path.join(tempfile.gettempdir(), 'verif-vendor.lock')
    with open(lockname, 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(target, 'OK')):
            if os.path.isdir(target):
                shutil.rmtree(target)
            tmp = target + '.tmp'
            if os.path.isdir(tmp):
                shutil.rmtree(tmp)
            r = subprocess.run([PY, '-m', 'pip', 'install', '-q', '--no-index', '--no-deps', '--find-links', '/opt/veriftools/wheels',
                                '--target', tmp, 'hypothesis', 'sortedcontainers'], capture_output=True, text=True, env=env)
            if r.returncode:
                print(r.stdout, r.stderr)
                raise SystemExit(2)
            open(os.path.join(tmp, 'OK'), 'w').close()
            os.rename(tmp, target)
    return target


def ensure_extensions(env):
    """Bring /repo's compiled modules in step with the sources of its working tree."""
    if REPO != '/repo':
        return
    with open(os.path.join(tempfile.gettempdir(), 'verif-ext.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run([PY, '/opt/vp/lib/ext.py'], capture_output=True, text=True, env=env)
    if r.returncode:
        print(r.stdout[-3000:], r.stderr[-3000:])
        print('extension build failed')
        raise SystemExit(2)


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f) if e['property'] == prop and e['status'] == 'known']


def save_replay(prop, fail):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(fail, sort_keys=True, indent=1)
    path = os.path.join(d, f"{prop}-{fail['sub']}-{hashlib.sha1(blob.encode()).hexdigest()[:8]}.json")
    with open(path, 'w') as f:
        f.write(blob)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--sub', default='')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    args = ap.parse_args()
    t0 = time.time()
    env = environment()
    ensure_vendor(env)
    ensure_extensions(env)
    prop = args.check
    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    env['VERIF_SCRATCH'] = scratch
    env['TMPDIR'] = scratch
    try:
        if args.replay:
            with open(args.replay) as f:
                rep = json.load(f)
            r = subprocess.run([PY, '-m', 'vlib.replay', prop, os.path.abspath(args.replay)], env=env, cwd=scratch)
            if r.returncode == 1:
                print(f'VIOLATION property={prop} replay={os.path.abspath(args.replay)}')
            return r.returncode
        nshards = 8 if args.tier == 'quick' else 16
        with open(os.path.join(HERE, 'checks', prop + '.py')) as f:
            most = re.search(r'(?m)^JOBS = (\d+)', f.read())
        conc = args.jobs or min(int(most.group(1)) if most else 8, len(os.sched_getaffinity(0)))
        limit = 860 if args.tier == 'quick' else 6 * 3600
        todo = list(range(nshards))
        running, errors, failed = {}, [], False
        while todo or running:
            while todo and len(running) < conc:
                s = todo.pop(0)
                out = os.path.join(scratch, f'shard{s}.json')
                logf = open(os.path.join(scratch, f'shard{s}.log'), 'w')
                wd = os.path.join(scratch, f'w{s}')
                os.makedirs(wd)
                e = dict(env, VERIF_SCRATCH=wd, TMPDIR=wd)
                p = subprocess.Popen([PY, '-m', 'vlib.worker', prop, args.tier, str(args.seed), str(s), str(nshards), out, args.sub],
                                     env=e, cwd=wd, stdout=logf, stderr=subprocess.STDOUT, start_new_session=True)
                running[p] = (s, out)
            time.sleep(0.05)
            for p in list(running):
                if p.poll() is not None:
                    s, out = running.pop(p)
                    if os.path.exists(out):
                        with open(out) as f:
                            failed = failed or bool(json.load(f)['fails'])
                    else:
                        with open(os.path.join(scratch, f'shard{s}.log')) as f:
                            errors.append(f'shard {s} ended with code {p.returncode}:\n' + f.read()[-3000:])
            late = failed and args.tier == 'quick'     # a violation has been found: no need to run everything
            if late and time.time() - t0 > 240:
                todo.clear()
            if time.time() - t0 > (420 if late else limit):
                for p in running:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                if not late:
                    errors.append('time limit of the check reached')
                break
        stats, fails, times = {}, [], {}
        for s in range(nshards):
            out = os.path.join(scratch, f'shard{s}.json')
            if not os.path.exists(out):
                continue
            with open(out) as f:
                d = json.load(f)
            for k, v in d['stats'].items():
                t = stats.setdefault(k, {'evaluations': 0, 'keys': set(), 'tags': {}, 'samples': [], 'skipped': 0})
                t['evaluations'] += v['evaluations']
                t['skipped'] += v['skipped']
                t['keys'].update(v['nontrivial_keys'])
                t['samples'] += v['samples']
                for a, b in v['tags'].items():
                    t['tags'][a] = t['tags'].get(a, 0) + b
            for k, v in d['times'].items():
                times[k] = times.get(k, 0) + v
            fails += d['fails']
            for h in d['harness']:
                errors.append(json.dumps(h, indent=1).replace('\\n', '\n'))
        # Known findings: replay each listed input, and only report it.
        known = []
        for e in known_findings(prop):
            path = os.path.join(scratch, 'known.json')
            with open(path, 'w') as f:
                json.dump({'sub': e['sub'], 'case': e['case']}, f)
            r = subprocess.run([PY, '-m', 'vlib.replay', prop, path], env=env, cwd=scratch, capture_output=True, text=True)
            if r.returncode == 1:
                print(f"KNOWN-FINDING: property={prop} {e['what']}")
                known.append(e['what'])
            elif r.returncode != 0:
                errors.append('known-finding replay: ' + r.stdout[-2000:] + r.stderr[-2000:])
        sys.path.insert(0, HERE)
        meta = json.load(open(os.path.join(HERE, 'rules.json'))).get(prop, {}) if os.path.exists(os.path.join(HERE, 'rules.json')) else {}
        samples = []
        for k in sorted(stats):
            samples += stats[k]['samples'][:3]
        viol = []
        seen = set()
        for f in fails:
            if f['sub'] in seen:
                continue
            seen.add(f['sub'])
            path = save_replay(prop, f)
            viol.append({'sub': f['sub'], 'replay': path, 'message': f['message'][:1500]})
        ev = {
            'property': prop, 'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick', 'seed': args.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': sum(v['evaluations'] for v in stats.values()),
                'distinct_nontrivial': sum(len(v['keys']) for v in stats.values()),
                'rule': meta.get('rule', 'Hypothesis-generated cases; distinct by full case content.'),
                'samples': samples[:24],
                'by_subcheck': {k: {'evaluations': v['evaluations'], 'distinct_nontrivial': len(v['keys']), 'outside_domain': v['skipped'],
                                    'classes': dict(sorted(v['tags'].items())), 'cpu_s': round(times.get(k, 0), 1)} for k, v in sorted(stats.items())},
                'known_findings_seen': known,
            },
            'wall_s': round(time.time() - t0, 2),
            'violations': viol,
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, v in sorted(stats.items()):
            print(f"  {k}: {v['evaluations']} cases, {len(v['keys'])} distinct non-trivial, {v['skipped']} outside domain, {times.get(k,0):.0f} cpu-s")
        print(f"{prop}: {ev['coverage']['evaluations']} cases in {ev['wall_s']} s")
        for v in viol:
            print(v['message'])
            print(f"VIOLATION property={prop} replay={v['replay']}")
        if viol:
            return 1
        if errors:
            print('HARNESS ERRORS:')
            for e in errors[:5]:
                print(e)
            return 2
        if not stats:
            print('nothing ran')
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())

"""Confirm planted changes in scratch copies mounted over /repo (needs mount privileges; not used by any check).

python3 tools/plant.py ID [--no-tests] [--checks C01,C02] [--tier quick]
"""
import argparse, json, os, subprocess, sys, shutil, tempfile
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='+')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--no-check', action='store_true')
ap.add_argument('--checks')
a = ap.parse_args()
ROOT = '/verif/seeded'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def inside(copy, cmd, cwd='/repo'):
    return sh(['unshare', '-m', 'bash', '-c', f'mount --bind {copy} /repo && cd {cwd} && {cmd}'])


for i in a.ids:
    d = f'{ROOT}/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    copy = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    try:
        sh(f'cp -a /repo/. {copy}/')
        demo = tempfile.mkdtemp(prefix='demo_', dir='/tmp')
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(f'{d}/{f}', demo)
        r0 = inside(copy, f'bash {demo}/demo.sh')
        r = sh(f'git -C {copy} apply {d}/patch.diff')
        if r.returncode:
            print(i, 'PATCH FAILS', r.stderr)
            continue
        b = inside(copy, 'bash /opt/vp/build.sh')
        r1 = inside(copy, f'bash {demo}/demo.sh')
        print(i, prop, 'build', b.returncode, 'demo clean', r0.returncode, 'demo patched', r1.returncode, flush=True)
        if r0.returncode or not r1.returncode:
            print((r0 if r0.returncode else r1).stdout[-1500:], (r0 if r0.returncode else r1).stderr[-1500:])
        if not a.no_tests:
            inside(copy, f'bash /opt/vp/test.sh {demo}/out.json')
            try:
                lost = stable - set(json.load(open(f'{demo}/out.json'))['passed'])
                print(i, 'tests lost', len(lost), sorted(lost)[:3], flush=True)
            except OSError:
                print(i, 'tests gave no report')
        if not a.no_check:
            for c in (a.checks or prop).split(','):
                r = inside(copy, f'VERIF_SEED=1 timeout 900 python3 run.py {c} --tier quick', cwd='/verif')
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                print(i, 'check', c, 'exit', r.returncode, v[:1] or r.stdout[-300:] + r.stderr[-300:], flush=True)
        shutil.rmtree(demo)
    finally:
        shutil.rmtree(copy)

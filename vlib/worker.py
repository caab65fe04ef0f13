"""One shard of one check: python -m vlib.worker CHECK TIER SEED SHARD NSHARDS OUT [SUB]"""
import importlib, json, os, sys, time, hashlib, warnings, logging

def setup_env():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from vlib import core
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    core.vendor()

def load(check):
    mod = importlib.import_module('checks.' + check)
    import dedalus
    from vlib import core
    if not os.path.realpath(dedalus.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
        raise SystemExit(f'dedalus imported from {dedalus.__file__}, not {core.REPO}')
    return mod

def main():
    check, tier, seed, shard, nshards, out = sys.argv[1:7]
    only = sys.argv[7].split(',') if len(sys.argv) > 7 and sys.argv[7] else None
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    setup_env()
    from vlib import core
    mod = load(check)
    mult = float(os.environ.get('VERIF_MULT', 1))
    stats, fails, harness, times = {}, [], [], {}
    subs = [s for s in mod.SUBS if not only or s.name in only]
    # rotate the order so that shards do not all run the same heavy sub-check at once
    for i, sub in enumerate(subs):
        total = int((sub.quick if tier == 'quick' else sub.thorough) * mult)
        j = (shard + i) % nshards
        n = total // nshards + (1 if j < total % nshards else 0)
        if n == 0:
            continue
        h = int(hashlib.sha256(f'{check}/{sub.name}/{seed}/{shard}'.encode()).hexdigest()[:8], 16)
        t0 = time.time()
        res = core.drive(sub, n, h, stats)
        times[sub.name] = time.time() - t0
        if res and 'harness' in res:
            harness.append(res['harness'])
        if res and 'fail' in res:
            fails.append(res['fail'])
            break
    fin = getattr(mod, 'finish', None)
    if fin:
        fin()
    for s in stats.values():
        s['nontrivial_keys'] = sorted(s['nontrivial_keys'])
    with open(out + '.tmp', 'w') as f:
        json.dump({'stats': stats, 'fails': fails, 'harness': harness, 'times': times}, f)
    os.replace(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)

if __name__ == '__main__':
    main()

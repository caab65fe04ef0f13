"""python -m vlib.replay CHECK FILE : run one saved case without Hypothesis."""
import json, sys
from vlib.worker import setup_env, load

def main():
    setup_env()
    from vlib import core
    mod = load(sys.argv[1])
    rep = json.load(open(sys.argv[2]))
    sub = {s.name: s for s in mod.SUBS}[rep['sub']]
    try:
        core.guarded(sub.run, rep['case'])
    except core.Violation as e:
        print(e)
        code = 1
    except core.HarnessError as e:
        print(e)
        code = 2
    else:
        print('held')
        code = 0
    sys.stdout.flush()
    import os
    fin = getattr(mod, 'finish', None)
    if fin:
        fin()
    os._exit(code)

if __name__ == '__main__':
    main()

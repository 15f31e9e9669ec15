"""python3-vt oracles/run.py <property> <tier> <seed> <out.json>: bounded groups of one property."""
import importlib
import json
import os
import pickle
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.dirname(HERE))


def main():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    from oracles import base
    try:
        ns = base.namespace()
    except Exception as e:
        json.dump({'import_error': traceback.format_exc()[-3000:], 'groups': []}, open(out, 'w'))
        return
    for f in sorted(os.listdir(HERE)):
        if f.startswith('o_') and f.endswith('.py'):
            importlib.import_module('oracles.' + f[:-3])
    flt = os.environ.get('VERIF_GROUP', '')
    groups = [g for g in base.GROUPS.get(prop, []) if (g.quick or tier == 'thorough') and flt in g.__name__]
    groups.sort(key=lambda g: -g.limit)
    res = base.run_all(groups, ns, tier, seed)
    json.dump({'groups': res}, open(out, 'w'))


if __name__ == '__main__':
    main()

"""setup: the engine and all harness modules load against the current /repo source"""
import importlib
import json
import os
import sys


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    import z3
    s = z3.Solver()
    x = z3.BitVec('x', 8)
    s.add(x * 3 == 9)
    assert s.check() == z3.sat
    reg = json.load(open(os.path.join(here, 'harness', 'registry.json')))
    for mod in sorted(set(reg.values())):
        m = importlib.import_module('harness.' + mod)
        for p in [k for k in reg if reg[k] == mod]:
            assert m.META[p] and m.CASES[p], p
    print('engine ready: %d properties, z3 %s' % (len(reg), z3.get_version_string()))


if __name__ == '__main__':
    main()

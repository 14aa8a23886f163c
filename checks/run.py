#!/usr/bin/env python3
"""python3-vt checks/run.py <property> [--replay FILE]"""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), 'lib'), HERE]
import common

MODULES = ['eval_checks', 'transform_checks', 'number_checks', 'codegen_checks', 'gen_checks', 'accuracy_checks', 'subset_checks', 'history_checks']


def find(prop):
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + '.py')):
            mod = importlib.import_module(m)
            if prop in mod.CHECKS:
                return mod.CHECKS[prop]
    return None


if __name__ == '__main__':
    if len(sys.argv) < 2:
        sys.exit('usage: run.py <property> [--replay FILE]')
    fn = find(sys.argv[1])
    if fn is None:
        sys.exit('no check for ' + sys.argv[1])
    sys.exit(common.main(sys.argv[1], fn, sys.argv[2:]))

''' Entry point: python -m mc.run C01 [--tier quick|thorough]  |  python -m mc.run --replay FILE '''

import argparse
import importlib
import json
import os
import pkgutil
import sys

sys.dont_write_bytecode = True

from mc import core

def modules():
    import mc.checks
    return {name.split('_')[0].upper(): f'mc.checks.{name}' for _, name, _ in pkgutil.iter_modules(mc.checks.__path__) if name[0] == 'c' and name[1:3].isdigit()}

def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--procs', type=int, default=None)
    parser.add_argument('--replay')
    parser.add_argument('--list', action='store_true')
    args = parser.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mods = modules()
    if args.list:
        print('\n'.join(sorted(mods)))
        return 0
    if args.replay:
        spec = json.load(open(args.replay))
        module = importlib.import_module(mods[spec['property']])
        _, failure = core.execute(module, spec['case'], core.load_known(spec['property']))
        print(failure or 'held')
        if failure: print(f'VIOLATION property={spec["property"]} replay={args.replay}')
        return 1 if failure else 0
    return core.run(args.property, mods[args.property], args.tier, seed, args.procs)

if __name__ == '__main__':
    sys.exit(main())

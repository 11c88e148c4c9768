#!/usr/bin/env python3
"""usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import vt  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--replay')
    a = p.parse_args()
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
    mod = importlib.import_module('checks.' + a.prop.lower())
    try:
        c = vt.Check(a.prop, a.tier, a.seed, replay)
        mod.run(c)
        return c.finish()
    except vt.MachineryError as e:
        print('ERROR: ' + str(e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())

#!/usr/bin/env python3-vt
"""run.py ID [--tier quick|thorough] [--seed N] [--part NAME] [--replay FILE] [--nproc N]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
import argparse, multiprocessing.connection
import core

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type = int, default = int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--part')
    ap.add_argument('--replay')
    ap.add_argument('--nproc', type = int)
    a = ap.parse_args()
    try:
        if a.replay:
            rc = core.replay(a.id, a.replay)
        else:
            rc = core.run_check(a.id, 'thorough' if a.tier == 'thorough' else 'quick', a.seed, a.part, nproc = a.nproc)
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

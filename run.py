#!/opt/veriftools/pyvenv/bin/python
"""run.py PROPERTY [--tier quick|thorough]: decide one property on the tree in $KGP_REPO (default /repo)"""
import argparse
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
import warnings
warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only', help='run only the jobs whose name contains this')
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    from symk import check
    mod = importlib.import_module('checks.' + o.prop.lower())
    jobs = mod.jobs(o.tier, o.seed)
    if o.only:
        jobs = [j for j in jobs if o.only in j[0]]
    budget = o.budget or mod.META.get('budget', {}).get(o.tier, 150 if o.tier == 'quick' else 780)
    check.VERBOSE = o.v
    return check.main(o.prop, jobs, o.tier, o.seed, budget, mod.META.get('level', 'model_checking'), mod.META)


if __name__ == '__main__':
    sys.exit(main())

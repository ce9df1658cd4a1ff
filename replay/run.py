"""Replays counterexamples on the real package: run.py PROPERTY < cases.json
One line 'RESULT {"violated": true|false|null, "detail": ...}' per case."""
import json
import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.environ.get('KGP_REPO', '/repo'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
np.seterr(all='ignore')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')    # mpmath
import oracles


def main():
    prop = sys.argv[1]
    cases = json.load(sys.stdin)
    if isinstance(cases, dict):
        cases = cases['cases']
    f = getattr(oracles, prop)
    for c in cases:
        try:
            v, d = f(c['scope'], c['inputs'])
        except oracles.Skip as e:
            v, d = False, 'not applicable: %s' % e
        except Exception as e:
            import traceback
            v, d = None, 'oracle error: %s' % traceback.format_exc()[-300:]
        print('RESULT ' + json.dumps({'violated': None if v is None else bool(v), 'detail': str(d)[:400]}), flush=True)


if __name__ == '__main__':
    main()

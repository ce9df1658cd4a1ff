"""Rewrites the generated part of DESIGN.md (between the table markers) from properties.jsonl, the META of the checks and
the evidence of the last runs (run by hand)"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ORACLE = {
    'C01': 'R(r1)=R(r2)=0 (R\'(p)=0 for e=0), Q and the sign of L from the definition of x; written from the geodesic equations, not from the code\'s coefficients',
    'C02': 'the documented domain as a condition on the inputs, compared with the path conditions of return/raise',
    'C03': 'the mirrored call, both executed symbolically on one set of inputs',
    'C04': 'the separatrix polynomial and R having a double root at p/(1+e); sign change over the bracket (Bernstein)',
    'C05': 'Vieta for the four radial roots, the polar polynomial, their order',
    'C06': 'round trip through constants_of_motion and through Orbit',
    'C07': '(dr/dlambda)^2=R(r), (dtheta/dlambda)^2=Theta(theta), turning points, symbolic derivative of the executed closure',
    'C08': 'dt/dlambda, dphi/dlambda from the geodesic equations; one-sided limits at every quarter period; values at lambda=0',
    'C09': 'ratios, periodicity of the executed trajectory, mean growth of t and phi, all optional-argument combinations, a=0 closed forms',
    'C10': 'geodesic equations for all four coordinates, initial values, jumps', 'C11': 'the same for plunges with four real roots',
    'C12': 'g(u,u)=-1, -u_t=E, u_phi=L, sign of u against the symbolic derivative of the trajectory; the norm methods',
    'C13': 'the Kerr metric written out, r^2-2r+a^2', 'C14': 'covariant components and the definition of Q',
    'C15': 'classification by the position of r between the roots, in every root configuration',
    'C16': 'trajectory at lambda=0 through the computed phases: position and direction', 'C17': 'the same for plunges',
    'C18': 'norm condition against raise/return', 'C19': 'SI factor times the natural result for every unit, object and function',
    'C20': 'CODATA values (1e-3), proportionality, relations between units',
    'C21': 'secular part plus deltas equals the trajectory', 'C22': 'geometric definition, point by point, n points at once',
    'C23': 'exact derivative of symbolic quartics and the metric norm of it', 'C24': 'entry-by-entry scalar evaluation of symbolic arrays (any order of the cycles)',
    'C25': 'interpolator stub records grid, axes, values; every entry equals separatrix(a, e_i, x_j)',
    'C26': 'each public call executed before and after histories of other calls and compared as terms; arguments and object state compared',
    'C27': 'phase q against a start q/Upsilon later', 'C28': 'recorded artists compared with geometry computed from the trajectory terms',
}
rows = ['| | property | functions encoded | oracle | bounds | outside | quick |', '|---|---|---|---|---|---|---|']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    i = d['id']
    m = importlib.import_module('checks.' + i.lower()).META
    ev = json.load(open(os.path.join(HERE, 'evidence', i + '.json')))
    c = ev['coverage']
    st = {k: v for k, v in c['obligations'].items() if k != 'total'}
    fn = c.get('functions_encoded') or []
    files = sorted({os.path.basename(f.split(':')[0])[:-3] for f in fn})
    rows.append('| %s | %s | %d (%s) | %s | %s | %s | %s, %.0f s |' % (
        i, d['title'], len(fn), ', '.join(files), ORACLE[i], m['bounds'], m['outside'], st if not isinstance(st, dict) else ', '.join('%d %s' % (v, k) for k, v in sorted(st.items())), ev['wall_s']))
rows += ['', 'Stubs per property:', '']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(line)['id']
    rows.append('* %s: %s' % (i, '; '.join(importlib.import_module('checks.' + i.lower()).META.get('stubs', [])) or 'none'))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- table -->\n', '<!-- /table -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)

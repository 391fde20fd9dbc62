"""rewrites section 4 of DESIGN.md (planted bugs) from seeded/*/meta.json and the remarks below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REMARK = {
    'C04-superbee-tiny': 'missed first: violations below the absolute margin of the model search were dropped; the search now also tries margins relative to the data',
    'C07-stretch': 'missed first: only the CFL width was judged; now also the step really taken',
    'C11-volume': 'missed first: meshes were positive only; now of either sign',
    'C01-stale-k0': 'missed first: one step only; now two steps in a row, with and without step control',
    'C03-edge-slopes': 'missed first: only the slopes were judged; now the face states too',
    'C07-ghost-skip': 'first undecided (the executor stopped at a division by a constant zero); one undecided scenario no longer ends the check',
    'C14-t-early': 'missed first: no run failed by an invalid result; now it does',
    'C16-late': 'first undecided: stages and result were the same state; scenarios with a right-hand side now separate them',
    'C17-dtmax': 'missed first: the goal on dt_max was vacuous; C12 has a scenario with step control too',
    'C20-fixed': 'first undecided (other number formatting in the library), see C07-ghost-skip',
    'C21-meta-lines': 'missed first: no two outputs wrote metadata to the standard output',
    'C16-zero-pressure': 'first found only by a slow scenario; states at rest now come first',
    'C21-temp-file': 'missed first: no two vector outputs shared a folder; now they do',
}
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    caught = m.get('caught_by', [m['property']])
    rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'], ', '.join(caught) or 'none', REMARK.get(d, '')))
s = open(V + '/DESIGN.md').read()
a, b = s.index('## 4 Planted'), s.index('## 5 ')
s = s[:a] + '''## 4 Planted bugs

Each is in `seeded/<id>/` (patch, demonstration, meta). Every one compiles, passes the tests, and was run against the check of its property (quick tier). `tools/plant.py`
checks a specification in a scratch copy; `tools/planted.py` rewrites this table.

| planted bug | what it breaks | caught by | remarks |
|---|---|---|---|
''' + '\n'.join(rows) + '\n\n' + s[b:]
open(V + '/DESIGN.md', 'w').write(s)

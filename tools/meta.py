"""writes properties.jsonl and MANIFEST.json from one table: python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (record, bounds note)


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why,
               'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'observe_at': observe or [], 'hook_needed': None}}, note))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())


def main():
    import sys
    sys.path.insert(0, ROOT)
    from checks import ALL
    have = ALL()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for r, _ in P:
            f.write(json.dumps(r) + '\n')
    checks, na = [], list(NOT_APPLICABLE)
    for r, note in P:
        i = r['id']
        if any(x['property'] == i for x in na):
            continue
        if i not in have:
            na.append({'property': i, 'reason': 'no check yet'})
            continue
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt run.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
            'technique': 'symbolic execution of the LLVM IR of the real code, SMT (z3, cvc5) on every path',
            'level': 'model_checking',
            'level_note': note + ' Trusted: rustc/LLVM lowering, the IR executor (checked bit for bit against native runs), its models of '
                                 'allocation, libc and std I/O, z3/cvc5. Floating point is read as exact real arithmetic unless said otherwise.'})
    m = {'version': 1, 'setup_cmd': 'python3-vt -m symex.build',
         'hooks': {'guard': 'none', 'enable': 'the harness uses the public API only; no hooks in /repo', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'see DESIGN.md; evidence/<id>.json is rewritten by every run; known-findings.json lists repaired and open findings'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

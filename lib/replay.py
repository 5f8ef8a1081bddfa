"""Re-run a recorded counterexample against the current tree: run.py --replay FILE."""
import json
import os
import shutil

import fw


def replay(path, checks):
    r = json.load(open(path))
    chk = checks[r['property']]
    print('property %s, case %s: %s' % (r['property'], r['case'], r['violation'].get('what')))
    if hasattr(chk, 'replay'):
        return chk.replay(r['violation'])
    if 'inputs' not in r['violation']:
        print(r['violation'].get('log', 'no inputs recorded'))
        return 1
    work = os.path.join(fw.VERIF, '.work', 'replay_%d' % os.getpid())
    os.makedirs(work)
    try:
        units, cases = chk.cases(work, 'thorough')
        case = [c for c in cases if c.name == r['case']][0]
        for u in case.all_units():
            u.build()
        inp = fw.unjson(r['violation']['inputs'])
        print('inputs:', fw.short(inp))
        if r['violation'].get('variant') == 'pattern':
            for v in ('pattern', 'zero'):
                print(v, fw.native_case(case, v, inp))
            return 1
        k, o = fw.native_case(case, r['violation'].get('variant', 'O0'), inp)
        d = fw.CaseRunner(case, 'quick', fw.SEED).violated(inp, k, o)
        print('outcome %s, outputs %s' % (k, fw.short(o)))
        print('reproduced: ' + d if d else 'does not reproduce on this tree')
        return 1 if d else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

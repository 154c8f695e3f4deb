import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
import analyses, meta
NA = {}
exec(open(V + '/tools/na.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i not in analyses.PROPS:
        assert i in NA, i
        continue
    assert i not in NA, i
    m = meta.M[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=m['technique'], level=m['level'], level_note=m['note']))
doc = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes='All checks: python3 check.py <property> <tier>; they lower /repo/src to LLVM IR with clang and analyse it; '
                 'nothing of librsync is executed.')
json.dump(doc, open(V + '/MANIFEST.json', 'w'), indent=1)

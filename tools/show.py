import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); c=e['coverage']
    print(p, e['tier'], e['wall_s'], c['evaluations'], c['distinct_nontrivial'])
    for f,d in c['facets'].items(): print('  ',f,d)
    print('  ratio',c['largest_error_over_tolerance'])

import json,collections
m={x['id']:x for x in json.load(open('/tmp/mt/mutants.json'))}
rs=[json.loads(l) for l in open('/tmp/mt/results.jsonl')]
print(len(rs),collections.Counter((r['st'][0],r['st'][2] if r['st'][0].startswith('caught') else '') for r in rs), sum(r['t'] for r in rs)/max(1,len(rs)))
import sys
lo=int(sys.argv[1]) if len(sys.argv)>1 else 0
for r in rs[lo:]:
    x=m[r['id']]
    if r['st'][0]=='MISS' or (r['st'][0].startswith('caught') and r['st'][2]!=1):
        print(r['id'],'orig' if x['orig'] else 'FIX',x['file'],x['line'],x['func'],x['kind'],repr(x['old'][:150]),'->',repr(x['new'][:150]), r['st'] if r['st'][0]!='MISS' else '')

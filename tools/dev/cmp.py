import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open(sys.argv[1]))['passed'])
print(len(b&r),len(b),sorted(b-r)[:20])

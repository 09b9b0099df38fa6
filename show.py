import json,sys
d=json.load(open(sys.argv[1])); c=d['case']; s=c['spec']
print(d['class'],d['msg'])
print({k:c[k] for k in c if k not in('spec','choices')})
print({k:s[k] for k in s if k!='agents'})
for a in s['agents']: print(json.dumps(a))

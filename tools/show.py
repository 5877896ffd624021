import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f))
    print(d['Violation']); print(json.dumps(d['Plan']['Body']))
    t=d['Trace']
    print(len(t)); print('\n'.join(x for x in t if any(k in x for k in('request','spawn','fault','clock','release','end '))))

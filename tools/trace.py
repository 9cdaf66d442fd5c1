import json,sys
d=json.load(open(sys.argv[1]))
print(d['code'],d['backend'],d['tapes'],d['faults']); print(d['message'])
for t in d.get('trace',[]): print(t)

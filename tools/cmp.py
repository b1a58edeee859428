import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open(sys.argv[1]))
m = sorted(set(b['stable']) - set(o['passed']))
print("ok" if not m else "MISSING %d %s" % (len(m), m[:4]))

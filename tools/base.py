import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
print('failed',t['failed'],'missing', set(b['stable'])-set(t['passed']))

import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open(__import__('sys').argv[1] if len(__import__('sys').argv)>1 else '/tmp/t.json'))
p=set(t.get('passed',[]));s=set(b['stable'])
print("stable",len(s),"missing",sorted(s-p))

import json
r=json.load(open('/tmp/ref.json'))
import sys
lv=int(sys.argv[1]) if len(sys.argv)>1 else 2
for k,ws in r.items():
    for w in ws:
        if w[0]==lv: print(k,'|',w[1].replace('auditwheel.',''),w[2],'|',w[3][:int(sys.argv[2]) if len(sys.argv)>2 else 400]); print()

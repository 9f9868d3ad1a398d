bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','pass','passed','tests'):
            if k in x: return names(x[k])
        return [k for k,v in x.items() if v in (True,'pass','PASS','passed')]
    return [y if isinstance(y,str) else y.get('id',y.get('name')) for y in x]
nb,nt=set(names(b)),set(names(t))
print(len(nb),len(nt),'missing:',nb-nt)
P

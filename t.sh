bash /opt/vp/build.sh > /tmp/build.log 2>&1 || tail -20 /tmp/build.log
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1; tail -3 /tmp/test.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    for k in ('pass','passed','stable','tests'):
        if k in x: return x[k]
    return x
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()},{k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
bs=set(names(b)); os_=set(names(o)); print('missing:',bs-os_)
P

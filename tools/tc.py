import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
print(sorted(set(b['stable'])-set(t['passed'])) or 'pass')

"""regenerates MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/lib')
from props import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
m = dict(version=1, setup_cmd='python3 lib/build.py', checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, technique=c['technique'], level='exploration', level_note=c['note'] + '; generated-input search, no proof of absence'))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built for it yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

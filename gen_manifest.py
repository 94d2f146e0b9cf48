#!/usr/bin/env python3
# Writes MANIFEST.json from the table of checks.
import json,os
CH=json.load(open('/verif/checks/table.json'))
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]
for c in CH['checks']:
    pid=c['property']; f='checks/'+pid.lower()+'.py'
    checks.append(dict(property=pid,quick_cmd=f'python3 {f}',thorough_cmd=f'VERIF_TIER=thorough python3 {f}',technique=c['technique'],level='model_checking',level_note=c['note']))
done={c['property'] for c in checks}
na=[dict(property=p,reason=CH['na'].get(p,'no check built yet')) for p in props if p not in done]
json.dump(dict(version=1,setup_cmd='python3 bin/build.py',hooks=dict(guard='VP_VERIF',enable='-DVP_VERIF in the CMake flags of bin/build.py (no hook is in use)',source_commits=[]),checks=checks,not_applicable=na,notes='Repairs made in /repo are listed in known/findings.json'),open('/verif/MANIFEST.json','w'),indent=1)

#!/bin/bash
# summary of evidence
python3 - "$@" <<'P'
import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); c=e['coverage']
    print(p,'viol',e['violations'],'wall',e['wall_s'],'exh',c['exhaustive'],'notrep',c['candidates_not_reproduced'])
    for h in c['harnesses']: print('  ',h['harness'],'wall',h['wall_s'],'paths',h['paths'],'q',h['queries'],'unk',h['unknown'],'solv',h['solver_s'],'cu',h['check_unknown'],'lost',h['lost'],h['lostmsg'],'stop',h['stopped'],h['cover'], {k:v for k,v in (h['assertions'] or {}).items() if v[1]})
    for i in c['inconclusive']: print('   !',i[:300])
P

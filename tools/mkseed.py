#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: turns the working tree changes of /repo into /verif/seeded/ID/patch.diff and resets them. Needs/what from env."""
import sys,os,subprocess,json
i,p=sys.argv[1:3]
d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
diff=subprocess.check_output(['git','-C','/repo','diff'],text=True)
assert diff.strip()
open(d+'/patch.diff','w').write(diff)
subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
json.dump({'property':p,'needs':os.environ['NEEDS'],'what_it_breaks':os.environ['BREAKS']},open(d+'/meta.json','w'),indent=1)
open(d+'/demo.sh','w').write('#!/bin/bash\n# run in /repo after the build\nexec node -e "require(\'module\')" -r "$(dirname "$0")/demo.js"\n' if False else '#!/bin/bash\nNODE_PATH=/repo/node_modules:/repo/packages/${DEMO_PKG:-openapi-generator}/node_modules exec node "$(dirname "$0")/demo.js"\n')

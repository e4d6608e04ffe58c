import json,subprocess,sys
c=subprocess.run(['git','-C','/repo','rev-parse','--short','HEAD'],capture_output=True,text=True).stdout.strip()
k=json.load(open('/verif/known_findings.json'))
k['fixed'].append(f'fixed: property={sys.argv[1]} {c} {sys.argv[2]}')
open('/verif/known_findings.json','w').write(json.dumps(k,indent=1)+'\n')

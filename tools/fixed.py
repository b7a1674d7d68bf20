"""tools/fixed.py PROP 'commit subject part' 'what failed' - add a fixed entry"""
import json,subprocess,sys
p,msg,what=sys.argv[1:4]
k=json.load(open('KNOWN_FINDINGS.json'))
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()]
h=[x[0] for x in log if msg in x[1]]; assert len(h)==1,h
k['fixed'].append(f"fixed: property={p} {h[0]} {what}")
json.dump(k,open('KNOWN_FINDINGS.json','w'),indent=1); open('KNOWN_FINDINGS.json','a').write("\n")

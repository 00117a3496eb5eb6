# Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json.
import json,glob,os
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| planted bug | what it breaks | needs |','| --- | --- | --- |']
for d in sorted(glob.glob(v+'/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(d)),m['what_it_breaks'],m['needs']))
s=open(v+'/DESIGN.md').read()
a,b='<!-- seeds -->\n','<!-- /seeds -->'
i,j=s.index(a)+len(a),s.index(b)
open(v+'/DESIGN.md','w').write(s[:i]+'\n'.join(rows)+'\n'+s[j:])

"""Summarise the obligations of the given properties (default: all with contracts)."""
import json, subprocess, sys, glob, os
ps=[a for a in sys.argv[1:] if not a.startswith('-')] or [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob('contracts/p*.py'))]
for p in ps:
    r=subprocess.run(['python3-vt','-m','pyvc.run',p,'--tier','quick'],capture_output=True,text=True)
    try: d=json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: print(p,'CRASH',r.stdout[-500:],r.stderr[-1500:]); continue
    c={}
    for o in d['obligations']: c[o['status']]=c.get(o['status'],0)+1
    print(p,c,'paths',d['paths'],'wall',d['wall'],'err',d['error'])
    for o in d['obligations']:
        if o['status']!='proved' or '-v' in sys.argv: print('   ',o['status'],o['function'].split('.')[-1],'|',o['name'], (o.get('detail') or o.get('model') or '') if o['status']!='proved' else '')
    for u in d['unsupported']: print('    UNSUPPORTED',u)
    for u in d['bounded']: print('    BOUNDED',u)

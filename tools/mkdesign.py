import json,glob,os,subprocess
os.chdir('/verif')
tab=subprocess.run(['/opt/venv/bin/python','tools/summary.py'],capture_output=True,text=True).stdout
titles={json.loads(l)['id']:json.loads(l)['title'] for l in open('properties.jsonl')}
claims=json.load(open('tools/claims.json'))
known=json.load(open('known_findings.json'))
head=open('tools/design_head.md').read()
rows=[]
for l in tab.splitlines():
    if not l.startswith('| C'): continue
    c=[x.strip() for x in l.strip().strip('|').split('|')]
    cl=claims[c[0]]; cl=cl if isinstance(cl,str) else cl[1]
    rows.append(f"| {c[0]} | {titles[c[0]]} | {c[1]} | {cl} | {c[3]} |")
funcs=[]
for l in tab.splitlines():
    if l.startswith('| C'):
        c=[x.strip() for x in l.strip().strip('|').split('|')]
        funcs.append(f"* **{c[0]}**: {c[2]}")
seeds=[]
for d in sorted(glob.glob('seeded/*')):
    m=json.load(open(d+'/meta.json')); seeds.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} |")
fx=[f"* {k['what']}" for k in known if k['status']=='fixed']
kn=[f"* property={k['property']} contract `{k['contract']}`: {k['what']}" for k in known if k['status']!='fixed']
out=head.replace('@@TABLE@@','\n'.join(rows)).replace('@@FUNCS@@','\n'.join(funcs)).replace('@@SEEDS@@','\n'.join(seeds)).replace('@@FIXED@@','\n'.join(fx)).replace('@@KNOWN@@','\n'.join(kn))
open('DESIGN.md','w').write(out)

"""Writes DESIGN.md from tools/design, the literals of the checks and the planted bugs."""
import json,os,ast,glob
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props={}
for l in open('properties.jsonl'):
    p=json.loads(l); props[p['id']]=p

lits={}
for f in sorted(glob.glob('sa/checks/c*.py')):
    cid=os.path.basename(f)[:-3].upper(); d={}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name):
            try: d[n.targets[0].id]=ast.literal_eval(n.value)
            except Exception: pass
    lits[cid]=d
seeds={}
for m in sorted(glob.glob('seeded/*/meta.json')):
    j=json.load(open(m)); seeds.setdefault(j['property'],[]).append((m.split('/')[1],j))
head=open('tools/design/head.md').read()
out=[head,'\n## Per-property design\n']
why=json.load(open('tools/design/why.json'))
for cid in sorted(props):
    p=props[cid]; d=lits.get(cid)
    out.append('### %s — %s\n'%(cid,p['title']))
    if not d:
        out.append(why[cid]+'\n'); continue
    out.append('*Technique.* %s.\n'%d['TECHNIQUE'])
    out.append('*What is decided.* %s.\n'%d['EXPLANATION'].rstrip('.'))
    out.append('*Bounds and trust.* %s\n'%d['NOTE'])
    if cid in why: out.append(why[cid]+'\n')
    s=seeds.get(cid,[])
    out.append('*Planted bugs caught.* '+('; '.join('`%s` (%s)'%(i,j['what_it_breaks'].rstrip('.')) for i,j in s) if s else 'none kept')+'.\n')
out.append(open('tools/design/tail.md').read())
open('DESIGN.md','w').write('\n'.join(out))

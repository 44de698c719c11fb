import json, re, os, glob
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
T={p['id']:p['title'] for p in props}
man=json.load(open(V+'MANIFEST.json'))
tech={c['property']:c['technique'] for c in man['checks']}
rules={}
for f in sorted(glob.glob(V+'yuflow/checks/c*.py')):
    rules['C'+os.path.basename(f)[1:3]]=re.findall(r"rep\.rule\('([A-Z]\d+)', '((?:[^'\\]|\\.)*)'", open(f).read())
seeds={}
for d in sorted(glob.glob(V+'seeded/*/meta.json')):
    m=json.load(open(d)); seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(d)), m['what_it_breaks'], m['needs']))
body=open('/verif/tools/design_body.md').read()
per=open('/verif/tools/design_per.md').read()
text={}
for part in re.split(r'(?m)^== ', per)[1:]:
    i,_,t=part.partition('\n'); text[i.strip()]=t.strip()
out=body
sec=[]
for i in sorted(tech):
    sec.append('### %s %s\n' % (i, T[i]))
    sec.append('Technique: %s.\n' % tech[i])
    sec.append(text.get(i,'')+'\n')
    sec.append('Rules: '+'; '.join('**%s** %s' % r for r in rules[i])+'.\n')
    if i in seeds:
        sec.append('Planted bugs: '+'; '.join('`%s` (%s; needs %s) - caught by this check' % s for s in seeds[i])+'.\n')
out=out.replace('@@PER@@','\n'.join(sec))
na='\n'.join('- **%s %s**: %s.' % (n['property'],T[n['property']],n['reason']) for n in man['not_applicable'])
out=out.replace('@@NA@@',na)
fx='\n'.join('- '+l[7:].strip() for l in open(V+'known-findings.txt') if l.startswith('fixed:'))
out=out.replace('@@FIXED@@',fx)
open(V+'DESIGN.md','w').write(out)

import os, subprocess, json, sys
def run(bugs, only=None):
    for b in bugs:
        id=b['id']
        if only and id not in only: continue
        d='/verif/seeded/'+id
        os.makedirs(d,exist_ok=True)
        subprocess.run(['git','-C','/tmp/pr','checkout','-q','--','.'],check=True)
        ok=True
        for f,o,n in b['edits']:
            p='/tmp/pr/'+f
            s=open(p).read()
            if s.count(o)!=1:
                print(id,'edit does not match once:',s.count(o),f,repr(o)[:80]); ok=False; break
            open(p,'w').write(s.replace(o,n))
        if not ok: continue
        if 'js' in b:
            open(d+'/demo.js','w').write(b['js'].lstrip('\n'))
        else:
            open(d+'/main.go','w').write(b['main'].lstrip('\n'))
            subprocess.run(['gofmt','-w',d+'/main.go'])
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
        r=subprocess.run(['bash','/verif/tools/plant/plant.sh',id],capture_output=True,text=True)
        print(r.stdout.strip(),r.stderr.strip())

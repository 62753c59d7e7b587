import subprocess,sys,re,os
base='d64d1ff'
for id in (sys.argv[1:] or sorted(os.listdir('/verif/seeded'))):
    p='/verif/seeded/%s/patch.diff'%id
    f=None;orig=mine=0;new=0
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith(('---','+++','diff','index')) or f is None: continue
        if l.startswith('-'):
            b=subprocess.run(['git','-C','/repo','blame','-s','-L%d,%d'%(n,n),'HEAD','--',f],capture_output=True,text=True).stdout.split()[0]
            r=subprocess.run(['git','-C','/repo','merge-base','--is-ancestor',b.lstrip('^'),base]).returncode
            if r==0: orig+=1
            else: mine+=1
            n+=1
        elif l.startswith('+'): new+=1
        else: n+=1
    print(id,'removes original',orig,'mine',mine,'adds',new)

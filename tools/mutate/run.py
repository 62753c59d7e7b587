#!/usr/bin/env python3
"""run.py OUT WORKERS FILE...: tries every mutation of the files (see main.go) and writes
to OUT which ones the checks of the properties they are about do not notice."""
import os, subprocess, sys, threading, queue, shutil, time
ROOT='/verif'
CHK={
'verifiable/util_path.go':'core:P01,M02','merkle/util_merkle.go':'core:L02,L03,P02,M02,M04,M03,L04,L05',
'verifiable/service.go':'core:S01,S04,L06','verifiable/service_log_add_entry.go':'core:L06,S01,S04,S02,M06',
'verifiable/service_log_consistency_proof.go':'core:L03,L05,S01,S04,C01,S03','verifiable/service_log_fetch_entries.go':'core:L07,S05,S01,M05,S04,S03',
'verifiable/service_log_inclusion_proof.go':'core:L02,L04,S01,S04,C01,S03','verifiable/service_log_tree_hash.go':'core:L01,S01,S04,S03',
'verifiable/service_map_get_value.go':'core:M03,M04,M01,S05,S01,S04,S03','verifiable/service_map_set_value.go':'core:M01,S01,M05,S04,J01,M06',
'verifiable/service_map_tree_hash.go':'core:M02,S01,M06,S04,S03','verifiable/util_fetch_proofs.go':'core:L02,L03,L01,M02,M03,S03',
'verifiable/insertion_log.go':'core:L01,L06,M05,L02,S03','verifiable/insertion_map.go':'core:M01,M02,M03,M05,S03',
'verifiable/util_service_data.go':'core:L01,M01,S02,L07,S03','verifiable/util_permissions.go':'core:S04,S05,M05,S02,S01',
'verifiable/util_json.go':'core:J01,A01,M05,A02,S01','verifiable/util_map_audit.go':'core:A01,A02',
'verifiable/api_highlevel_log.go':'core:C01,L07,L02,L03,A01 net:C02 conc:B03','verifiable/api_highlevel_map.go':'core:C01,M06,M03,M01,A01 net:C02',
'verifiable/api_highlevel_wrapper.go':'core:C01,L02,M01,M06,M03,L07,L06,S05 net:C02 conc:B03','verifiable/api_headers.go':'core:C01,S05',
'verifiable/authorization_headers.go':'core:S05','verifiable/util_map_tree_state.go':'core:M06,A01,C01',
'oracle/policy/authorization_static.go':'core:S04,S05','oracle/policy/authorization_all.go':'core:S05,L01',
'mutator/instant/mutator_instant.go':'core:L06,M01,S03 conc:B03','mutator/batch/mutator_batch.go':'conc:B01,B02',
'storage/memory/storage_memory.go':'core:L06,M01,S02 store:D01 conc:D04','storage/bolt/storage_bolt.go':'store:D01,D03,D02 conc:D04',
'storage/badger/storage_badger.go':'store:D01,D03,D02 conc:D04','storage/postgres/storage-postgres.go':'store:D01,D03,D02 conc:D04',
'server/httprest/server_http_handler.go':'net:T03,T01','server/httprest/client_http_rest.go':'net:T01,C02','server/httprest/server_http_rest.go':'server:V01',
'server/grpc/client_grpc.go':'net:T02 server:V01','server/grpc/server_grpc.go':'net:T02 server:V01','cmd/vdbserver/vdbserver-main.go':'server:V01'}
out=open(sys.argv[1],'a'); nw=int(sys.argv[2]); lock=threading.Lock(); q=queue.Queue()
done=set()
if os.path.exists(sys.argv[1]+'.done'): done=set(open(sys.argv[1]+'.done').read().split('\n'))
dl=open(sys.argv[1]+'.done','a')
for f in sys.argv[3:]:
    n=int(subprocess.check_output(['/tmp/mutate','/repo/'+f]))
    for i in range(n):
        if '%s %d'%(f,i) not in done: q.put((f,i))
cnt={'killed':0,'nobuild':0,'SURVIVED':0,'NOANSWER':0}
def worker(w):
    d='/tmp/mut/%d'%w; r=d+'/repo'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo',r],check=True)
    env=dict(os.environ,VERIF_REPO=r,VERIF_EVIDENCE=d+'/ev',VERIF_SEED='1',VERIF_TIER='quick')
    while True:
        try: f,i=q.get_nowait()
        except queue.Empty: break
        p=subprocess.run(['/tmp/mutate','/repo/'+f,str(i)],capture_output=True)
        open(r+'/'+f,'wb').write(p.stdout)
        res='SURVIVED'; by=''
        b=subprocess.run(['bash','-c','. /verif/env.sh; cd %s; go build -o /dev/null ./%s'%(r,os.path.dirname(f))],capture_output=True,env=env)
        if b.returncode: res='nobuild'
        else:
            for grp in CHK[f].split():
                bin_,ids=grp.split(':')
                for id in ids.split(','):
                    t=time.time()
                    try: c=subprocess.run(['bash',ROOT+'/run.sh',bin_,id],capture_output=True,env=env,timeout=900,cwd=ROOT)
                    except subprocess.TimeoutExpired: res='NOANSWER'; by=id+' timeout'; break
                    if c.returncode==1: res='killed'; by=id; break
                    if c.returncode!=0: res='NOANSWER'; by='%s exit %d %s'%(id,c.returncode,c.stdout.decode(errors='replace')[-300:]); break
                if res!='SURVIVED': break
        with lock:
            cnt[res]+=1
            if res in('SURVIVED','NOANSWER'):
                out.write('%s #%d %s %s\n'%(res,i,p.stderr.decode().strip().replace('/repo/',''),by)); out.flush()
            dl.write('%s %d\n'%(f,i)); dl.flush()
            if sum(cnt.values())%25==0: print(cnt,f,i,flush=True)
        subprocess.run(['cp','/repo/'+f,r+'/'+f])
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=worker,args=(w,)) for w in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
print(cnt)

import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import vlib,time,os,shutil
name,mods,spec,aspect,ms,lim=sys.argv[1],sys.argv[2].split(','),sys.argv[3],sys.argv[4],int(sys.argv[5]),int(sys.argv[6])
args=sys.argv[7:]
t=time.time()
try: exe=vlib.build(name,[name]+os.environ.get('WITH','').split()+(['uringsim'] if os.environ.get('IO')=='iouring' else []),mods,io=os.environ.get('IO','epoll'),plain="NOPLAIN" not in os.environ)
except Exception as e: print(str(e)[:3000]); sys.exit(1)
d='/tmp/tr_'+__import__('os').environ.get('TAG','')+name; shutil.rmtree(d,ignore_errors=True)
files,st=vlib.run_driver(exe,d,1,ms,args); print(st)
parts,total,used=vlib.split(files,8,d+'/p',lim); print(total,used,time.time()-t)
rej,s=vlib.validate(spec,spec.split('/')[-1]+'.cfg',parts,aspect,dfs='dfs' in os.environ); print(len(rej),s,time.time()-t)
import collections,json
c=collections.Counter(json.dumps(json.loads(x)['ev'][p-1]) if p<=len(json.loads(x)['ev']) else 'END' for x,p in rej)
for k,v in c.most_common(8): print(v,k)
rej.sort(key=lambda x:len(x[0]))
for x,p in rej[:1]:
    print(x[:100]); print(vlib.show(x,p))
vlib.cleanup()
json.dump(rej,open('/tmp/rej_'+name+'.json','w'))

# par.sh module entry nshards time [extra]
m=$1; e=$2; n=$3; t=$4; shift 4
seq 0 $((n-1)) | xargs -P 8 -I{} sh -c "/verif/build/symex $m --entry=$e --out=/tmp/o_{}.json --time=$t --shard={}/$n $* >/tmp/o_{}.log 2>&1"
python3 - $n <<'P'
import json,sys
n=int(sys.argv[1]); T={}; V={}; inc=[]; mx=[]
for i in range(n):
    try: j=json.load(open('/tmp/o_%d.json'%i))
    except Exception as ex: print(i,'no json',open('/tmp/o_%d.log'%i).read()[-300:]); continue
    for k in('paths','killed_by_assume','forks','instructions','queries','sat','unsat','solver_s','wall_s','cross_checked_by_z3','by_z3','asserts_solver','asserts_folded'): T[k]=T.get(k,0)+j[k]
    mx.append((j['wall_s'],i))
    if not j['complete']: inc.append((i,j['why']))
    for v in j['violations']: V.setdefault((v['kind'],v['msg'],v['loc']),[]).append((i,v))
print(T); print('incomplete',inc); print('slowest',sorted(mx)[-5:])
for k,v in V.items(): print('VIOL',k,len(v),v[0][1]['syms'][:30],v[0][1]['stack'][:300])
P

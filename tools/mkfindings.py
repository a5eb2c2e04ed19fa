import subprocess
log=subprocess.run("git -C /repo log --reverse --format=%h:::%s",shell=True,capture_output=True,text=True).stdout.splitlines()
P={'8ed5230':'C27','94451ea':'C02','d1bc3c2':'C12','181cb95':'C29','bf8a285':'C01','20b7e52':'C02','ef10171':'C02','ad57977':'C06','fd987a0':'C04','08dcda5':'C05','5ddb085':'C04','db21590':'C13','09fd9a5':'C07','7e20095':'C07','f352799':'C07','fb8ed54':'C09','ff0012e':'C08','e23a460':'C26','2ee6d4f':'C02','b1dd4db':'C04','fa00c19':'C26'}
BYSUB={'KVS sync waited for processes removed':'C21','group reductions mismatched with processes outside':'C04','setting a KVS value which':'C19','conflicting binary KVS':'C18','synchronising a KVS without':'C18','changing a KVS key repeatedly':'C18','KVS removals failed':'C19','logging KVS changes':'C26','keys and values of a KVS':'C29','publishing a 3d space':'C20','index spaces got from':'C20','default names of index spaces':'C29','cloned groups could not':'C16','block partitioner assigned everything':'C08','intersection and containment of empty':'C10','memory areas of a range list could only':'C09','migration of partitionings renumbered':'C17','intersection filter lost':'C11','element addresses were wrong':'C14','initialisation used truncated':'C03','provided memory was used for two':'C15','memory of reservations was never':'C15','laik_free leaked memory':'C15','async receives could overwrite':'C04','print the name of the other partitioning':'C26','keep logging to a log file usable':'C26','panics were hidden':'C26','profiling never measured':'C28','profiling output files':'C28','library handles of agents':'C28','load an agent from a function':'C28','agents were never detached':'C28','failed nodes reported':'C28','the simple agent wrote':'C28','the single backend ignored':'C06','freeing an action sequence without':'C06','reductions without input':'C06','the tcp backend only supported':'C06','checked an uninitialised buffer':'C23','overlapping groups mixed up':'C06','KVS entries were truncated, overflowed':'C18','large elements and indexes overflowed':'C06','requests arriving during a resize':'C21','arbitrary clients could crash':'C22','requests with complex patterns':'C22','many connections from clients':'C22','requests to remove processes got lost':'C21','joining while more processes leave':'C21','processes on hosts with long names':'C21','process id written with profiles':'C28','location synchronization after growth':'C21','markov examples failed with indirection':'C24','empty ranges added by a partitioner':'C24','propagation1d example used':'C24','spmv2 example tried':'C24','split of a tcp communicator':'C23','shutdown flag of the tcp':'C23','tcp backend got lost when':'C23','tcp backend shared a static':'C23','default names of objects':'C29','switching partitionings leaked':'C29','laik_rangelist_free leaked':'C29','laik_free_space leaked':'C29','setting a value taken':'C29'}


out=["# Genuine defects of LAIK found by the checks. 'fixed:' entries were repaired in /repo and suppress nothing.",
"# 'known:' entries (none suppresses anything but its exact key): known: property=<id> key={<key>} <what fails>"]
for l in log:
    h,s=l.split(':::',1)
    if not s.startswith('fix:') or any('Revert "'+s+'"' in x for x in log): continue
    p=P.get(h) or next(v for k2,v in BYSUB.items() if k2 in s)
    out.append(f"fixed: property={p} {h} {s[5:]}")
k='/verif/KNOWN_FINDINGS.txt'
try: out+= [l.rstrip() for l in open(k) if l.startswith('known:')]
except FileNotFoundError: pass
open(k,'w').write("\n".join(out)+"\n")

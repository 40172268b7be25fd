#!/usr/bin/env python3
# Writes the "fixed:" lines of known-findings.jsonl from the fix commits in /repo.
import subprocess, re
P = {
'b41e981':'C08','43a0dfa':'C08','f8e921c':'C11','0601254':'C11','206a427':'C08','1f0a835':'C01','aae39f2':'C04','4d1f2d6':'C02','d358df0':'C14',
'0e92d24':'C14','1da7d65':'C14','9a30436':'C16','b695743':'C06','fe0f037':'C02','f22674b':'C06','fddba10':'C11','35a7af5':'C11','fe5ab38':'C11',
'f40350d':'C11','61591b1':'C06','82f4c31':'C06','64ba25d':'C10','2f56ba7':'C08','1710a37':'C08','ed1e0da':'C08','8e45701':'C11','6e036bf':'C09',
'78ddeb7':'C09','945e878':'C11','2ac1d21':'C15','ab2cd9f':'C15','cf52d0d':'C03','c4ba580':'C11','9fc0fcb':'C12','c61bc1b':'C12','0d9c106':'C11',
'03204b6':'C07','d31537d':'C12','b30263f':'C12','6034b45':'C07','4012910':'C12','7c99de8':'C07','46a5d01':'C07','137d0f9':'C12','fffebf6':'C01','bc8cb02':'C12','31810cd':'C12','2056a66':'C17','4488a23':'C17','e914a67':'C17','e40fc39':'C06', '4d92ce8': 'C12', 'fa47d4e': 'C13', 'e284592': 'C12', 'fffd974': 'C14', '783a557': 'C02', 'a2acc80': 'C01', '8641339': 'C12', '3d0acc8': 'C14', '195f8d3': 'C10', '93d7fa9': 'C02'}
out = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','4764d38..HEAD'],text=True).splitlines()
lines=[]
for l in out:
    h,s=l.split(' ',1)
    h7=h[:7]
    p=P.get(h7)
    if p is None:
        m=re.search(r'\((C\d\d)\)',s); p=m.group(1) if m else None
    if p is None: print('no property for',l); continue
    lines.append(f'fixed: property={p} {h7} {s.removeprefix("fix:").strip()}')
path='/verif/known-findings.jsonl'
try: old=[l for l in open(path).read().splitlines() if l.startswith('{')]
except FileNotFoundError: old=[]
open(path,'w').write('\n'.join(lines+old)+'\n')
print(len(lines))

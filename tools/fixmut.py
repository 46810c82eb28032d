"""prefix continuation lines of tools/mutants.txt"""
p='/verif/tools/mutants.txt'
out=[];m=None;prev=''
for l in open(p).read().split('\n'):
    if l.startswith(('### ','+++ ','#')) and not l.startswith('#['): m=None; out.append(l); continue
    if l.startswith(('<','>')): m=l[0]; out.append(l); continue
    out.append(m+l if m else l)
while out and out[-1] in ('','<','>'): out.pop()
open(p,'w').write('\n'.join(out)+'\n')

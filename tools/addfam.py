"""addfam.py <Family>: dispatches a new family module in spec/Indicators.tla."""
import sys
n=sys.argv[1]; p='/verif/spec/Indicators.tla'; t=open(p).read()
L=t.split('\n')
i=[k for k,l in enumerate(L) if l.startswith('EXTENDS')][0]; L[i]+=', Ind'+n
out=[]
for k,l in enumerate(L):
    out.append(l)
    for a,args in (('Valid','(ind, o)'),('Start','(ind, o)'),('Init','(ind, o)'),('Step','(ind, o, s, b, t)')):
        if '->' in l and l.rstrip().endswith(a+args) and not (k+1<len(L) and L[k+1].rstrip().endswith(a+args)):
            out.append('                   [] ind \\in %sNames -> %s%s%s'%(n,n,a,args))
open(p,'w').write('\n'.join(out))

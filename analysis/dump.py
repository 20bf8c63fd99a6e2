"""Developer aid: dump.py FN [opaque...] [-n LINES] [-w WIDTH] [-v] prints the analysed graph of a function."""
import sys, time
import extract
from facts import *
from query import *

av = sys.argv[1:]
def opt(k, d):
    if k in av:
        i = av.index(k)
        v = int(av[i + 1])
        del av[i:i + 2]
        return v
    return d
N, W = opt('-n', 40), opt('-w', 170)
F = Facts(extract.facts_dir('browser' if 'browser' in av else 'main'))
args = [a for a in av if a not in ('browser', '-v', '-l')]
for fn in F.find(args[0]):
    if '::test' in fn.path:
        continue
    t = time.time()
    try:
        A = An(F, fn, opaque=tuple(args[1:]))
    except Budget as e:
        print('BUDGET', fn.path, e)
        continue
    print('##', fn.path, 'nodes', A.g.n, 'edges', len(A.edges), '%.2fs' % (time.time() - t))
    out = []
    if '-v' in av:
        for (a, b, l, e) in A.edges:
            out.append(f'  {a}->{b} ' + (lit_show(l) if l else '') + (repr(e) if e else ''))
    else:
        for e in A.evedges:
            if e[3].kind != 'panic':
                x = repr(e[3])
                if x not in out:
                    out.append(x)
        if '-l' in av:
            out += sorted({'LIT ' + lit_show((l[0], True)) for l in A.lits()})
    for x in out[:N]:
        print('  ', x[:W])
    if len(out) > N:
        print('   …', len(out) - N, 'more')

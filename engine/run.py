import sys, os, time
sys.path.insert(0, os.path.dirname(__file__))
import mir, interp
p = mir.Prog(os.environ.get('VERIF_DUMP','/tmp/md/out/dynparser.json'))
for path in sys.argv[1:]:
    for k in p.by_path(path):
        t=time.time()
        it = interp.Interp(p)
        g = it.analyse(k)
        print(interp.show_graph(g))
        print('opaque', it.opaque_calls, 'cut', it.cutcalls, 'steps', it.total, time.time()-t)

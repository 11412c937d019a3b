"""proofs.py P01 P02 ...: only the proofs of the given properties (those about building share one run)."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
sys.setrecursionlimit(20000)
import build, check, registry

build_props = [p for p in sys.argv[1:] if p in registry.BUILD]
groups = ([build_props] if build_props else []) + [[p] for p in sys.argv[1:] if p not in registry.BUILD]
for g in groups:
    t = time.time()
    us, seen = [], set()
    for p in g:
        for u in registry.units(p):
            k = (type(u).__name__, getattr(u, 'name', None), str(getattr(u, 'e', '')))
            k = k if not isinstance(u, __import__('units').BuildUnit) else 'build'
            if k not in seen:
                seen.add(k)
                us.append(u)
    registry.PROPS[g[0]]['with'] = tuple(g)
    dumps = {}
    try:
        for r in dict.fromkeys(getattr(u, 'roots', 'roots') for u in us):
            dumps[r] = build.dump(r)[0]
    except build.BuildError as e:
        print('%s BUILD FAILS %s' % (g, str(e)[-800:]))
        continue
    res, done = check.verify(g[0], us, dumps, time.time() + 600)
    n = bad = 0
    for r in list(res) + list(done.values()):
        for what, why in r['undecided']:
            print('   undecided %s: %s' % (what[:110], why[:230]))
            bad += 1
        for name, kind, status, sec, detail, model in r['items']:
            n += 1
            if status != 'proved':
                print('   %s %s %s' % (status, name[:150], ('(imprecise: %s)' % r['imprecise'][0][:100]) if r['imprecise'] else ''))
                bad += 1
    print('%s: %d obligations, %d open, %.0f s' % (','.join(g), n, bad, time.time() - t))

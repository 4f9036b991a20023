"""verify.py MODULE.json HARNESS OPTS.json: verifies one harness, prints a JSON report."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import exec as E
from core import STATS, BACKENDS
from ir import Module


def covers_declared(m, harness):
    """labels of the __vf_cover calls reachable (statically) from the harness"""
    out, seen, todo = set(), set(), [harness]
    while todo:
        n = todo.pop()
        if n in seen or n not in m.funcs or m.funcs[n].blocks is None:
            continue
        seen.add(n)
        for blk in m.funcs[n].blocks:
            for i in blk:
                c = i.get('callee')
                if c == '__vf_cover':
                    a = i['args'][0]
                    g = m.globals[a[1]]
                    out.add((a[1], a[2] if len(a) > 2 else 0))
                elif c:
                    todo.append(c)
    return out


def main():
    path, harness, opts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    t0 = time.time()
    m = Module(path)
    ex = E.Exec(m, mode=opts.get('mode', 'prove'), unroll=opts.get('unroll', 8), deadline=t0 + opts.get('deadline', 300),
                max_bytes=opts.get('max_bytes'), ob_ms=opts.get('ob_ms', 20000), feas_ms=opts.get('feas_ms', 3000))
    ex.first_only = opts.get('first_only', False)
    ex.debug = opts.get('debug', False)
    rep = {'harness': harness, 'mode': ex.mode, 'error': None}
    try:
        ex.run(harness)
    except E.Stop as e:
        ex.limits.append(str(e))
    except RecursionError:
        ex.limits.append('recursion limit of the verifier')
    except MemoryError:
        ex.limits.append('memory limit of the verifier')
    except Exception as e:
        import traceback
        traceback.print_exc()
        ex.limits.append('internal: %s: %s' % (type(e).__name__, e))
    missing = []
    for g, off in covers_declared(m, harness):
        s = ex.bi.cstr(ex.base, ex.gptr(g, off))
        if s not in ex.covers:
            missing.append(s)
    rep.update(paths=ex.paths, steps=ex.steps, obligations=ex.obligations, by_solver=ex.by_solver,
               queries=STATS.queries, solver_s=round(STATS.time, 2), wall_s=round(time.time() - t0, 2),
               violations=[dict(label=v.label, where=v.where, inputs=v.inputs, kind=v.kind) for v in ex.violations[:40]],
               unknowns=[list(u) for u in ex.unknowns[:40]], limits=ex.limits[:20], missing_covers=missing, covers=sorted(ex.covers),
               bounded=[[list(k), n] for k, n in ex.bounded[:50]],
               replaced=sorted(map(list, ex.replaced)), summarised=[list(k) for k in ex.summarised], unrolled=[[list(k), n] for k, n in ex.unrolled.items()],
               functions=sorted({d for (f, d) in ex.entered if f and '/src/' in f}),
               sites=len(ex.sites), backends=BACKENDS)
    print('@@@' + json.dumps(rep))


main()

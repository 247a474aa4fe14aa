"""development aid: CPU time per family / base"""
import importlib, os, sys, time, multiprocessing
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc"))
import core
mod = importlib.import_module("checks." + sys.argv[1].lower())
core._module = mod
def one(t):
    t0 = time.process_time()
    f, r = core._run_task(t)
    a = t[1]
    key = (f, a.get("base") or (a["cases"][0].get("base") if isinstance(a.get("cases"), list) and a["cases"] and isinstance(a["cases"][0], dict) else None) or a.get("fixture") or a.get("kind"))
    return key, time.process_time() - t0, r.n.get("evaluations", 0), r.n.get("violations", 0)
if __name__ == "__main__":
    from concurrent.futures import ProcessPoolExecutor
    tot = {}
    with ProcessPoolExecutor(8, multiprocessing.get_context("fork"), core._init_worker, (mod.__name__,)) as ex:
        for k, t, n, v in ex.map(one, list(mod.plan(sys.argv[2] if len(sys.argv) > 2 else "quick"))):
            a = tot.setdefault(k, [0, 0, 0]); a[0] += t; a[1] += n; a[2] += v
    for k, a in sorted(tot.items(), key=lambda kv: -kv[1][0])[:30]:
        print("%8.1f s %7d %6d  %.1f ms  %s" % (a[0], a[1], a[2], 1000 * a[0] / max(1, a[1]), k))
    print(sum(a[0] for a in tot.values()))

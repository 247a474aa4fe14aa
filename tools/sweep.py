"""development aid: run a whole check and group all violations by message
usage: /opt/venv-pypy/bin/python tools/sweep.py C09 [tier]"""
import importlib, json, os, re, sys, multiprocessing
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc"))
import core
mod = importlib.import_module("checks." + sys.argv[1].lower())
core._module = mod
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
if __name__ == "__main__":
    groups = {}
    from concurrent.futures import ProcessPoolExecutor, as_completed
    ex = ProcessPoolExecutor(8, multiprocessing.get_context("fork"), core._init_worker, (mod.__name__,))
    futs = {ex.submit(core._run_task, t): t for t in mod.plan(tier)}
    if 1:
        for f in as_completed(futs):
            try:
                fam, r = f.result()
            except Exception as e:
                groups.setdefault("died", []).append({"message": "died", "case": str(futs[f])[:200]})
                continue
            for v in r.viols:
                m = v["message"]
                k = re.sub(r"\d+", "N", m.split(":")[0] + m.split("|")[-1] if "|" in m else m)[:300]
                groups.setdefault(k, []).append(v)
    for k, vs in sorted(groups.items(), key=lambda kv: -len(kv[1])):
        vs.sort(key=lambda v: len(json.dumps(core.jsonable(v["case"]))))
        print(len(vs), vs[0]["message"][:300], "\n     ", json.dumps(core.jsonable(vs[0]["case"]))[:300])

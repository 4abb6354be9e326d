#!/opt/venv/bin/python
"""
run.py PROPERTY [--tier quick|thorough] [--facet NAME] [--examples N] [--jobs N]
run.py --replay FILE
Exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
REPO = os.path.abspath(os.environ.get("PV_REPO", "/repo"))  # another tree only for trying out seeded changes
OUT = os.environ.get("PV_OUT", HERE)  # folder of evidence and replays, elsewhere only for trying out seeded changes
SHRINK_S = 40.0
CASE_S = 180


def environment(tmp):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(tmp, "mpl"),
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", TMPDIR=tmp)
    env["PYTHONPATH"] = os.pathsep.join((HERE, REPO, os.path.join(HERE, "vendor")))
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    cache = os.path.expanduser("/opt/vp/mplconfig")
    if os.path.isdir(cache):  # avoid rebuilding the font cache in every process
        for name in os.listdir(cache):
            if name.startswith("fontlist"):
                with open(os.path.join(cache, name), "rb") as f, open(os.path.join(env["MPLCONFIGDIR"], name), "wb") as g:
                    g.write(f.read())
    return env


def load(prop):
    from pv import core
    core.quiet()
    core.assert_repo()
    importlib.import_module(f"pv.{prop.lower()}")
    return core, core.REGISTRY[prop]


def derived_seed(*parts):
    return int(hashlib.sha256("/".join(str(p) for p in parts).encode()).hexdigest()[:15], 16)


# ------------------------------------------------------------------------------------------------ worker

class Stop(KeyboardInterrupt):
    pass


def worker(args):
    core, facets = load(args.prop)
    fct = facets[args.facet]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine, providers
    # independent cases: no mutation of earlier cases (with few cases it piles up copies), no constants taken from source files
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    providers._get_local_constants = lambda: providers.Constants()
    res = dict(evaluations=0, discarded=0, known={}, hashes=set(), labels=collections.Counter(), samples=[],
               violation=None, error=None, all=set())
    state = dict(first=None, best=None, deadline=time.time() + args.budget)

    def one(case):
        now = time.time()
        if state["first"] is not None and now - state["first"] > SHRINK_S:
            raise Stop()
        if state["first"] is None and now > state["deadline"]:
            res["labels"]["<stopped at time budget>"] += 1
            raise Stop()
        with open(args.out + ".cur", "w") as f:
            f.write(core.canonical(case))
        signal.alarm(CASE_S)
        try:
            info = core.execute(fct, case)
        except core.Discard:
            res["discarded"] += 1
            return
        except core.Known as k:
            res["known"][k.key] = res["known"].get(k.key, 0) + 1
            return
        except core.Violation as v:
            text = core.canonical(case)
            if state["first"] is None:
                state["first"] = 0.0 if isinstance(v, TooSlow) else time.time()  # a hang is not shrunk
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, str(v))
            raise
        finally:
            signal.alarm(0)
        res["evaluations"] += 1
        h = core.case_hash(case)
        res["all"].add(h)
        if info.nontrivial:
            if h not in res["hashes"] and len(res["samples"]) < 3:
                res["samples"].append(case)
            res["hashes"].add(h)
        for label in info.labels:
            res["labels"][label] += 1

    class TooSlow(core.Violation):
        pass

    def on_alarm(*_):
        raise TooSlow(f"the case did not finish within {CASE_S} s")

    signal.signal(signal.SIGALRM, on_alarm)
    try:
        if args.shard == 0:
            for case in fct.regress:
                one(case)
        run = given(fct.strategy)(one)
        run = settings(max_examples=args.examples, database=None, deadline=None, report_multiple_bugs=False,
                       print_blob=False, phases=(Phase.generate, Phase.shrink),
                       suppress_health_check=list(HealthCheck))(run)
        hypothesis.seed(args.seed)(run)()
    except Stop:
        pass
    except BaseException as exc:
        if state["best"] is None:
            res["error"] = "".join(traceback.format_exception(exc))
    if state["best"] is not None:
        res["violation"] = dict(case=json.loads(state["best"][0]), message=state["best"][1])
    res["hashes"], res["all"] = sorted(res["hashes"]), sorted(res["all"])
    with open(args.out, "w") as f:
        json.dump(res, f)
    os._exit(0)


# ------------------------------------------------------------------------------------------------ parent

def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f).get("findings", []) if x["property"] == prop]


def save_replay(prop, fct_name, case, message):
    folder = os.path.join(OUT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{fct_name}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, facet=fct_name, case=case, message=message), f, indent=1)
    return path


def parent(args):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = args.tier
    prop = args.prop
    with tempfile.TemporaryDirectory(prefix=f"pv-{prop}-") as tmp:
        env = environment(tmp)
        os.environ.update(env)
        sys.path[:0] = [HERE, REPO, os.path.join(HERE, "vendor")]
        core, facets = load(prop)
        names = [args.facet] if args.facet else list(facets)
        jobs, todo = [], []
        n_jobs = args.jobs or max(1, min(8, os.cpu_count() or 1))
        for name in names:
            n = args.examples or (facets[name].quick if tier == "quick" else facets[name].thorough)
            shards = max(1, min(n_jobs if tier == "thorough" else facets[name].shards or max(1, n_jobs // len(names)), n // 4 or 1))
            for k in range(shards):
                todo.append((name, k, n // shards + (k < n % shards)))
        todo.sort(key=lambda x: x[1])
        budget = args.budget or (300.0 if tier == "quick" else 5400.0)
        results = {name: [] for name in names}
        error, running, stop = None, [], False
        while todo or running:
            while todo and len(running) < (args.slots or n_jobs) and not stop:
                name, k, n = todo.pop(0)
                out = os.path.join(tmp, f"{name}-{k}.json")
                cmd = [PYTHON, os.path.abspath(__file__), prop, "--worker", "--facet", name, "--shard", str(k),
                       "--examples", str(n), "--seed", str(derived_seed(seed, prop, name, k)), "--out", out,
                       "--budget", str(max(5.0, budget - (time.time() - t0)))]
                log = open(out + ".log", "w")
                proc = subprocess.Popen(cmd, env=env, cwd=tmp, stdout=log, stderr=subprocess.STDOUT)
                running.append((proc, name, k, out, log))
            if stop and not running:
                break
            time.sleep(0.02)
            for item in list(running):
                proc, name, k, out, log = item
                if proc.poll() is None:
                    continue
                running.remove(item)
                log.close()
                if os.path.exists(out):
                    with open(out) as f:
                        res = json.load(f)
                elif proc.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL) \
                        and os.path.exists(out + ".cur"):
                    with open(out + ".cur") as f:
                        case = json.load(f)
                    res = dict(evaluations=1, discarded=0, known={}, hashes=[], labels={}, samples=[], all=[], error=None,
                               violation=dict(case=case, message=f"the process crashed with signal {-proc.returncode}"))
                else:
                    with open(out + ".log") as f:
                        res = dict(error=f"worker ended with {proc.returncode}: {f.read()[-3000:]}", evaluations=0, discarded=0,
                                   known={}, hashes=[], labels={}, samples=[], violation=None, all=[])
                results[name].append(res)
                if res["violation"] or res["error"]:
                    stop = True  # first answer decides
                    todo.clear()
            if stop and running and any(r["violation"] for rs in results.values() for r in rs):
                for proc, *_ in running:
                    proc.kill()
                    proc.wait()
                for item in running:
                    item[4].close()
                running.clear()
    violations, evaluations, distinct, alls = [], 0, 0, 0
    samples, per_facet, known_hits = [], {}, collections.Counter()
    for name in names:
        hashes, every, labels = set(), set(), collections.Counter()
        ev = di = 0
        for res in results[name]:
            ev += res["evaluations"]
            di += res["discarded"]
            hashes |= set(res["hashes"])
            every |= set(res["all"])
            labels.update(res["labels"])
            known_hits.update(res["known"])
            if res["error"] and not error:
                error = res["error"]
            if res["violation"]:
                violations.append((name, res["violation"]))
        for res in results[name]:
            if res["samples"]:
                samples.append(dict(facet=name, case=shorten(res["samples"][-1])))
                break
        evaluations += ev
        distinct += len(hashes)
        alls += len(every)
        per_facet[name] = dict(evaluations=ev, distinct=len(every), distinct_nontrivial=len(hashes), discarded=di,
                               rule=facets[name].rule, labels=dict(labels.most_common(40)))
    for finding in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {finding['what']}" +
              (f" (excluded cases in this run: {known_hits.get(finding['key'], 0)})"))
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration",
                    coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct, distinct=alls,
                                  rule="; ".join(f"{n}: {facets[n].rule}" for n in names),
                                  samples=samples, facets=per_facet, known_findings_hit=dict(known_hits)),
                    assumptions=["accelerator-toolbox (pyAT) tracking and numpy are trusted",
                                 "only inputs the library documents or its callers use are generated"],
                    wall_s=round(time.time() - t0, 2), violations=len(violations))
    folder = os.path.join(OUT, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violations:
        name, v = min(violations, key=lambda x: len(json.dumps(x[1]["case"])))
        path = save_replay(prop, name, v["case"], v["message"])
        print(f"facet {name}: {v['message']}")
        print(f"minimal case: {json.dumps(shorten(v['case']))[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if error:
        print(f"harness error in {prop}:\n{error}", file=sys.stderr)
        return 2
    print(f"{prop} held: {evaluations} cases, {distinct} distinct non-trivial, {time.time() - t0:.1f} s")
    if args.verbose:
        print(json.dumps(per_facet, indent=1))
    return 0


def shorten(x, n=40):
    if isinstance(x, list):
        return [shorten(v, n) for v in x[:n]] + (["..."] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    return x


def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop = data["property"]
    with tempfile.TemporaryDirectory(prefix=f"pv-{prop}-") as tmp:
        env = environment(tmp)
        if os.environ.get("PV_REPLAY") != "1":
            env["PV_REPLAY"] = "1"
            return subprocess.call([PYTHON, os.path.abspath(__file__), "--replay", os.path.abspath(path)], env=env)
        core, facets = load(prop)
        try:
            core.execute(facets[data["facet"]], data["case"])
        except core.Violation as v:
            print(f"{v}\nVIOLATION property={prop} replay={path}")
            return 1
        except core.Discard:
            print("case discarded")
            return 0
    print(f"replay of {prop}: held")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--facet")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--slots", type=int, help="processes at the same time (default: jobs)")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    if args.worker:
        return worker(args)
    return parent(args)


if __name__ == "__main__":
    sys.exit(main())

"""check <ID>: run every facet of one property, in parallel worker processes.

exit 0  held on everything explored (known findings may be printed)
exit 1  + "VIOLATION property=<id> replay=<path>"
exit 2  the check itself could not run
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


def bootstrap():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["XLA_FLAGS"] = (
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
        "--xla_backend_optimization_level=1"
    )
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["TQDM_DISABLE"] = "1"
    sys.path[:0] = [REPO_SRC, HERE, os.path.join(ROOT, "checks")]
    import deps

    deps.ensure()


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == prop]


def load(prop):
    return importlib.import_module(prop.lower()).R


def worker(args):
    bootstrap()
    import warnings

    warnings.simplefilter("ignore")
    result = {"facets": [], "probes": {}}
    reg = load(args.property)
    import harness

    for name in args.worker.split(","):
        try:  # every facet is taken by one worker, the next free one
            os.close(os.open(os.path.join(args.claims, name.replace(":", "-").replace("/", "of")), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        if name.startswith("probe:"):
            key = name[6:]
            try:
                reg.probes[key]()
                result["probes"][key] = None
            except Exception as e:  # noqa: BLE001
                result["probes"][key] = f"{type(e).__name__}: {e}"[:400]
            continue
        name, _, part = name.partition("@")
        i, k = map(int, part.split("/")) if part else (0, 1)
        out = harness.run_facet(
            reg.facets[name], args.tier, f"{args.seed}.{i}" if i else args.seed, scale=args.scale / k
        )
        result["facets"].append(
            {
                "facet": name,
                "part": part,
                "evaluations": out.evaluations,
                "nontrivial": sorted(out.nontrivial),
                "samples": out.samples,
                "fail": None
                if out.fail is None
                else {"case": out.fail[1], "error": out.fail[2]},
                "wall_s": round(out.wall, 2),
                "stopped_early": out.stopped_early,
            }
        )
        if out.fail is not None and os.environ.get("VERIF_FAIL_FAST"):
            break
    with open(args.out, "w") as f:
        json.dump(result, f, default=str)
    return 0


def merge(parts):
    """the parts of a facet as one"""
    facets = {}
    for f in parts:
        g = facets.setdefault(f["facet"], f)
        if g is f:
            continue
        g["evaluations"] += f["evaluations"]
        g["nontrivial"] = sorted({*g["nontrivial"], *f["nontrivial"]})
        g["samples"] = g["samples"] + f["samples"]
        g["wall_s"] = max(g["wall_s"], f["wall_s"])
        g["stopped_early"] = g["stopped_early"] or f["stopped_early"]
        if f["fail"] and (not g["fail"] or len(json.dumps(f["fail"]["case"])) < len(json.dumps(g["fail"]["case"]))):
            g["fail"] = f["fail"]
    return list(facets.values())


def replay(args):
    bootstrap()
    with open(args.replay) as f:
        data = json.load(f)
    reg = load(data["property"])
    try:
        reg.facets[data["facet"]].run(data["case"])
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"VIOLATION property={data['property']} replay={args.replay}")
        return 1
    print("replay: the property holds on this case")
    return 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--facet", action="append")
    p.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    p.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    p.add_argument("--replay")
    p.add_argument("--worker")
    p.add_argument("--out")
    p.add_argument("--claims")
    args = p.parse_args()
    args.property = args.property.upper()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.worker:
        return worker(args)
    if args.replay:
        return replay(args)

    t0 = time.time()
    bootstrap()
    # the registry is read here only for facet names: import it in a child-like way
    try:
        reg = load(args.property)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"check {args.property}: cannot load (import failure)")
        return 2
    names = args.facet or list(reg.facets)
    known = known_findings(args.property)
    probes = [] if args.facet else [e["key"] for e in known if e["status"] == "known"]
    missing = [k for k in probes if k not in reg.probes]
    if missing:
        print("known findings without a probe:", missing)
        return 2

    # longest facets first, heavy ones in up to four parts
    jobs = max(1, args.jobs)
    share = sum(reg.facets[n].weight for n in names) / jobs
    tasks = []
    for n in sorted(names, key=lambda n: -reg.facets[n].weight):
        k = min(4, max(1, round(reg.facets[n].weight / share)), reg.facets[n].quick // 20 or 1)
        tasks += [f"{n}@{i}/{k}" for i in range(k)]
    tasks += ["probe:" + k for k in probes]
    jobs = min(jobs, len(tasks))

    tmp = tempfile.mkdtemp(prefix="verif-")
    env = dict(os.environ, MPLCONFIGDIR=os.path.join(tmp, "mpl"), TMPDIR=tmp)
    if args.tier == "quick":  # a quick check ends within 15 minutes on a slow machine, too
        env["VERIF_DEADLINE"] = str(t0 + 540)
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    claims = os.path.join(tmp, "claims")
    os.makedirs(claims)
    procs = []
    results = []
    errors = []
    try:
        for i in range(jobs):
            out = os.path.join(tmp, f"w{i}.json")
            log = open(os.path.join(tmp, f"w{i}.log"), "w")
            cmd = [
                sys.executable,
                os.path.join(HERE, "main.py"),
                args.property,
                "--worker",
                ",".join(tasks),
                "--out",
                out,
                "--claims",
                claims,
                "--tier",
                args.tier,
                "--seed",
                str(args.seed),
                "--scale",
                str(args.scale),
            ]
            pr = subprocess.Popen(
                cmd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=tmp
            )
            procs.append((pr, out, log))
        if os.environ.get("VERIF_FAIL_FAST"):  # used while developing: first violation wins
            while any(pr.poll() is None for pr, *_ in procs):
                time.sleep(0.1)
                done = [out for pr, out, *_ in procs if pr.poll() == 0 and os.path.exists(out)]
                if any(f["fail"] for out in done for f in json.load(open(out))["facets"]):
                    for pr, *_ in procs:
                        if pr.poll() is None:
                            pr.kill()
                    break
        for pr, out, log in procs:
            rc = pr.wait()
            log.close()
            if rc != 0 or not os.path.exists(out):
                with open(log.name) as f:
                    text = f.read()[-4000:]
                errors.append((rc, text))
                continue
            with open(out) as f:
                results.append(json.load(f))
        if not errors and not os.environ.get("VERIF_FAIL_FAST"):
            ran = {f"{f['facet']}@{f['part']}" for r in results for f in r["facets"]} | {"probe:" + k for r in results for k in r["probes"]}
            if set(tasks) - ran:
                errors.append((0, f"not run: {sorted(set(tasks) - ran)}"))
    finally:
        for pr, *_ in procs:
            if pr.poll() is None:
                pr.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    facets = merge([f for r in results for f in r["facets"]])
    violations = []
    for f in facets:
        if f["fail"] is None:
            continue
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        import harness

        path = os.path.join(
            ROOT, "replays", f"{args.property}-{f['facet']}-{harness.case_hash(f['fail']['case'])}.json"
        )
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": args.property,
                    "facet": f["facet"],
                    "case": f["fail"]["case"],
                    "error": f["fail"]["error"],
                    "seed": args.seed,
                },
                fh,
                indent=1,
                default=str,
            )
        violations.append((f, path))

    probe_results = {k: v for r in results for k, v in r["probes"].items()}
    evidence = {
        "property": args.property,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in facets),
            "distinct_nontrivial": len({(f["facet"], h) for f in facets for h in f["nontrivial"]}),
            "rule": reg.rule,
            "samples": [s for f in facets for s in f["samples"][:2]],
            "facets": [
                {
                    "facet": f["facet"],
                    "evaluations": f["evaluations"],
                    "distinct_nontrivial": len(f["nontrivial"]),
                    "wall_s": f["wall_s"],
                    "stopped_early": f["stopped_early"],
                }
                for f in facets
            ],
            "known_findings_still_present": sorted(k for k, v in probe_results.items() if v),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": reg.assumptions,
        "violations": [
            {"facet": f["facet"], "replay": os.path.relpath(path, ROOT)} for f, path in violations
        ],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not args.facet:
        with open(os.path.join(ROOT, "evidence", f"{args.property}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    for f in facets:
        print(
            f"  {f['facet']}: {f['evaluations']} cases, {len(f['nontrivial'])} non-trivial, "
            f"{f['wall_s']} s" + (" (time budget)" if f["stopped_early"] else "")
        )
    for e in known:
        if e["status"] == "known" and probe_results.get(e["key"]):
            print(f"KNOWN-FINDING: property={args.property} {e['what']}")
    for f, path in violations:
        print(f["fail"]["error"])
        print(f"VIOLATION property={args.property} replay={path}")
    if violations:
        return 1
    if errors:
        for rc, text in errors:
            print(f"a worker ended with {rc}:\n{text}")
        return 2
    print(f"{args.property}: held on {evidence['coverage']['evaluations']} cases, {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())

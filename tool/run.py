#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

    run.py PROPERTY [quick|thorough]

Builds the analyser and the specification crate against /repo/mlx9064x (nothing of the
library is ever executed), analyses the entry points listed for the property, and judges the
obligations that carry the property's id. Exit 0: all discharged. Exit 1: VIOLATION. Exit 2: the
check could not decide (an error of the check, never a pass).
"""
import concurrent.futures, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tool"))
sys.modules.setdefault("run", sys.modules[__name__])
import props  # noqa: E402

BUILD = os.path.join(V, "build")
MEMORY = 16 << 30
ENGINE = os.path.join(V, "engine")
ROOTS = os.path.join(V, "roots")


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, ds, fs in os.walk(top):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
            if k not in ("CARGO_HOME",):
                e.pop(k)
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"], env=e)
    if rc:
        raise CheckError("no nightly toolchain: " + out)
    e["LD_LIBRARY_PATH"] = out.strip().splitlines()[-1] + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def prepare(e, config):
    """Build the analyser, then the specification crate; returns (driver, recorded args, hash)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")], cwd=ENGINE, env=e)
        if rc:
            raise CheckError("the analyser does not build:\n" + out[-3000:])
        drv = os.path.join(BUILD, "engine", "release", "mlxsa")
        key = tree_hash([os.path.join(REPO, "mlx9064x"), os.path.join(REPO, "Cargo.toml"), ROOTS, drv])
        args = os.path.join(BUILD, f"args-{config}-{key}")
        tdir = os.path.join(BUILD, f"t-{config}-{key}")
        if not os.path.exists(args):
            # a fresh directory for every state of the sources: nothing stale can be analysed
            for x in os.listdir(BUILD):
                if (x.startswith(f"t-{config}-") or x.startswith(f"args-{config}-")) and key not in x:
                    p = os.path.join(BUILD, x)
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            tmp = args + ".tmp"
            e2 = dict(e, RUSTC_WRAPPER=drv, MLXSA_ARGS=tmp, RUSTFLAGS="-Zalways-encode-mir -Coverflow-checks=on --cap-lints=allow")
            cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--target-dir", tdir]
            if config == "libm":
                cmd += ["--no-default-features", "--features", "libm"]
            rc, out = sh(cmd, cwd=ROOTS, env=e2)
            if rc:
                raise CheckError("the specification crate does not build against /repo:\n" + out[-4000:])
            if not os.path.exists(tmp):
                raise CheckError("the specification crate was not compiled")
            os.rename(tmp, args)
    return drv, open(args).read().split("\n"), key


class Clock:
    """When to give up: at the end of the time allowed, or a while after the first violation."""

    def __init__(self, seconds):
        self.end = time.time() + seconds

    def found(self):
        self.end = min(self.end, time.time() + 60)

    def run(self, cmd, **kw):
        """Run a command until the clock has run out; its output, or None."""
        with tempfile.TemporaryFile("w+") as f:
            if time.time() > self.end:
                return None, ""
            # one runaway analysis must not take the machine's memory
            p = subprocess.Popen(cmd, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY)), stdout=f, stderr=subprocess.STDOUT, text=True, **kw)
            while True:
                try:
                    rc = p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > self.end:
                        p.kill()
                        p.wait()
                        rc = None
                        break
            f.seek(0)
            return rc, f.read()


def analyse(e, drv, args, key, config, root, clock):
    if not isinstance(clock, Clock):
        clock = Clock(clock)
    cache = os.environ.get("MLXSA_CACHE")
    if cache:
        os.makedirs(cache, exist_ok=True)
        cf = os.path.join(cache, f"{config}-{key}-{root}.json")
        if os.path.exists(cf):
            return json.load(open(cf))
    out = os.path.join(BUILD, f"out-{os.getpid()}-{config}-{root}.json")
    try:
        rc, log = clock.run([drv, "--analyze", root, out, "--"] + args, cwd=ROOTS, env=e)
        if "MLXSA_LOG" in os.environ:
            open(os.environ["MLXSA_LOG"], "w").write(log)
        if rc is None:
            return {"root": root, "error": "analyser ran out of time"}
        if rc or not os.path.exists(out):
            return {"root": root, "error": "analyser failed: " + log[-1500:]}
        r = json.load(open(out))[0]
    finally:
        if os.path.exists(out):
            os.remove(out)
    if cache and not r["error"]:
        json.dump(r, open(cf, "w"))
    return r


def norm(s):
    return re.sub(r"\s+", " ", s)


def judge(pid, results, cfg, floors, also=None):
    """-> (violations, errors, counts). `also` names further obligation ids that count, by prefix of the entry point."""
    viol, errs = [], []
    n = {"obligations": 0, "discharged": 0, "instances": {}, "functions": set(), "roots": [], "calls": 0, "blocks": 0, "statements": 0, "joins": 0, "covers": 0, "lib_blocks": 0}
    for r in results:
        root = r["root"]
        if r.get("error"):
            errs.append(f"{root}: {norm(r['error'])[:600]} {' <- '.join(r.get('trail', [])[:6])[:600]}")
            if "groups" not in r:
                continue
        st = r["stats"]
        n["roots"].append({"root": root, "config": cfg, "ms": st["ms"], "ends": r["ends"], "statements": st["statements"], "joins": st["joins"]})
        for k in ("blocks", "statements", "joins", "lib_blocks"):
            n[k] += st[k]
        n["functions"] |= set(r["lib_functions"])
        for g in r["groups"]:
            if not (g["what"].startswith(pid + " ") or any(root.startswith(a) and g["what"][:3] in ids for a, ids in (also or {}).items())):
                continue
            n["obligations"] += g["total"]
            n["discharged"] += g["total"] - g["bad"]
            key = root + "|" + g["what"]
            n["instances"][key] = n["instances"].get(key, 0) + g["total"]
            if g["bad"]:
                viol.append({"kind": "obligation", "root": root, "rule": g["what"], "span": g["span"], "bad": g["bad"], "total": g["total"],
                             "first": [{"index": i, "detail": d[:1500]} for i, d in g["first"][:3]], "reached": r["lib_functions"][:60]})
        for c in r["covers"]:
            if not c["what"].startswith(pid + " "):
                continue
            n["covers"] += 1
            n["obligations"] += 1
            key = root + "|" + c["what"]
            n["instances"][key] = n["instances"].get(key, 0) + 1
            if c["ok"]:
                n["discharged"] += 1
            elif not r["error"]:
                viol.append({"kind": "unreachable", "root": root, "rule": c["what"], "index": c["idx"], "reached": r["lib_functions"][:60]})
        for p in r["panics"]:
            viol.append({"kind": "panic", "root": root, "rule": f"{pid} no panic can be reached", "what": p["what"], "at": p["at"], "span": p["span"], "stack": p["stack"], "n": p["n"]})
        n["obligations"] += st["assertions"]
        n["discharged"] += st["assertions"] - min(st["assertions"], len(r["panics"]))
        if not r["error"] and r["done"] == 0:
            viol.append({"kind": "never-returns", "root": root, "rule": f"{pid} the operation can complete", "reached": r["lib_functions"][:60]})
    errored = {r["root"] for r in results if r.get("error")}
    for key, low in floors.items():
        root = key.split("|")[0]
        if root in errored or root not in {r["root"] for r in results}:
            continue
        if n["instances"].get(key, 0) < low:
            viol.append({"kind": "never-reached", "root": root, "rule": key.split("|", 1)[1], "instances": n["instances"].get(key, 0), "floor": low})
    return viol, errs, n


def known_findings(pid):
    """Lines `known: property=ID key=KEY :: what`; other lines (fixed findings, comments) suppress nothing."""
    known = {}
    kf = os.path.join(V, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def vkey(v):
    """Identity of a violation, without line numbers."""
    k = v["kind"] + "|" + v["root"] + "|" + v["rule"]
    if v["kind"] == "panic":
        k += "|" + v["at"] + "|" + v["what"]
    return k


def text(v):
    if v["kind"] == "panic":
        return f"{v['rule']}: {v['what']} in {v['at']} ({v['span']}) via {' > '.join(v['stack'][-5:])} [entry {v['root']}]"
    if v["kind"] == "obligation":
        f = v["first"][0] if v["first"] else {"index": 0, "detail": ""}
        return f"{v['rule']} [entry {v['root']}, {v['bad']} of {v['total']} instances, first index {f['index']}]: {f['detail'][:600]}"
    if v["kind"] == "structural":
        return f"{v['rule']}: {v['what']} [{v['root']}]"
    return f"{v['rule']}: {v['kind']} [entry {v['root']}]"


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    record = "--record" in sys.argv
    t0 = time.time()
    p = props.BY_ID[pid]
    clock = Clock(780 if tier == "quick" else 6600)
    fl_path = os.path.join(V, "tool", "floors.json")
    floors = json.load(open(fl_path)) if os.path.exists(fl_path) else {}
    viol, errs, parts = [], [], []
    e = env()
    try:
        configs = ["std"] + (["libm"] if tier == "thorough" and p.get("libm", True) else [])
        for config in configs:
            roots = p["roots"] + (p.get("thorough_roots", []) if tier == "thorough" else [])
            res = []
            if roots:
                drv, args, key = prepare(e, config)
                order = sorted(roots, key=lambda r: -props.cost(r))


                def one(r):
                    x = analyse(e, drv, args, key, config, r, clock)
                    if judge(pid, [x], config, {}, p.get("also"))[0]:
                        clock.found()
                    return x

                with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MLXSA_JOBS", "8"))) as ex:
                    res = list(ex.map(one, order))
            v, er, n = judge(pid, res, config, floors.get(pid, {}) if config == "std" else {}, p.get("also"))
            for x in p.get("structural", []):
                import structural
                sv, sn = getattr(structural, x)(pid, e, config)
                v += sv
                n["obligations"] += sn["obligations"]
                n["discharged"] += sn["discharged"]
                n.setdefault("structural", []).append(sn)
                n["functions"] |= set(sn.get("functions", []))
                for k, c in sn.get("instances", {}).items():
                    n["instances"][k] = n["instances"].get(k, 0) + c
            if record and config == "std":
                floors[pid] = {k: max(1, c // 8) for k, c in sorted(n["instances"].items())}
                with open(fl_path, "w") as fh:
                    json.dump(floors, fh, indent=0, sort_keys=True)
                    fh.write("\n")
            viol += [dict(x, config=config) for x in v]
            errs += er
            parts.append((config, n))
            if not n["obligations"]:
                errs.append(f"{config}: no obligation was generated")
    except CheckError as x:
        errs.append(str(x))
    known = known_findings(pid)
    new = []
    for v in viol:
        if vkey(v) in known:
            print(f"KNOWN-FINDING: property={pid} {known[vkey(v)]}")
        else:
            new.append(v)
    evdir = os.path.join(V, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, f"{pid}.violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    obl = sum(n["obligations"] for _, n in parts)
    dis = sum(n["discharged"] for _, n in parts)
    fns = sorted(set().union(*[n["functions"] for _, n in parts])) if parts else []
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": p["level"],
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"python3 /verif/tool/run.py {pid} {tier}",
            "trusted_base": props.TRUSTED,
            "explanation": props.explain(p),
            "rule_instances": {k: c for _, n in parts for k, c in n["instances"].items()},
            "library_functions_analysed": fns,
            "entry_points": [r for _, n in parts for r in n["roots"]],
            "structural": [s for _, n in parts for s in n.get("structural", [])],
            "basic_blocks_reached_in_library": sum(n["lib_blocks"] for _, n in parts),
            "abstract_steps": sum(n["statements"] for _, n in parts),
            "joins": sum(n["joins"] for _, n in parts),
            "errors": errs,
        },
        "wall_s": round(time.time() - t0, 2), "assumptions": p["assumptions"] + props.ASSUME, "violations": len(new),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if new:
        with open(replay, "w") as fh:
            json.dump(new, fh, indent=1)
        for v in new[:12]:
            print("  " + norm(text(v)))
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if errs:
        for x in errs[:8]:
            print("CHECK ERROR: " + x)
        return 2
    print(f"property {pid}: {dis}/{obl} obligations discharged, {len(fns)} library functions, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())

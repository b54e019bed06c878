"""Rules decided on the compiled crate graph and by the type checker rather than by the analyser."""
import glob, os, re, shutil
import run

NOSTD = os.path.join(run.V, "nostd")


BARE = ["thumbv6m-none-eabi", "riscv32imc-unknown-none-elf"]


def build(e, name, features, flags):
    d = os.path.join(run.BUILD, f"s02-{os.getpid()}-{name}")
    if os.path.exists(d):
        shutil.rmtree(d)
    cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--message-format=short", "--target-dir", d] + features
    rc, out = run.sh(cmd, cwd=NOSTD, env=dict(e, RUSTFLAGS=flags))
    crates = {}
    for f in glob.glob(d + "/**/*.d", recursive=True):
        m = re.match(r"(.*)-[0-9a-f]+\.d$", os.path.basename(f))
        loaded = set()
        for x in open(f).read().split():
            b = re.match(r"lib(\w+)-[0-9a-f]+\.(rmeta|rlib)$", os.path.basename(x.rstrip(":")))
            if b:
                loaded.add(b.group(1))
        if m:
            crates[m.group(1).replace("-", "_")] = loaded - {m.group(1).replace("-", "_")}
    shutil.rmtree(d, ignore_errors=True)
    return rc, out, crates


def nostd(pid, e, config):
    """With the libm feature alone the library builds without the standard library, without an
    allocator and without unsafe code of its own."""
    viol = []
    os.makedirs(run.BUILD, exist_ok=True)
    rc, out, crates = build(e, "base", [], "-Zbinary-dep-depinfo")
    errors = [l for l in out.splitlines() if ": error" in l or l.startswith("error")]
    if rc:
        mine = [l for l in errors if "mlx9064x" in l or "/repo" in l]
        if not mine:
            raise run.CheckError("the witness crate does not build:\n" + out[-2000:])
        viol.append({"kind": "structural", "root": "nostd", "rule": f"{pid} the library builds without the standard library", "what": "; ".join(mine[:4])})
        return viol, {"obligations": 1, "discharged": 0, "functions": [], "instances": {}}
    if "core" not in crates.get("mlx9064x", set()):
        raise run.CheckError(f"the crates loaded for mlx9064x are not known: {sorted(crates)}")
    todo, seen = ["mlx9064x"], {}
    while todo:
        c = todo.pop()
        for x in crates.get(c, set()):
            if x not in seen:
                seen[x] = c
                todo.append(x)
    n = 0
    for x in ("std", "alloc"):
        n += 1
        if x in seen:
            viol.append({"kind": "structural", "root": "nostd", "rule": f"{pid} the library needs neither the standard library nor an allocator",
                         "what": f"crate {seen[x]} loads {x}"})
    rc, out, _ = build(e, "unsafe", [], "-Funsafe-code")
    n += 1
    if rc:
        l = [l for l in out.splitlines() if ": error" in l]
        viol.append({"kind": "structural", "root": "nostd", "rule": f"{pid} the library contains no unsafe code", "what": "; ".join(l[:4])})
    n += 1
    # a processor without an operating system, with narrow pointers: core is built from its sources
    for t in BARE:
        rc, out, crates = build(e, t, ["-Zbuild-std=core", "--target", t], "-Zbinary-dep-depinfo")
        errors = [l for l in out.splitlines() if ": error" in l or l.startswith("error")]
        n += 1
        if rc:
            if not [l for l in errors if "mlx9064x" in l or "/repo" in l]:
                raise run.CheckError("the witness crate does not build for " + t + ":\n" + out[-2000:])
            viol.append({"kind": "structural", "root": "nostd", "rule": f"{pid} the library builds for {t}", "what": "; ".join(errors[:4])})
    return viol, {"obligations": n + 1, "discharged": n + 1 - len(viol), "crates": sorted(seen), "functions": [],
                  "instances": {"nostd|" + pid + " crates examined": len(seen)}}


WITNESS = os.path.join(run.V, "witness")
PRIVATE = {"E0423", "E0451", "E0560", "E0603", "E0532", "E0616", "E0639"}
# programs the type checker has to refuse: feature -> (rule, codes of the refusal)
REFUSED = {
    "seal": ("only the library's own cameras exist", {"E0277"}),
    "shared_image": ("an image cannot be taken through a shared reference", {"E0596"}),
    "shared_setting": ("a camera setting cannot be changed through a shared reference", {"E0596"}),
    "literal_status": ("a status register cannot be made from a bare word", PRIVATE),
    "literal_control": ("a control register cannot be made from a bare word", PRIVATE),
    "literal_i2c": ("a configuration register cannot be made from bare fields", PRIVATE),
    "literal_address": ("the inside of an address is private", PRIVATE),
    "bus_kept": ("a bus given to a driver cannot be used besides it", {"E0382"}),
    "mixed_camera": ("one camera's calibration cannot be used for the other", {"E0308"}),
    "wrong_size": ("images are temperatures, not raw words", {"E0308"}),
    "calibration_borrowed": ("a driver whose bus is confined to a thread is confined too", {"E0277"}),
}


def witness(pid, e, config):
    """What the type checker has to accept and to refuse."""
    os.makedirs(run.BUILD, exist_ok=True)
    d = os.path.join(run.BUILD, f"{pid.lower()}-{os.getpid()}-{config}")
    viol, src = [], open(os.path.join(WITNESS, "src", "lib.rs")).read().splitlines()

    def check(feature):
        cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--message-format=short", "--target-dir", d, "--features", config + feature]
        rc, out = run.sh(cmd, cwd=WITNESS, env=e)
        return rc, out, re.findall(r"^src/lib\.rs:(\d+):\d+: error(?:\[(E\d+)\])?: (.*)$", out, re.M)

    n = sum(1 for l in src[:src.index('#[cfg(feature = "seal")]')] if "::<" in l or l.startswith("fn "))
    try:
        rc, out, errs = check("")
        if rc and not errs:
            raise run.CheckError("the witness crate does not build:\n" + out[-2000:])
        for line, code, what in errs[:6]:
            viol.append({"kind": "structural", "root": "witness", "rule": f"{pid} a program relying on the documented types is accepted",
                         "what": f"{code or 'error'} {what} at `{src[int(line) - 1].strip()}`"})
        done = n if not rc else 0
        for f, (rule, codes) in REFUSED.items():
            if rc:
                break
            n += 1
            rc2, out, errs = check("," + f)
            if not rc2:
                at = next(i for i, l in enumerate(src) if l == f'#[cfg(feature = "{f}")]')
                viol.append({"kind": "structural", "root": "witness", "rule": f"{pid} {rule}",
                             "what": f"`{src[at + 1].strip()}` is accepted by the type checker"})
            elif not any(c in codes for _, c, _ in errs):
                raise run.CheckError(f"witness {f} is refused for another reason:\n" + out[-1000:])
            else:
                done += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return viol, {"obligations": n, "discharged": done, "functions": [], "instances": {"witness|" + pid + " programs judged": n}}

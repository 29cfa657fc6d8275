#!/usr/bin/env python3
"""Runner: decides one property from /repo's current tree.  See DESIGN.md."""
import json, os, re, subprocess, sys, threading, time, shutil, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from config import PROPS
import vx

BUILD = os.path.join(V, ".build")
REPLAYS = os.path.join(V, "replays")
EVID = os.path.join(V, "evidence")
RUST = os.path.join(V, "rust")
DEADLINE = 840


def sh(cmd, env=None, cwd=None, timeout=None):
    """run, return (rc, stdout+stderr); rc None on timeout"""
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         env=e, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


BASE_ENV = {"CARGO_NET_OFFLINE": "true", "LIGHTYEAR_VERIF_HOOKS": os.path.join(V, "hooks"),
            "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0"}


class Native:
    """native build of the harness crate against /repo"""

    def __init__(self, features):
        self.features = ",".join(features)
        self.ok = None
        self.log = ""
        self.bin = None

    def build(self, timeout):
        tgt = os.path.join(BUILD, "native-" + self.features.replace(",", "-"))
        env = dict(BASE_ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS="--cfg lightyear_verif -Awarnings")
        rc, out = sh(["cargo", "build", "--offline", "--features", self.features], env, RUST, timeout)
        self.log = out
        self.ok = rc == 0
        self.bin = os.path.join(tgt, "debug", "lyv")

    def run(self, names, seed, iters, budget_ms):
        if not names:
            return {}
        rc, out = sh([self.bin, "run", str(seed), str(iters), str(budget_ms)] + names,
                     {"RUST_BACKTRACE": "0"}, "/", timeout=budget_ms / 1000 * 3 + 120)
        res = {}
        for l in out.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                    res[d["harness"]] = d
                except ValueError:
                    pass
        return res

    def one(self, name, seed, iters, budget_ms):
        return self.run([name], seed, iters, budget_ms).get(name)

    def replay(self, name, hx):
        rc, out = sh([self.bin, "replay", name, hx], None, "/", timeout=120)
        return rc, out.strip().splitlines()[-1] if out.strip() else f"exit status {rc}"


UNDECIDED = re.compile(r"unwinding assertion|not currently supported|unsupported|recursion unwinding|"
                       r"unimplemented|is not supported", re.I)


def kani_cmd(features, harnesses, extra=()):
    c = ["cargo", "kani", "--offline"] if False else ["cargo", "kani"]
    c += ["-Z", "function-contracts", "-Z", "stubbing", "--features", features, "--exact"]
    for h in harnesses:
        c += ["--harness", h]
    return c + list(extra)


def parse_kani(out):
    """-> {harness: dict(status, checks, failed, unreachable, cover, failed_checks, time)}"""
    cur, res, t = {}, {}, None
    block = None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            th = m[1]
            cur[th] = m[2]
            if th is None:
                t = None
                res.setdefault(m[2], dict(status=None, checks=0, failed=0, unreachable=0, cover=None, failed_checks=[], time=None))
            continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m:
            t = m[1]
            continue
        h = cur.get(t)
        if h is None:
            continue
        r = res.setdefault(h, dict(status=None, checks=0, failed=0, unreachable=0, cover=None, failed_checks=[], time=None))
        m = re.match(r"\s*\*\* (\d+) of (\d+) failed(?: \((.*)\))?", l)
        if m:
            r["failed"], r["checks"] = int(m[1]), int(m[2])
            u = re.search(r"(\d+) unreachable", m[3] or "")
            r["unreachable"] = int(u[1]) if u else 0
        m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties satisfied", l)
        if m:
            r["cover"] = (int(m[1]), int(m[2]))
        m = re.match(r"Failed Checks: (.*)", l)
        if m:
            r["failed_checks"].append(m[1].strip())
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m:
            r["status"] = m[1]
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m:
            r["time"] = float(m[1])
        if "run out of memory" in l or "CBMC failed" in l or "timed out" in l.lower():
            r["status"] = "RESOURCE"
    return res


def kani_stage(prop, features, hs, timeout, htimeout, box, hooks_env):
    if not hs:
        box["kani"] = {}
        return
    feats = ",".join(features)
    tgt = os.path.join(BUILD, "kani-" + feats.replace(",", "-"))
    env = dict(BASE_ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings")
    names = [h["path"] for h in hs]
    extra = ["--output-format", "terse", "-j", "8", "-Z", "unstable-options", "--harness-timeout", f"{htimeout}s"]
    t0 = time.time()
    rc, out = sh(kani_cmd(feats, names, extra), env, RUST, timeout)
    box["kani_out"] = out
    box["kani_wall"] = time.time() - t0
    box["kani_env"] = env
    box["kani"] = parse_kani(out)
    box["kani_compile_ok"] = ("Checking harness" in out)


def concrete(features, env, path, timeout):
    """concrete values of a failing Kani harness as a hex byte stream"""
    feats = ",".join(features)
    rc, out = sh(kani_cmd(feats, [path], ["-Z", "concrete-playback", "--concrete-playback", "print"]), env, RUST, timeout)
    cands = []
    for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        b = []
        for v in re.findall(r"vec!\[([^\]]*)\]", blk):
            b += [int(x) for x in v.replace(" ", "").split(",") if x != ""]
        cands.append("".join(f"{x:02x}" for x in b))
    return cands, out


def write_replay(pid, name, doc):
    d = os.path.join(REPLAYS, pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, re.sub(r"[^A-Za-z0-9_.-]", "_", name) + ".json")
    with open(p, "w") as f:
        json.dump(doc, f, indent=1)
    return p


def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    features = cfg["features"]
    thorough = tier == "thorough"
    hs = [h for h in cfg.get("kani", []) if thorough or not h.get("thorough")]
    natives = cfg.get("native", [])
    units = cfg.get("verus", [])
    box = {}
    nat = Native(features)
    htimeout = cfg.get("htimeout", 300 if not thorough else 1500)
    total = DEADLINE if not thorough else 6 * 3600

    def native_stage():
        nat.build(600)
        if nat.ok:
            budget = cfg.get("native_ms", 8000) * (1 if not thorough else 20)
            iters = cfg.get("native_iters", 400000) * (1 if not thorough else 50)
            names = [n for n in natives]
            box["native"] = nat.run(names, seed, iters, budget)

    def verus_stage():
        box["verus"] = [vx.run_unit(u, thorough) for u in units]

    ths = [threading.Thread(target=native_stage), threading.Thread(target=verus_stage),
           threading.Thread(target=kani_stage, args=(pid, features, hs, total - 120, htimeout, box, BASE_ENV))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    violations, notes, errors = [], [], []
    kf = known_findings()

    # ---- native (bounded stand-in / failing input search)
    nres = box.get("native", {})
    if not nat.ok:
        # an error located in the harness or hook text means that an anchor (a private name the contracts
        # talk about) is gone: that is "undecided", never an alarm.  An error in /repo's own code is an error.
        where = re.findall(r"^error(?:\[E\d+\])?:.*\n\s*-->\s*(\S+?):\d+", nat.log, re.M)
        anchors = [w for w in where if "/verif/" in os.path.abspath(os.path.join(RUST, w)) + "/" or w.startswith("src/") or "/hooks/" in w]
        if where and len(anchors) == len(where):
            notes.append("lost anchor: the contracts do not compile against this tree: " + "; ".join(sorted(set(where)))[:400])
        else:
            errors.append("native build of the harness crate failed:\n" + nat.log[-3000:])
    else:
        for n in natives:
            r = nres.get(n)
            if r is None:
                # the process died (abort, stack overflow, allocation failure): rerun alone
                r1 = nat.one(n, seed, cfg.get("native_iters", 400000), cfg.get("native_ms", 8000))
                if r1 is None:
                    p = write_replay(pid, n, dict(property=pid, harness=n, features=features, obligation="harness process aborted",
                                                  how="lyv run", seed=seed))
                    violations.append((n, p, "process aborted while checking the contract", True))
                    continue
                nres[n] = r = r1
            if r.get("missing"):
                errors.append(f"harness {n} missing")
            elif r["fail"]:
                f = r["fail"]
                p = write_replay(pid, n, dict(property=pid, harness=n, features=features, input=f["input"], obligation=f["msg"],
                                              found_by="native execution of the contract", replay=f"/verif/check --replay <this file>"))
                violations.append((n, p, f["msg"], True))
            elif r["reached"] == 0:
                errors.append(f"harness {n} never reached its end natively (vacuous)")

    # ---- kani
    kres = box.get("kani", {})
    kev = []
    if hs and not box.get("kani_compile_ok"):
        if nat.ok:
            notes.append("kani build failed or timed out (bounded stand-in decides): " + box.get("kani_out", "")[-600:])
        elif not notes:
            errors.append("kani build failed or timed out:\n" + box.get("kani_out", "")[-3000:])
    for h in hs:
        r = kres.get(h["path"])
        short = h["path"].split("::")[-1]
        ent = dict(harness=h["path"], kind=h.get("kind", "complete"), bound=h.get("bound"), functions=h.get("fns", []))
        if r is None or r["status"] in (None, "RESOURCE"):
            ent["result"] = "undecided (" + (r["status"] if r and r["status"] else "no result: time or build limit") + ")"
            kev.append(ent)
            notes.append(f"{short}: kani gave no answer")
            continue
        ent.update(checks=r["checks"], failed=r["failed"], unreachable=r["unreachable"], time_s=r["time"], cover=r["cover"])
        if r["status"] == "SUCCESSFUL":
            if r["cover"] and r["cover"][0] < r["cover"][1]:
                ent["result"] = "vacuous (reachability cover failed)"
                # natively reachable?  then a contract precondition changed meaning; undecided
                notes.append(f"{short}: end of harness unreachable under kani")
            elif r["checks"] == 0:
                ent["result"] = "no obligations"
                errors.append(f"{short}: zero obligations")
            else:
                ent["result"] = "discharged"
        else:
            real = [c for c in r["failed_checks"] if not UNDECIDED.search(c)]
            if not real:
                ent["result"] = "undecided: " + "; ".join(r["failed_checks"][:3])
                notes.append(f"{short}: {ent['result']}")
            else:
                ent["result"] = "failed: " + "; ".join(real[:5])
                already = [v for v in violations if v[0] == short and v[3]]
                if not already:
                    left = max(60, total - (time.time() - t0) - 60)
                    cands, raw = ([], "")
                    if left > 90:
                        cands, raw = concrete(features, box["kani_env"], h["path"], min(left, 400))
                    hit = None
                    if nat.ok:
                        for c in cands:
                            rc, msg = nat.replay(short, c)
                            if rc not in (0, 2, None):
                                hit = (c, msg)
                                break
                        if not hit and h.get("replayable", True):
                            r1 = nat.one(short, seed + 7, 3000000, 20000)
                            if r1 and r1.get("fail"):
                                hit = (r1["fail"]["input"], r1["fail"]["msg"])
                    doc = dict(property=pid, harness=short, features=features, obligation=real, verifier="kani " + h["path"],
                               found_by="kani counterexample replayed natively on the real code",
                               verifier_output=(raw or box["kani_out"])[-6000:])
                    if hit:
                        doc.update(input=hit[0], native_result=hit[1])
                        violations.append((short, write_replay(pid, short, doc), "; ".join(real[:2]), True))
                    else:
                        doc["candidates"] = cands
                        violations.append((short, write_replay(pid, short, doc), "; ".join(real[:2]), False))
        kev.append(ent)

    # ---- verus
    vev = []
    for u, r in zip(units, box.get("verus", [])):
        vev.append({k: r[k] for k in ("unit", "functions", "verified", "errors", "result", "solver_s", "dropped", "assumed", "note") if k in r})
        if r["result"] == "failed":
            # search for a failing input natively on the harnesses tied to this unit
            hit = None
            have = [v for v in violations if v[3]]
            if not have and nat.ok:
                names = cfg.get("search", {}).get(u, natives)
                res = nat.run(names, seed + 11, 4000000, 25000)
                for n, x in res.items():
                    if x.get("fail"):
                        hit = (n, x["fail"])
                        break
            if not have:
                doc = dict(property=pid, unit=u, features=features, obligation=r["failed"], verifier="verus", verifier_output=r["output"][-6000:])
                if hit:
                    doc.update(harness=hit[0], input=hit[1]["input"], native_result=hit[1]["msg"])
                    violations.append((u, write_replay(pid, u, doc), "; ".join(r["failed"][:3]), True))
                else:
                    violations.append((u, write_replay(pid, u, doc), "; ".join(r["failed"][:3]), False))
        elif r["result"] != "verified":
            notes.append(f"verus unit {u}: {r['result']}: {r.get('note','')[:300]} (bounded stand-in decides)")

    # ---- known findings (only listed ones may be quiet)
    listed = []
    for f in kf["findings"]:
        if f["property"] != pid:
            continue
        if nat.ok:
            rc, msg = nat.replay(f["harness"], f["input"])
            if rc == 1:
                listed.append(f)
                print(f"KNOWN-FINDING: property={pid} {f['what']}")

    wall = time.time() - t0
    comp = [e for e in kev if e["kind"] == "complete"]
    bnd = [e for e in kev if e["kind"] != "complete"]
    ob = sum(e.get("checks", 0) for e in comp) + sum(r.get("verified", 0) + r.get("errors", 0) for r in vev)
    di = sum(e.get("checks", 0) - e.get("failed", 0) for e in comp if e["result"] == "discharged") + sum(r.get("verified", 0) for r in vev)
    solver = sum(e.get("time_s") or 0 for e in kev) + sum(r.get("solver_s") or 0 for r in vev)
    undec = [e for e in comp if e["result"] != "discharged"] + [r for r in vev if r["result"] != "verified"]
    evd = dict(
        property=pid, tier=tier, seed=seed, level=cfg["level"], wall_s=round(wall, 1),
        violations=len(violations),
        coverage=dict(
            obligations=ob, discharged=di,
            checker_cmd=cfg.get("checker_cmd", "cargo kani (CBMC/CaDiCaL) + verus (Z3) + native contract execution, driven by /verif/check"),
            trusted_base=cfg.get("trusted", []) + TRUST,
            functions_under_contract=cfg.get("functions", []),
            kani_complete=comp, kani_bounded=bnd, verus=vev,
            undecided=[e.get("harness") or e.get("unit") for e in undec],
            native_bounded={n: {k: r.get(k) for k in ("iters", "discarded", "reached", "ms")} for n, r in nres.items()},
            solver_s=round(solver, 1), notes=notes,
        ),
        not_covered=cfg.get("not_covered", ""),
    )
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    for n in notes:
        print("note:", n)
    print(f"{pid} [{tier}] kani: {sum(e['result']=='discharged' for e in kev)}/{len(kev)} harnesses, verus: "
          f"{sum(r['result']=='verified' for r in vev)}/{len(vev)} units, obligations {di}/{ob}, native {len(nres)} harnesses, {wall:.0f}s")
    for n, p, what, found in violations:
        print(f"obligation failed [{n}]: {what[:300]}")
    if violations:
        # concrete ones first
        violations.sort(key=lambda v: not v[3])
        n, p, what, found = violations[0]
        print(f"VIOLATION property={pid} replay={p}" + ("" if found else " no-failing-input-found"))
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 3
    return 0


TRUST = [
    "rustc/Kani MIR translation, CBMC 6.11 and its SAT back end, Verus and Z3",
    "Kani harnesses are sequential: no concurrency",
    "the extraction step of /verif/lib/vx.py (drops listed per unit)",
]


def replay(path):
    d = json.load(open(path))
    if "input" not in d:
        print("no concrete input recorded; failed obligation:", d.get("obligation"))
        return 1
    nat = Native(d["features"])
    nat.build(600)
    rc, msg = nat.replay(d["harness"], d["input"])
    print(msg)
    return 1 if rc else 0


def setup():
    for t in ("cargo", "verus", "cbmc"):
        if not shutil.which(t):
            print("missing tool", t)
            return 1
    os.makedirs(BUILD, exist_ok=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())

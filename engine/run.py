"""Running a check: build the MIR of the current tree, analyse, report.  Exit 0 or exit 1 with a VIOLATION line."""
import argparse
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DRIVER_DIR = os.path.join(VERIF, "driver")
DRIVER = os.path.join(DRIVER_DIR, "target", "debug", "mirdump")
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 2)


class BuildFailed(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                       errors="replace")
    return r.returncode, r.stdout


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "driver.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(["cargo", "+nightly", "build", "--offline"], cwd=DRIVER_DIR)
        if rc or not os.path.exists(DRIVER):
            raise BuildFailed("driver: " + out[-2000:])


def env_for(tgt, out):
    rc, root = sh(["rustc", "+nightly", "--print", "sysroot"])
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["LD_LIBRARY_PATH"] = root.strip() + "/lib"
    e["MIRDUMP_OUT"] = out
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["CARGO_NET_OFFLINE"] = "true"
    return e


class Work:
    """scratch directory of one run"""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=BUILD)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def copy_repo(self, to):
        def ign(d, names):
            return [n for n in names if n in ("target", ".git")]
        shutil.copytree(REPO, to, ignore=ign, symlinks=True)

    def dump_repo(self, pkgs):
        """MIR of the given workspace packages; dict crate -> json path"""
        out = os.path.join(self.dir, "mir")
        os.makedirs(out, exist_ok=True)
        src = os.path.join(self.dir, "src")
        if not os.path.exists(src):
            self.copy_repo(src)
        cmd = ["cargo", "+nightly", "check", "--offline"]
        for p in pkgs:
            cmd += ["-p", p]
        rc, log = sh(cmd, cwd=src, env=env_for(os.path.join(self.dir, "target"), out))
        if rc:
            raise BuildFailed(log[-3000:])
        return {f[:-5]: os.path.join(out, f) for f in os.listdir(out) if f.endswith(".json")}

    def dump_witness(self, crate, name="witness", files=None):
        """MIR of a crate of /verif with path dependencies on the copied tree (REPO_SRC in Cargo.toml)"""
        out = os.path.join(self.dir, "mir-" + name)
        os.makedirs(out, exist_ok=True)
        src = os.path.join(self.dir, "src")
        if not os.path.exists(src):
            self.copy_repo(src)
        dst = os.path.join(self.dir, name)
        shutil.copytree(os.path.join(VERIF, crate), dst)
        p = os.path.join(dst, "Cargo.toml")
        t = open(p).read().replace("/repo/", src + "/")
        open(p, "w").write(t)
        for f, text in (files or {}).items():
            open(os.path.join(dst, f), "w").write(text)
        lock = os.path.join(src, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(dst, "Cargo.lock"))
        rc, log = sh(["cargo", "+nightly", "check", "--offline"], cwd=dst,
                     env=env_for(os.path.join(self.dir, "target-" + name), out))
        if rc:
            raise BuildFailed(log[-3000:])
        return {f[:-5]: os.path.join(out, f) for f in os.listdir(out) if f.endswith(".json")}


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = {}
        self.obligations = 0
        self.discharged = 0
        self.units = {}
        self.rules = []
        self.notes = []
        self.t0 = time.time()

    def unit(self, kind, n=1):
        self.units[kind] = self.units.get(kind, 0) + n

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def fail(self, key, msg, where=""):
        self.obligations += 1
        if key not in self.viol:
            self.viol[key] = (msg, where)

    def need(self, cond, key, msg, where=""):
        if cond:
            self.ok()
        else:
            self.fail(key, msg, where)

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            r = json.loads(l)
            if r.get("status") == "known":
                out[(r["property"], r["key"])] = r
    return out


def finish(rep, level, meta):
    known = known_findings()
    new = []
    for k, (msg, where) in rep.viol.items():
        if (rep.pid, k) in known:
            print("KNOWN-FINDING: property=%s %s" % (rep.pid, msg))
        else:
            new.append((k, msg, where))
    cov = {"obligations": rep.obligations, "discharged": rep.discharged}
    cov.update({k.replace(" ", "_"): v for k, v in rep.units.items()})
    if level == "proof":
        cov.update(checker_cmd=meta.get("cmd", ""), trusted_base=meta.get("trusted", []))
    cov["explanation"] = meta["what"] + " Rules: " + "; ".join(rep.rules)
    ev = dict(property=rep.pid, tier=rep.tier, seed=rep.seed, level=level, coverage=cov,
              assumptions=meta.get("assumptions", []) + rep.notes, wall_s=round(time.time() - rep.t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, rep.pid + ".txt")
        with open(rp, "w") as f:
            for k, m, w in new:
                f.write("%s\n  %s\n  at %s\n" % (k, m, w))
        for k, m, w in new[:25]:
            print("%s: %s [%s]" % (w or "-", m, k))
        if len(new) > 25:
            print("... %d more, see %s" % (len(new) - 25, rp))
        print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
        return 1
    print("OK property=%s obligations=%d %s" % (rep.pid, rep.obligations, " ".join("%s=%d" % x for x in rep.units.items())))
    return 0


def pmap(f, tasks, jobs=JOBS):
    """map in forked workers (results must be picklable)"""
    import multiprocessing as mp
    if len(tasks) <= 1 or jobs == 1:
        return [f(t) for t in tasks]
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs) as pool:
        return pool.map(f, tasks, chunksize=max(1, min(8, len(tasks) // (jobs * 4))))


def main(checks):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property
    mod = checks[pid]
    rep = Report(pid, tier, seed)
    w = Work()
    try:
        build_driver()
        try:
            mod.check(rep, w, tier)
        except BuildFailed as e:
            rep.fail("build", "the tree does not build for analysis: " + str(e)[-600:])
        except Exception as e:  # fail closed: the property is not established
            traceback.print_exc()
            rep.fail("analysis:" + type(e).__name__, "the analysis could not be completed: %s" % e)
    finally:
        w.close()
    sys.stdout.flush()
    return finish(rep, mod.LEVEL, mod.META)

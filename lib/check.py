#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]: decides one property against /repo's working tree."""
import json, os, shutil, signal, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from catalog import CATALOG

VERIF = build.VERIF


def scratch():
    """A directory in memory where the runs of detox happen."""
    for base in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 200 << 20 or st.f_favail and st.f_favail < 20000:
                continue
            return tempfile.mkdtemp(prefix="dtx-mc-", dir=base)
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="dtx-mc-")


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = os.path.abspath(args[i + 1])
        del args[i:i + 2]
    tier = args[0] if args else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if prop not in CATALOG:
        print("no such property: %s" % prop)
        return 2
    c = CATALOG[prop]
    if replay and "tier: thorough" in open(replay, errors="replace").read(4000).split("\n"):
        tier = "thorough"
    t0 = time.time()
    budget = float(os.environ.get("MC_BUDGET", "300" if tier == "quick" else "780"))
    work = tempfile.mkdtemp(prefix="dtx-build-")
    sc = scratch()
    proc = None

    def cleanup(*a):
        if proc and proc.poll() is None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
            proc.wait()
        subprocess.run(["chmod", "-R", "u+rwx", sc], stderr=subprocess.DEVNULL)
        shutil.rmtree(sc, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)
        if a:
            os._exit(3)

    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, cleanup)
    try:
        exe = build.build(work, c.get("flavour", "plain"), c["modules"], c.get("tools", ()))
        extra = []
        if c.get("locales"):
            extra += ["--locpath", build.locales(work)]
        os.chmod(sc, 0o755)
        os.chmod(work, 0o755)
        if os.getuid() == 0:
            os.chown(sc, 65534, 65534)
        outdir = os.path.join(VERIF, "out")
        os.makedirs(outdir, exist_ok=True)
        stats = os.path.join(work, "stats.json")
        cmd = [exe, prop, "--scratch", sc, "--golden", os.path.join(VERIF, "golden"), "--replays", outdir, "--out", stats,
               "--repo", build.REPO, "--tools", work, "--jobs", str(os.cpu_count() or 4), "--budget", str(max(20, budget - (time.time() - t0)))] + extra
        if tier == "thorough":
            cmd.append("--thorough")
        if replay:
            cmd += ["--replay", replay]
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0", "UBSAN_OPTIONS": "print_stacktrace=1"}
        for k in ("MC_ONLY",):
            if k in os.environ:
                env[k] = os.environ[k]
        proc = subprocess.Popen(cmd, env=env, start_new_session=True)
        try:
            rc = proc.wait(timeout=(850 if not replay else 600))
        except subprocess.TimeoutExpired:
            print("the checker did not finish")
            return 3
        if rc not in (0, 1):
            print("the checker failed with status %d" % rc)
            return 3
        if replay:
            return rc
        st = json.load(open(stats))
        write_evidence(prop, tier, c, st, time.time() - t0)
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            if line.startswith("finding: property=%s " % prop):
                print("KNOWN-FINDING: " + line[len("finding: "):].rstrip())
        print("%s %s: %s runs, %s evaluations, %s states, %.1f s%s" % (prop, tier, st["execs"], st["evals"], st["states"], time.time() - t0, ", capped" if st["capped"] else ""))
        return rc
    except build.BuildError as e:
        print("could not build the checker:\n%s" % str(e)[:6000])
        return 3
    finally:
        cleanup()


def write_evidence(prop, tier, c, st, wall):
    cov = {
        "rule": st["rule"],
        "samples": st["samples"] or ["(none)"],
        "exhaustive": bool(st["exhaustive"]),
        "bounds": st["bounds"],
        "budget_reached": bool(st["capped"]),
    }
    if c["level"] == "model_checking":
        cov.update(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=st["validated"])
        cov["distinct_outcomes"] = st["outcomes"]
    else:
        cov.update(evaluations=st["execs"] + st["evals"], distinct_nontrivial=st["nontrivial"])
        cov["distinct_outcomes"] = st["outcomes"]
        cov["calls"] = st["transitions"]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": c["level"], "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": st["violations"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runs the monitors of one property against the parser built from /repo's working tree.

usage: check.py ID [--replay FILE]      environment: VERIF_SEED, VERIF_TIER=quick|thorough
Exit status: 0 the property held on everything explored; 1 it is broken (a VIOLATION line names the replay file);
2 the check could not decide (build failure, resource trouble).
"""
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402
import mine  # noqa: E402
import plan  # noqa: E402

SHARDS = 8
KNOWN = os.path.join(VERIF, "known-findings.txt")
LOCALES = ["de_DE.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9"]


class Inconclusive(Exception):
    pass


def make_locales():
    d = os.path.join(VERIF, "build", "locales")
    os.makedirs(d, exist_ok=True)
    for l in LOCALES:
        if os.path.isdir(os.path.join(d, l)):
            continue
        t = os.path.join(d, l + ".tmp%d" % os.getpid())
        name, cs = l.split(".", 1)
        subprocess.run(["localedef", "-i", name, "-f", cs, t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.isdir(t):
            try:
                os.rename(t, os.path.join(d, l))
            except OSError:
                shutil.rmtree(t, ignore_errors=True)
    return d


def read_cur(path):
    """The input under observation when a process ended, from the mapping it kept."""
    try:
        with open(path, "rb") as f:
            h = f.read(24)
            if len(h) < 24:
                return b"", ""
            _, n, nl = struct.unpack("<QQQ", h)
            note = f.read(min(nl, 4096))
            return f.read(n), note.decode("latin-1")
    except OSError:
        return b"", ""


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def big_stack():
    """The monitors recurse over trees that can be deep: 4 GB of stack for the main thread, where allowed."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 4 << 30
    resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(hard, want), hard))


class Runner:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.dict = os.path.join(work, "dict")
        mine.write(self.dict, mine.load(os.path.join(VERIF, "data", "baseline_dict.txt")))
        self.env = dict(os.environ, LOCPATH=make_locales() if pid == "C16" else os.environ.get("LOCPATH", ""))
        if not self.env["LOCPATH"]:
            del self.env["LOCPATH"]
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LC_ALL", "LANG", "LC_NUMERIC", "LC_CTYPE", "MALLOC_PERTURB_"):
            self.env.pop(k, None)

    def start(self, ph, exe, i, tag=""):
        p = os.path.join(self.work, "%s-%d%s" % (ph.name, i, tag))
        cmd = list(ph.prefix) + [exe, ph.prop or self.pid, "--seed", str(self.seed), "--shard", "%d/%d" % (i, SHARDS), "--scale", repr(ph.scale(self.tier)),
               "--thorough", "1" if self.tier == "thorough" else "0", "--data", os.path.join(VERIF, "data"), "--dict", self.dict, "--scratch", p + ".d",
               "--out", p + ".json", "--cur", p + ".cur"]
        os.makedirs(p + ".d", exist_ok=True)
        return p, subprocess.Popen(cmd, stdout=open(p + ".o", "wb"), stderr=open(p + ".err", "wb"), stdin=subprocess.DEVNULL, env=self.env, cwd=p + ".d", start_new_session=True, preexec_fn=None if ph.prefix or ph.mode == "tsan" else big_stack)

    @staticmethod
    def finish(proc, deadline):
        """Exit status, or None if it had to be ended."""
        try:
            return proc.wait(max(0.1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
            proc.wait()
            return None

    def phase(self, ph, exe):
        limit = ph.limit(self.tier)
        t0 = time.time()
        procs = [self.start(ph, exe, i) for i in range(SHARDS)]
        res = []
        for i, (p, pr) in enumerate(procs):
            rc = self.finish(pr, t0 + limit)
            res.append((i, p, rc))
            if rc not in (0,) and rc != 3 and rc is not None:
                # a verdict is in: the others get a short time to finish
                limit = min(limit, time.time() - t0 + 20)
        return res, time.time() - t0

    def again(self, ph, exe, i, tag, limit):
        p, pr = self.start(ph, exe, i, tag)
        return p, self.finish(pr, time.time() + limit)

    def single(self, ph, exe, text, limit):
        """One text alone through the same monitor: (exit status, output)."""
        f = os.path.join(self.work, "single.txt")
        open(f, "wb").write(text)
        cmd = [exe, ph.prop or self.pid, "--data", os.path.join(VERIF, "data"), "--dict", self.dict, "--replay", f, "--cur", f + ".cur"]
        pr = subprocess.Popen(cmd, stdout=open(f + ".o", "wb"), stderr=open(f + ".e", "wb"), stdin=subprocess.DEVNULL, env=self.env, cwd=self.work, start_new_session=True, preexec_fn=None if ph.prefix or ph.mode == "tsan" else big_stack)
        rc = self.finish(pr, time.time() + limit)
        return rc, tail(f + ".o") + tail(f + ".e")


def tail(path, n=100000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("latin-1")
    except OSError:
        return ""


def report_line(err):
    """The line of a sanitizer or valgrind report that says what happened."""
    for pat in (r"SUMMARY: \w+: (.*)", r"(runtime error: .*)", r"WARNING: (ThreadSanitizer: .*)", r"==\d+== (.*(?:Invalid|uninitialised|definitely lost|Conditional).*)", r"(.*Assertion.*)"):
        m = re.search(pat, err)
        if m:
            return m.group(1).strip()[:400]
    return err.strip().splitlines()[-1][:300] if err.strip() else ""


def ascii_of(b):
    return b.decode("latin-1").encode("unicode_escape").decode("ascii")


def run(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    spec = plan.PLAN[pid]
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        return decide(pid, tier, seed, spec, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, spec, work, t0):
    r = Runner(pid, tier, seed, work)
    evals = nontriv = 0
    counts, known, samples, phases = {}, {}, [], []
    bits = None
    failures = []
    for ph in spec.phases:
        if not ph.scale(tier):
            continue
        exe = build.build(ph.mode)
        res, took = r.phase(ph, exe)
        info = {"phase": ph.name, "build": ph.mode, "scale": ph.scale(tier), "seconds": round(took, 1), "evaluations": 0, "processes": SHARDS}
        for i, p, rc in res:
            if rc == 0 or rc == 10:
                j = json.load(open(p + ".json"))
                evals += j["evals"]
                nontriv += j["nontrivial"]
                info["evaluations"] += j["evals"]
                for k, v in j["counts"].items():
                    counts[k] = max(counts.get(k, 0), v) if k.startswith("max: ") else counts.get(k, 0) + v
                for k, v in j["known"].items():
                    known[k] = known.get(k, 0) + v
                if len(samples) < 8:
                    samples += [s for s in j["samples"] if s not in samples][:2]
                b = int.from_bytes(open(p + ".json.bits", "rb").read(), "little")
                bits = b if bits is None else bits | b
                if rc == 10:
                    failures.append({"phase": ph.name, "mode": ph.mode, "shard": i, "what": j["what"], "case": j["case"].encode("latin-1")})
                continue
            err = tail(p + ".err")
            if rc == 3:
                raise Inconclusive("monitor process failed: " + err[:500])
            if failures:
                continue  # a verdict is in already, and this process may have been ended because of it
            if any(x[2] == 10 for x in res):
                continue
            text, note = read_cur(p + ".cur")
            if rc is None:
                # no end within the limit: does one text alone hang?
                rc1, out1 = r.single(ph, exe, text, 60) if text and ph.single else (0, "")
                if rc1 is None:
                    failures.append({"phase": ph.name, "mode": ph.mode, "shard": i, "what": "the observation of this text does not end (given up after 60 s alone)" + note, "case": text})
                    continue
                p2, rc2 = r.again(ph, exe, i, "r", ph.limit(tier))
                if rc2 in (0, 10):
                    if rc2 == 10:
                        j = json.load(open(p2 + ".json"))
                        failures.append({"phase": ph.name, "mode": ph.mode, "shard": i, "what": j["what"], "case": j["case"].encode("latin-1")})
                    continue
                if rc2 is None:
                    text2, _ = read_cur(p2 + ".cur")
                    if text2 == text and text:
                        failures.append({"phase": ph.name, "mode": ph.mode, "shard": i, "what": "the observation of this case does not end (twice, within %d s)" % ph.limit(tier), "case": text})
                        continue
                    raise Inconclusive("time limit of phase %s reached at different cases" % ph.name)
                rc, err, text = rc2, tail(p2 + ".err"), read_cur(p2 + ".cur")[0]
            what = report_line(err) or ("ended by signal %d" % -rc if rc < 0 else "exit status %d" % rc)
            sanitizer = rc in (99, 66) or "Sanitizer" in err or "runtime error" in err
            if not sanitizer:
                p2, rc2 = r.again(ph, exe, i, "c", ph.limit(tier))
                if rc2 == 0:
                    if rc == -9:
                        counts["processes restarted after being ended from outside"] = counts.get("processes restarted after being ended from outside", 0) + 1
                        continue
                    raise Inconclusive("a monitor process ended with %r once and not again: %s" % (rc, what))
                if rc2 == -9:
                    raise Inconclusive("monitor processes are being ended from outside (memory?)")
                if rc2 == 3:
                    raise Inconclusive("monitor process failed: " + tail(p2 + ".err")[:500])
            failures.append({"phase": ph.name, "mode": ph.mode, "shard": i, "what": "the process died while this case was observed: " + what + (" [" + note + "]" if note else ""), "case": text, "report": err[:4000]})
        phases.append(info)
        if failures:
            break
    listed = dict(known_findings(pid))
    unlisted = [k for k in known if k not in listed]
    for k in unlisted:
        failures.append({"phase": "", "mode": "", "shard": 0, "what": "finding %s is not listed in known-findings.txt" % k, "case": k.encode()})
    distinct = bin(bits).count("1") if bits else 0
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": spec.rule + " distinct_nontrivial counts the set bits of a %d-bit hash table of non-trivial cases over all processes: a lower bound." % ((1 << 22)),
            "samples": samples[:8],
            "observed": dict(sorted(counts.items())),
            "phases": phases,
        },
        "assumptions": spec.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    dst = os.path.join(VERIF, "evidence", pid + ".json")
    with open(dst + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(dst + ".tmp", dst)
    for k in known:
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]))
    if failures:
        f0 = min(failures, key=lambda x: len(x["case"]) or 1 << 30)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%s.txt" % (pid, seed, f0["phase"] or "x"))
        with open(path + ".case", "wb") as f:
            f.write(f0["case"])
        with open(path, "w") as f:
            f.write("property: %s\nphase: %s (build %s), seed %d, shard %d/%d\nwhat: %s\ncase (escaped; raw bytes in %s.case): %s\nreplay: python3 check.py %s --replay %s.case\n" % (
                pid, f0["phase"], f0["mode"], seed, f0["shard"], SHARDS, f0["what"], path, ascii_of(f0["case"]), pid, path))
            if f0.get("report"):
                f.write("\n" + f0["report"] + "\n")
        print("what: " + ascii_of(f0["what"].encode("latin-1", "replace"))[:1500])
        print("case: " + ascii_of(f0["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: held on %d evaluations (%d distinct non-trivial), %.1f s" % (pid, evals, distinct, wall))
    return 0


def replay(pid, path):
    spec = plan.PLAN[pid]
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        r = Runner(pid, "quick", 1, work)
        text = open(path, "rb").read()
        worst = 0
        named = [p for p in spec.phases if p.prop and "-%s." % p.name in os.path.basename(path)]
        for ph in named or [p for i, p in enumerate(spec.phases) if not p.prefix and not p.prop and p.mode not in [q.mode for q in spec.phases[:i]]]:
            mode = ph.mode
            rc, out = r.single(ph, build.build(mode), text, 120)
            print("[%s] exit status %s\n%s" % (mode, rc, out))
            worst = worst or (0 if rc == 0 else 1)
        return worst
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        if len(sys.argv) == 2 and sys.argv[1] == "--setup":
            for m in ("plain", "asan"):
                print(build.build(m))
            sys.exit(0)
        if len(sys.argv) not in (2, 4) or sys.argv[1] not in plan.PLAN:
            print(__doc__)
            sys.exit(2)
        if len(sys.argv) == 4:
            sys.exit(replay(sys.argv[1], sys.argv[3]))
        sys.exit(run(sys.argv[1]))
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(2)
    except Inconclusive as e:
        print("INCONCLUSIVE: " + str(e))
        sys.exit(2)

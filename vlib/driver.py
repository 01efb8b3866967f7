"""Generated-input search for one property.

  python3-vt -m vlib.driver C01          run the check (tier from VERIF_TIER)
  python3-vt -m vlib.driver C01 --replay FILE

The parent starts N shard processes.  Each shard generates cases with the
*installed, independent* Hypothesis of python3-vt and sends them to its own
worker process, in which the code under test (/repo) is imported.  A violation
is shrunk by the generator and written to a replay file.
"""
import hashlib
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from vlib.codec import dumps, enc, loads

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY_SUT = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


class HarnessError(Exception):
    pass


class Hang(Exception):
    pass


def known_findings(pid):
    out = {}
    path = VERIF / "known_findings.jsonl"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                d = json.loads(line)
                if d["property"] == pid:
                    out[d["key"]] = d
    return out


class Worker:
    def __init__(self, pid, mod, scratch):
        self.pid, self.mod, self.scratch = pid, mod, scratch
        self.proc = None
        self.known = list(known_findings(pid))

    def start(self):
        env = {
            k: v
            for k, v in os.environ.items()
            if k in ("PATH", "VERIF_DEBUG", "VERIF_REPO", "VERIF_TIER", "VERIF_SEED")
        }
        self.cwd = tempfile.mkdtemp(dir=self.scratch, prefix="w")
        py = getattr(self.mod, "PYTHON", PY_SUT)
        env.update(
            HOME=str(self.scratch),
            TMPDIR=str(self.scratch),
            PYTHONPATH=f"{REPO}/hypothesis-python/src:{VERIF}",
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            HYPOTHESIS_STORAGE_DIRECTORY=str(self.scratch / "hyp"),
            LANG="C.UTF-8",
            LC_ALL="C.UTF-8",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            PATH=os.path.dirname(py) + ":/usr/local/bin:/usr/bin:/bin",
        )
        env.update(getattr(self.mod, "ENV", {}))
        cmd = [py, "-m", "vlib.worker", self.pid, json.dumps(self.known)]
        self.proc = subprocess.Popen(
            cmd, cwd=self.cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL,
        )
        self.buf = b""
        first = self._read(120)
        if "fatal" in first:
            raise HarnessError("worker failed to start: " + first["fatal"])

    def _read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise Hang
            if select.select([fd], [], [], left)[0]:
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    raise EOFError
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None
            shutil.rmtree(self.cwd, ignore_errors=True)

    def run(self, case, timeout=None):
        timeout = timeout or getattr(self.mod, "TIMEOUT", 100)
        for attempt in (0, 1):
            if self.proc is None:
                self.start()
            try:
                self.proc.stdin.write(dumps(case).encode() + b"\n")
                self.proc.stdin.flush()
                return self._read(timeout)
            except Hang:
                self.stop()
                if attempt:
                    return {"v": {"msg": f"no answer in {timeout}s, twice", "key": "hang"},
                            "harness": None, "nt": True, "cls": {}, "n": 1, "findings": []}
            except (EOFError, BrokenPipeError):
                rc = self.proc.wait()
                self.stop()
                if attempt:
                    return {"v": {"msg": f"interpreter died (exit {rc}), twice", "key": "crash"},
                            "harness": None, "nt": True, "cls": {}, "n": 1, "findings": []}


class Found(Exception):
    pass


def shard_main(pid, shard, nshards, seed, tier, scratch):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    scratch = Path(scratch)
    mod = importlib.import_module(f"props.{pid}")
    stopflag = scratch / "stop"
    # The wall-clock guard only bounds pathological slowness: cases are counted.
    guard = float(os.environ.get("VERIF_GUARD", 300 if tier == "quick" else 5400))
    t0 = time.monotonic()
    w = Worker(pid, mod, scratch)
    st = {"evaluations": 0, "cases": 0, "hashes": set(), "classes": {}, "samples": [],
          "nontrivial": 0, "findings": {}, "violation": None, "harness": None,
          "truncated": False}
    shrink_end = [None]
    bad = {}

    def one(case):
        key = hashlib.blake2b(dumps(case).encode(), digest_size=8).hexdigest()
        if key in bad:
            raise Found
        now = time.monotonic()
        if shrink_end[0] is not None and now > shrink_end[0]:
            return
        if now - t0 > guard:
            st["truncated"] = True
            return
        if stopflag.exists() and st["violation"] is None:
            return
        res = w.run(case)
        if os.environ.get("VERIF_SLOW") and time.monotonic() - now > 10:
            with open(os.environ["VERIF_SLOW"], "a") as f:
                f.write(f"{time.monotonic() - now:.1f} {dumps(case)}\n")
        if res["harness"]:
            st["harness"] = {"case": enc(case), "error": res["harness"]}
            raise HarnessError(res["harness"])
        if shrink_end[0] is None:
            st["cases"] += 1
            st["evaluations"] += res["n"]
            for k, v in res["cls"].items():
                st["classes"][k] = st["classes"].get(k, 0) + v
            for k in res["findings"]:
                st["findings"].setdefault(k, enc(case))
            if res["nt"]:
                st["nontrivial"] += 1
                if key not in st["hashes"] and (len(st["hashes"]) % 50) == 7 or not st["samples"]:
                    if len(st["samples"]) < 4 and len(dumps(case)) < 3000:
                        st["samples"].append(enc(case))
                st["hashes"].add(key)
        if res["v"]:
            if shrink_end[0] is None:
                shrink_end[0] = time.monotonic() + float(os.environ.get("VERIF_SHRINK_S") or getattr(mod, "SHRINK_S", 45))
                stopflag.touch()
            bad[key] = True
            st["violation"] = {"case": enc(case), **res["v"]}
            raise Found

    try:
        if hasattr(mod, "explicit"):
            for i, case in enumerate(mod.explicit(tier)):
                if i % nshards == shard:
                    one(case)
        n = mod.QUICK if tier == "quick" else mod.THOROUGH
        n = int(os.environ.get("VERIF_N", n)) // nshards
        if n and hasattr(mod, "cases"):
            @hypothesis.seed(seed * 1000 + shard)
            @settings(max_examples=n, database=None, deadline=None,
                      suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
            @given(mod.cases(tier))
            def search(case):
                one(case)

            search()
    except HarnessError:
        pass
    except Found:
        pass
    except BaseException as e:
        if st["violation"] is None and st["harness"] is None:
            import traceback

            st["harness"] = {"case": None, "error": "".join(traceback.format_exception(e))[-4000:]}
    finally:
        w.stop()
    st["hashes"] = sorted(st["hashes"])
    (scratch / f"result{shard}.json").write_text(json.dumps(st))


def replay(pid, path):
    mod = importlib.import_module(f"props.{pid}")
    case = loads(json.dumps(json.loads(Path(path).read_text())["case"]))
    scratch = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
    try:
        w = Worker(pid, mod, scratch)
        res = w.run(case)
        w.stop()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(res, indent=1))
    if res["v"]:
        print(res["v"]["msg"])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 2 if res["harness"] else 0


def main(argv):
    pid = argv[0]
    if argv[1:2] == ["--shard"]:
        shard, n, seed, tier, scratch = argv[2:7]
        return shard_main(pid, int(shard), int(n), int(seed), tier, scratch)
    if argv[1:2] == ["--replay"]:
        return replay(pid, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    mod = importlib.import_module(f"props.{pid}")
    nshards = int(os.environ.get("VERIF_SHARDS", getattr(mod, "SHARDS", 8)))
    scratch = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
    os.chmod(scratch, 0o755)
    procs = []
    try:
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONPATH=str(VERIF),
                   PYTHONDONTWRITEBYTECODE="1", HYPOTHESIS_STORAGE_DIRECTORY=str(scratch / "refhyp"))
        for i in range(nshards):
            procs.append(subprocess.Popen(
                [sys.executable, "-m", "vlib.driver", pid, "--shard", str(i), str(nshards),
                 str(seed), tier, str(scratch)], env=env, cwd=scratch,
                stdout=None, stderr=None))
        for p in procs:
            p.wait()
        results = []
        for i in range(nshards):
            f = scratch / f"result{i}.json"
            results.append(json.loads(f.read_text()) if f.exists() else
                           {"harness": {"case": None, "error": f"shard {i} died: {procs[i].returncode}"},
                            "evaluations": 0, "cases": 0, "hashes": [], "classes": {}, "samples": [],
                            "nontrivial": 0, "findings": {}, "violation": None, "truncated": False})
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    classes, samples, hashes, findings = {}, [], set(), {}
    for r in results:
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        samples += r["samples"][:1]
        hashes.update(r["hashes"])
        findings.update(r["findings"])
    violations = [r["violation"] for r in results if r["violation"]]
    harness = [r["harness"] for r in results if r["harness"]]
    evidence = {
        "property": pid, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "cases": sum(r["cases"] for r in results),
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples[:4],
            "classes": dict(sorted(classes.items())),
            "truncated_by_time_guard": any(r["truncated"] for r in results),
            "harness_errors": len(harness),
            "known_findings_seen": findings,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    print(f"{pid}: tier={tier} seed={seed} cases={evidence['coverage']['cases']} "
          f"evaluations={evidence['coverage']['evaluations']} "
          f"distinct_nontrivial={len(hashes)} wall={evidence['wall_s']}s")
    for k, d in known_findings(pid).items():
        if k in findings:
            print(f"KNOWN-FINDING: property={pid} {d['what']}")
    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v["case"])))
        (VERIF / "replay").mkdir(exist_ok=True)
        body = json.dumps({"property": pid, "seed": seed, **v}, indent=1)
        name = VERIF / "replay" / f"{pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json"
        name.write_text(body + "\n")
        print("key:", v["key"])
        print(v["msg"])
        print(f"VIOLATION property={pid} replay={name}")
        return 1
    if harness:
        print("HARNESS ERROR (not a verdict):", harness[0]["error"], json.dumps(harness[0]["case"])[:2000],
              file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

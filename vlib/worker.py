"""Executes cases against the code under test.

Runs under /opt/venv/bin/python with /repo/hypothesis-python/src first on the
path; reads one JSON case per line on stdin and answers one JSON verdict per
line on the original stdout (fd 1 is redirected so the code under test may
print freely).
"""
import importlib
import json
import os
import random
import sys
import traceback
import warnings

SUT_SRC = os.path.realpath(
    os.path.join(os.environ.get("VERIF_REPO", "/repo"), "hypothesis-python/src")
)


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case is outside the property's domain (counted, never silent)."""


class Recorder:
    def __init__(self):
        self.nt = False
        self.cls = {}
        self.n = 0
        self.findings = []

    def fail(self, msg, key=None):
        if key is not None and key in KNOWN:
            self.findings.append(key)
            raise Skip("known finding")
        raise Violation(str(msg)[:4000], key)

    def check(self, cond, msg, key=None):
        self.n += 1
        if not cond:
            if callable(msg):
                msg = msg()
            self.fail(msg, key)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, *names):
        for name in names:
            self.cls[name] = self.cls.get(name, 0) + 1

    def evals(self, k=1):
        self.n += k


KNOWN = set()


def sut_frames(tb):
    out = []
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(SUT_SRC):
            out.append(f"{os.path.basename(f.filename)}:{f.name}")
    return out


def exception_frames(e, depth=0):
    out = sut_frames(e.__traceback__)
    if isinstance(e, BaseExceptionGroup) and depth < 4:
        for s in e.exceptions:
            out += exception_frames(s, depth + 1)
    return out


def execute(mod, case):
    R = Recorder()
    random.seed(case.get("seed", 0) if isinstance(case, dict) else 0)
    v = harness = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, R)
    except Violation as e:
        v = {"msg": str(e), "key": e.key}
    except Skip as e:
        R.label(f"skip:{e}")
    except (KeyboardInterrupt, SystemExit) as e:
        # nothing in the harness raises these on its own
        v = {"msg": "".join(traceback.format_exception(e))[-3000:], "key": "exit"}
    except BaseException as e:
        frames = exception_frames(e)
        text = "".join(traceback.format_exception(e))
        text = text if len(text) < 4000 else text[:1500] + "\n...\n" + text[-2500:]
        if frames:
            key = f"exc:{type(e).__name__}@{frames[-1]}"
            v = {"msg": "unexpected exception from the library: " + text, "key": key}
            if key in KNOWN:
                R.findings.append(key)
                v = None
        else:
            harness = text
    return {
        "v": v,
        "harness": harness,
        "nt": R.nt,
        "cls": R.cls,
        "n": max(1, R.n),
        "findings": R.findings,
    }


def main():
    from vlib.codec import loads

    pid, known = sys.argv[1], json.loads(sys.argv[2])
    KNOWN.update(known)
    out = os.fdopen(os.dup(1), "w", encoding="utf-8", buffering=1)
    inp = os.fdopen(os.dup(0), "r", encoding="utf-8")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(null, 2)
    try:
        mod = importlib.import_module(f"props.{pid}")
        import hypothesis

        if not os.path.realpath(hypothesis.__file__).startswith(SUT_SRC):
            raise RuntimeError(f"wrong hypothesis: {hypothesis.__file__}")
        if hasattr(mod, "setup"):
            mod.setup()
    except BaseException:
        print(json.dumps({"fatal": traceback.format_exc()}), file=out, flush=True)
        return 3
    print(json.dumps({"ready": True}), file=out, flush=True)
    for line in inp:
        res = execute(mod, loads(line))
        print(json.dumps(res), file=out, flush=True)
    return 0


if __name__ == "__main__":
    sys.modules["vlib.worker"] = sys.modules["__main__"]
    code = main()
    sys.stdout = sys.stderr = None
    os._exit(code)

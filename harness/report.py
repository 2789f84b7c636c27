"""Evidence, violations and known findings of one check."""
import json
import os
import time

from . import wenv

EVID = os.path.join(wenv.VERIF, "evidence")
REPLAY = os.path.join(wenv.VERIF, "replay")
CODE_DIRS = ("resources", "mock_ca", "pq_logic")
KNOWN = os.path.join(wenv.VERIF, "known_findings.jsonl")


def _jsonable(o):
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=str)
    if isinstance(o, bytes):
        return o.hex()
    return str(o)


class Report:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time_ns()
        self.t0 = time.monotonic()
        self.violations, self.known_hit, self.cov, self.assumptions = [], {}, {}, []
        self.samples, self.errors = [], []
        self.known = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as fh:
                for line in fh:
                    line = line.strip()
                    if not line or line.startswith("#"):
                        continue
                    rec = json.loads(line)
                    if rec.get("property") == pid and rec.get("status") == "known":
                        self.known[rec["key"]] = rec["what"]

    def elapsed(self):
        return time.monotonic() - self.t0

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in self.cov:
                self.cov[k] += v
            else:
                self.cov[k] = v

    def violation(self, key, detail):
        """A disagreement between the code and the specification; key identifies the failing input."""
        if key in self.known:
            self.known_hit.setdefault(key, detail)
            return
        self.violations.append({"key": key, "detail": detail})

    def _split_errors(self):
        """An exception that comes out of the code under test is behaviour the specification does not have."""
        rest = []
        for e in self.errors:
            frames = [ln for ln in str(e).splitlines() if ln.strip().startswith("File ")]
            own = [ln for ln in frames if "/harness/" in ln or "/checks/" in ln]
            code = [ln for ln in frames if any(f"/{d}/" in ln for d in CODE_DIRS)]
            last = str(e).strip().splitlines()[-1] if str(e).strip() else ""
            harness_side = (not code or (own and frames.index(own[-1]) > frames.index(code[-1]))
                            or last.startswith(("ImportError", "ModuleNotFoundError", "MemoryError", "NameError"))
                            or "unexpected keyword argument" in last)
            if harness_side:
                rest.append(e)
            else:
                self.violation("raised:" + last[:80], str(e)[-1500:])
        self.errors = rest

    def finish(self):
        self._split_errors()
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["(none)"]
        ev = {"property": self.pid, "tier": self.tier, "seed": wenv.SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        path = os.path.join(EVID, f"{self.pid}.json")
        tmp = path + f".{os.getpid()}"
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=_jsonable)
        os.replace(tmp, path)
        for key in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {self.known[key]}")
        if self.errors:
            ev["errors"] = len(self.errors)
            for e in self.errors[:2]:
                print("CHECK-ERROR", self.pid, (str(e)[:150], str(e)[-500:]))
            if not self.violations:
                return 3
        stale = os.path.join(REPLAY, f"{self.pid}.json")
        if os.path.exists(stale):
            os.unlink(stale)
        if self.violations:
            os.makedirs(REPLAY, exist_ok=True)
            rp = os.path.join(REPLAY, f"{self.pid}.json")
            with open(rp, "w") as fh:
                json.dump(self.violations[:50], fh, indent=1, default=_jsonable)
            for v in self.violations[:3]:
                print("  ", json.dumps(v, default=_jsonable)[:900])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        brief = {k: v for k, v in cov.items() if k not in ("samples",)}
        print(f"OK property={self.pid} tier={self.tier} wall={self.elapsed():.1f}s", json.dumps(brief, default=_jsonable)[:600])
        return 0

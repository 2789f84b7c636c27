"""Decision tables: every case a specification prints is run on the real code."""
import json
import random

from harness import replay, tlc, wenv


def cases(rep, module, constants=None, invariants=(), properties=(), emit="EmitCase", **kw):
    c = dict(constants or {})
    res = tlc.run(module, dict(c, Emit=True), invariants=list(invariants), properties=list(properties),
                  constraints=[emit], **kw)
    if not res.cases:
        raise tlc.SpecViolation(f"{module} printed no case")
    rep.add(states=res.states, transitions=res.generated)
    out, seen = [], set()
    for x in res.cases:
        k = replay.canon(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    out.sort(key=replay.canon)
    return out


def sample(lst, keep_all, n):
    """All cases keep_all holds for, and n others chosen by the seed."""
    a = [x for x in lst if keep_all(x)]
    b = [x for x in lst if not keep_all(x)]
    random.Random(wenv.SEED).shuffle(b)
    return a + b[:n]


def run(rep, name, lst, fn, nproc=None, key=None):
    """fn(case) -> list of disagreements (strings) or (list, info)."""
    res = replay.pmap(fn, lst, nproc=nproc)
    n_ok = 0
    classes = {}
    for case, r in zip(lst, res):
        if isinstance(r, dict) and "__error__" in r:
            rep.errors.append(json.dumps(case, default=str)[:300] + "\n" + r["__error__"])
            continue
        if isinstance(r, dict):
            if "__hung__" in r:
                rep.violation(f"{name}:{key(case) if key else replay.canon(case)}", {"case": case, "why": [r["__hung__"]]})
            continue
        bad, info = (r if r and isinstance(r[0], list) else (r, None))
        if bad:
            rep.violation(f"{name}:{key(case) if key else replay.canon(case)}", {"case": case, "why": bad, "got": info})
        else:
            n_ok += 1
    rep.add(traces_validated_against_impl=len(lst))
    rep.cov.setdefault("tables", {})[name] = {"cases": len(lst), "agree": n_ok}
    for x in lst[:2]:
        rep.sample(x)
    return res

"""Shared parts of the checks that decide a property with spec/Lifecycle.tla."""
import random

from harness import tlc, replay, wenv

PROPS = ["LegalTransitions", "RefusalIsStutter", "ConfirmedByConf", "ClosedForever", "RejectedStaysNC",
         "NoDeadCredential", "OnlyHolderOrRA"]
INVS = ["TypeOK", "OpenMeansNC", "UpdHasHeir", "CrlSound", "PublishedSound"]
BAD = ["badHash", "otherHash", "badReqId", "noEntry", "twoEntries", "badStatus", "acceptedFail", "hashAlgV2", "emptyHash", "truncHash", "wrongHashAlg",
       "badRecip", "missRecip", "oldSender", "missSender", "shortSender", "unknownTx", "missTx", "otherMacAlg",
       "badProt", "noProt"]


def graph(n, kinds, variants, revops=("revoke", "revive"), probes=(), full=True):
    c = dict(N=n, Kinds=frozenset(kinds), ConfVariants=frozenset(variants), RevOps=frozenset(revops),
             Probes=frozenset(probes))
    res = tlc.run("Lifecycle", dict(c, Emit=False), view="View", invariants=INVS, properties=PROPS) if full else None
    em = tlc.run("Lifecycle", dict(c, Emit=True), view="EView", invariants=["TypeOK"],
                 action_constraints=["EmitEdge"])
    init = dict(st=["none"] * n, tx=["none"] * n, pend=[[0, False]] * n, old=[False] * n)
    return res, em, replay.Graph(em.edges, init)


def edge_class(e):
    """What may matter for the answer: the request, its signer's and its target's state."""
    a, f = e["a"], e["f"]

    def state(i):
        if not i or i == 9:
            return i
        return f["st"][i - 1], f["tx"][i - 1], f["old"][i - 1]

    s = a.get("s")
    own = None
    if a["op"] == "conf":
        own = f["pend"][s - 1][0] == a["p"]
    return (a["op"], a.get("k"), a.get("v"), a.get("impl"), state(a.get("p")), state(a.get("t")),
            state(s) if a["op"] != "enrol" else None, own, a.get("p") == a.get("t"), a.get("p") == s,
            tuple(e["r"]["fail"]), e["r"]["ok"])


def sampler(g, per_class, all_changing=True, max_edges=None):
    """Keep every state-changing transition and per_class transitions of every class of the others."""
    rng = random.Random(wenv.SEED)
    items = [it for s in sorted(g.out) for it in g.out[s]]
    rng.shuffle(items)
    cnt, keep = {}, set()
    for e, f, t in items:
        if all_changing and f != t:
            keep.add(id(e))
            continue
        c = edge_class(e)
        if cnt.get(c, 0) < per_class:
            cnt[c] = cnt.get(c, 0) + 1
            keep.add(id(e))
    return (lambda e: id(e) in keep), len(cnt)


def run(rep, name, g, make_world, keep, deadline):
    st, bad, errs = replay.replay(g, make_world, keep=keep, deadline=deadline)
    rep.cov.setdefault("replays", {})[name] = st
    rep.add(traces_validated_against_impl=st["stats"].get("ok", 0) + st["stats"].get("bad", 0))
    for b in bad:
        rep.violation(f"{name}:{replay.canon(b['a'])}:{replay.canon(b['f'])}", b)
    rep.errors += [str(e.get("a")) + e["tb"] for e in errs]
    for s, lst in list(g.out.items())[:3]:
        rep.sample(lst[0][0])
    return st


def walks(rep, name, g, make_world, n, length):
    """Long random histories: what the code remembers beyond the specification's state shows up here."""
    rng = random.Random(wenv.SEED)
    plans = []
    for _ in range(n):
        s, plan = g.init, []
        for _ in range(length):
            ops = {}
            for item in g.out[s]:
                ops.setdefault(item[0]["a"]["op"], []).append(item)
            if not ops:
                break
            item = rng.choice(ops[rng.choice(sorted(ops))])
            if sum(1 for i in g.out[s] if i[0]["a"] == item[0]["a"]) > 1:
                break
            plan.append(item[0])
            s = item[2]
        plans.append(plan)

    def walk(plan):
        w = make_world()
        for k, e in enumerate(plan):
            bad = w.compare(e, w.do(e["a"]))
            if bad:
                return {"a": e["a"], "f": e["f"], "why": bad, "path": [x["a"] for x in plan[:k]]}
        return None

    res = replay.pmap(walk, plans)
    for r in res:
        if r and "__error__" in r:
            rep.errors.append(r["__error__"])
        elif r:
            rep.violation(f"{name}:walk:{replay.canon(r['a'])}:{replay.canon(r['f'])}", r)
    rep.add(walks=len(plans), walk_steps=sum(map(len, plans)))

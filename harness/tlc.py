"""Run TLC and collect what the specification prints.

A specification prints records with ``PrintT("@E" \\o ToJson(rec))`` (transitions) and
``PrintT("@C" \\o ToJson(rec))`` (cases of a decision table).
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import wenv

SPEC = os.path.join(wenv.VERIF, "spec")


class TLCResult:
    def __init__(self):
        self.edges, self.cases, self.log = [], [], []
        self.states = self.generated = self.depth = 0
        self.ok = False
        self.error = ""


class SpecViolation(Exception):
    """The specification itself does not have the property (or TLC failed): an error of the check."""


def make_cfg(path, spec="Spec", constants=None, view=None, invariants=(), properties=(), action_constraints=(),
             constraints=(), init=None, next_=None, postcondition=None, symmetry=None):
    out = []
    if init:
        out += [f"INIT {init}", f"NEXT {next_}"]
    else:
        out.append(f"SPECIFICATION {spec}")
    if constants:
        out.append("CONSTANTS")
        out += [f"  {k} = {v}" for k, v in constants.items()]
    if view:
        out.append(f"VIEW {view}")
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    if properties:
        out.append("PROPERTIES " + " ".join(properties))
    if action_constraints:
        out.append("ACTION_CONSTRAINT " + " ".join(action_constraints))
    if constraints:
        out.append("CONSTRAINT " + " ".join(constraints))
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    if symmetry:
        out.append(f"SYMMETRY {symmetry}")
    out.append("CHECK_DEADLOCK FALSE")
    with open(path, "w") as fh:
        fh.write("\n".join(out) + "\n")


def tla(v):
    """A Python value as a TLA+ constant."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    return str(v)


def run(module, constants=None, workers=None, heap="6g", extra=(), timeout=800, must_pass=True, files=None, **cfg):
    """Check spec/<module>.tla with a configuration made from the arguments; return a TLCResult."""
    work = tempfile.mkdtemp(prefix="tlc-", dir=wenv.SCRATCH)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, text in (files or {}).items():
            with open(os.path.join(work, name), "w") as fh:
                fh.write(text)
        consts = {k: (v if isinstance(v, Raw) else tla(v)) for k, v in (constants or {}).items()}
        make_cfg(os.path.join(work, "MC.cfg"), constants=consts, **cfg)
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}
        env["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Djava.io.tmpdir={work}"
        cmd = ["tlc", "-workers", str(workers or min(8, wenv.NPROC)), "-metadir", os.path.join(work, "md"),
               "-noGenerateSpecTE", "-config", "MC.cfg", *extra, module + ".tla"]
        res = TLCResult()
        proc = subprocess.Popen(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            for line in proc.stdout:
                line = line.rstrip("\n")
                if line.startswith('"@'):
                    s = json.loads(line)
                    rec = json.loads(s[2:])
                    (res.edges if s[1] == "E" else res.cases).append(rec)
                    continue
                res.log.append(line)
                m = re.search(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    res.generated, res.states = int(m.group(1)), int(m.group(2))
                m = re.search(r"depth of the complete state graph search is (\d+)", line)
                if m:
                    res.depth = int(m.group(1))
                if "No error has been found" in line:
                    res.ok = True
            proc.wait(timeout=timeout)
        finally:
            if proc.poll() is None:
                proc.kill()
                proc.wait()
        if not res.ok:
            res.error = "\n".join(res.log[-60:])
            if must_pass:
                raise SpecViolation(f"TLC on {module} failed:\n" + "\n".join(res.log[-14:]))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


class Raw(str):
    """A constant value that is already TLA+ text."""

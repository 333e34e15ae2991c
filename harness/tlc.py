"""Runs TLC on the modules of /verif/spec."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
_ACTION = re.compile(r"^<(\w+) line .*?>: (\d+):(\d+)", re.M)


class TlcError(Exception):
    """TLC did not finish, or the specification itself is broken: an error of the check."""


class Result:
    def __init__(self, rc: int, out: str):
        self.rc = rc
        self.out = out
        m = _STATES.findall(out)
        self.generated, self.states, left = map(int, m[-1]) if m else (0, 0, 1)
        self.done = rc == 0 and left == 0 and "No error has been found" in out
        self.actions = {a: int(n) for a, n, _ in _ACTION.findall(out)}


def run(module: str, work: Path, *, cfg: str | None = None, workers: int = 8, env: dict | None = None, heap: str = "3g",
        timeout: float = 800, coverage: bool = False) -> Result:
    meta = work / f"meta-{module}-{os.getpid()}-{len(list(work.iterdir()))}"
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", str(meta), "-config", str(cfg or SPEC / f"{module}.cfg")]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(str(SPEC / f"{module}.tla"))
    e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError(f"TLC on {module} ran out of its {timeout} s") from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Result(p.returncode, p.stdout)


def parse_all() -> int:
    """Every module parses (nothing has to be built)."""
    mods = sorted(p.name for p in SPEC.glob("*.tla"))
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", *mods], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and "*** Errors" not in p.stdout
    print(f"{len(mods)} modules" if ok else p.stdout[-3000:])
    return 0 if ok else 2


def lines(path: Path) -> list:
    """Records written by CSVWrite("%1$s", <<ToJson(r)>>, file)."""
    if not path.exists():
        return []
    out = []
    with path.open() as f:
        for ln in f:
            x = json.loads(ln)
            out.append(json.loads(x) if isinstance(x, str) else x)
    return out


def model(module: str, work: Path, *, cfg: str | None = None, workers: int = 8, timeout: float = 800, env: dict | None = None):
    """Exhaustive exploration.  Returns (Result, emitted behaviours)."""
    out = work / f"{module}.out"
    if out.exists():
        out.unlink()
    cfgp = SPEC / cfg if cfg else None
    r = run(module, work, cfg=cfgp, workers=workers, timeout=timeout, env={"OUT": out, **(env or {})})
    if not r.done:
        raise TlcError(f"{module}: the specification is not accepted\n{r.out[-3000:]}")
    return r, lines(out)


def judge(module: str, traces: list[dict], work: Path, *, shards: int = 8, timeout: float = 800):
    """Trace validation.  Returns (verdicts of rejected lines, states, transitions)."""
    if not traces:
        return [], 0, 0
    shards = max(1, min(shards, (len(traces) + 19) // 20))
    jobs = []
    for k in range(shards):
        part = traces[k::shards]
        t = work / f"{module}-{k}.ndjson"
        with t.open("w") as f:
            for x in part:
                f.write(json.dumps(x) + "\n")
        jobs.append((k, t, len(part)))

    def one(job):
        k, t, n = job
        v = work / f"{module}-{k}.verdicts"
        if v.exists():
            v.unlink()
        sub = work / f"tlc-{module}-{k}"
        sub.mkdir(exist_ok=True)
        r = run(module, sub, workers=1, env={"TRACE": t, "VERDICTS": v}, timeout=timeout, heap="1500m")
        if not r.done or r.states != n + 1:
            raise TlcError(f"{module}: the trace could not be judged ({r.states} of {n + 1})\n{r.out[-3000:]}")
        return r, lines(v)

    bad, st, tr = [], 0, 0
    with ThreadPoolExecutor(shards) as ex:
        for r, v in ex.map(one, jobs):
            bad += v
            st += r.states
            tr += r.generated - 1
    return bad, st, tr

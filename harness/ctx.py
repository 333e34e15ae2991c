"""Common machinery of a check: model exploration, replay, trace validation, verdict, evidence."""
from __future__ import annotations

import copy
import hashlib
import json
import os
import shutil
import tempfile
import time
from pathlib import Path

import gen
import pool
import tlc

ROOT = Path(__file__).resolve().parent.parent
KNOWN = ROOT / "known-findings.txt"


class Ctx:
    def __init__(self, prop: str):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.deep = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
        self.states = self.transitions = self.traces = 0
        self.stages: list[dict] = []
        self.samples: list = []
        self.fails: list[dict] = []
        self.assumptions: list[str] = []

    # ------------------------------------------------------------------ sizes
    def size(self, quick: int, thorough: int) -> int:
        return thorough if self.deep else quick

    def rng(self, name: str):
        return gen.G(f"{self.seed}:{self.prop}:{name}")

    # ------------------------------------------------------------------ model
    def model(self, module: str, cfg: str | None = None, **kw):
        """Explore a bounded model exhaustively; the behaviours it hands over are returned."""
        t = time.time()
        r, emitted = tlc.model(module, self.work, cfg=cfg, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.stages.append({"stage": f"model {cfg or module}", "states": r.states, "transitions": r.generated,
                            "behaviours_emitted": len(emitted), "wall_s": round(time.time() - t, 1)})
        return emitted

    # ------------------------------------------------------------------ real code
    def run(self, kind: str, cases: list, *, limit: float = 60.0) -> list:
        return pool.run(kind, cases, self.work, limit=limit)

    def fail(self, stage: str, case, why, obs=None, want=None):
        self.fails.append({"stage": stage, "why": why, "case": case, "obs": obs, "want": want})

    def stage(self, name: str, n: int, t: float, **kw):
        self.traces += n
        self.stages.append({"stage": name, "traces": n, "wall_s": round(time.time() - t, 1), **kw})

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 4000 else s[:4000])

    def replay(self, name: str, kind: str, cases: list, want, *, limit: float = 60.0, weight=None):
        """Run the cases; want(case, obs) is None when the observation is the specified one, else the expectation."""
        t = time.time()
        obs = self.run(kind, cases, limit=limit)
        n = 0
        for c, o in zip(cases, obs):
            if o is None:
                continue
            n += weight(c) if weight else 1
            w = want(c, o)
            if w is not None:
                self.fail(name, c, "differs from the specification", o, w)
        if cases:
            self.sample({"stage": name, "case": cases[len(cases) // 2], "obs": obs[len(cases) // 2]})
        self.stage(name, n, t)
        return obs

    def validate(self, name: str, module: str, kind: str, cases: list, *, limit: float = 60.0, drop=("book",), shards: int = 8,
                 corrupt=None, thin=None):
        """Record runs of the real code and let TLC judge each of them."""
        t = time.time()
        obs = self.run(kind, cases, limit=limit)
        lines, by = [], {}
        outcomes: dict = {}
        for c, o in zip(cases, obs):
            if o is None:
                continue
            o = dict(o)
            key = "ok" if o.get("ok", True) else o.get("err", "?")
            outcomes[key] = outcomes.get(key, 0) + 1
            if o.get("err") in ("HANG",) or str(o.get("err", "")).startswith("CRASH"):
                self.fail(name, c, o["err"], o)
                continue
            ln = {k: v for k, v in (thin(dict(c)) if thin else c).items() if k not in drop}
            ln["obs"] = {k: v for k, v in o.items() if k != "msg"}
            lines.append(ln)
            by[c["id"]] = (c, o)
        real_n = len(lines)
        fakes = []
        if corrupt:
            for ln in lines:
                f = corrupt(copy.deepcopy(ln))
                if f:
                    f["id"] = "!" + f["id"]
                    fakes.append(f)
                if len(fakes) >= 8:
                    break
        bad, st, _ = tlc.judge(module, lines + fakes, self.work, shards=shards)
        rejected = {v["id"]: v for v in bad}
        for f in fakes:     # (a copy of a line that is itself wrong may have become right)
            if rejected.pop(f["id"], None) is None and f["id"][1:] not in rejected:
                raise tlc.TlcError(f"{module}: accepted a corrupted trace {f['id']}")
        for i, v in rejected.items():
            c, o = by[i]
            self.fail(name, c, v.get("clause", "rejected"), o, v.get("want"))
        if lines:
            self.sample({"stage": name, "line": lines[len(lines) // 2]})
        self.stage(name, real_n, t, outcomes=outcomes, corrupted_traces_rejected=len(fakes))

    # ------------------------------------------------------------------ end
    def known(self) -> dict[str, str]:
        """key -> text of every finding listed for this property."""
        out = {}
        if KNOWN.exists():
            for ln in KNOWN.read_text().splitlines():
                if ln.startswith(f"finding: property={self.prop} key="):
                    rest = ln.split("key=", 1)[1]
                    key, _, text = rest.partition(" ")
                    out[key] = text
        return out

    @staticmethod
    def key(f: dict) -> str:
        c = {k: v for k, v in f["case"].items() if k != "id"} if isinstance(f["case"], dict) else f["case"]
        return hashlib.sha256(json.dumps([f["stage"], c], sort_keys=True).encode()).hexdigest()[:16]

    def finish(self) -> int:
        known = self.known()
        new = []
        for f in self.fails:
            k = self.key(f)
            if k in known:
                print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
            else:
                new.append(f)
        paths = []
        rdir = ROOT / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        for old in rdir.glob(f"{self.prop}-*.json"):
            old.unlink()
        for i, f in enumerate(new[:5]):
            p = rdir / f"{self.prop}-{i}.json"
            p.write_text(json.dumps({"property": self.prop, "key": self.key(f), **f}, indent=1))
            paths.append(p)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples, "stages": self.stages},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new),
        }
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        for s in self.stages:
            print("  ", json.dumps(s))
        for p, f in zip(paths, new):
            print(f"VIOLATION property={self.prop} replay={p}")
            print("   ", f["stage"], f["why"], "want", json.dumps(f["want"])[:300], "obs", json.dumps(f["obs"])[:300])
        print(f"{self.prop}: {len(new)} violations, {self.states} states, {self.traces} traces, {ev['wall_s']} s")
        return 1 if new else 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

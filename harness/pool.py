"""Runs cases on the real code in worker processes, with a watchdog: a case may hang or kill its process."""
from __future__ import annotations

import json
import os
import signal
import subprocess
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"


class _Worker:
    def __init__(self, k: int, kind: str, cases: list, work: Path, limit: float):
        self.kind, self.cases, self.limit = kind, cases, limit
        self.src = work / f"cases-{kind}-{k}.ndjson"
        self.dst = work / f"obs-{kind}-{k}.ndjson"
        with self.src.open("w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        self.obs: list = []
        self.fh = None
        self.proc = None
        self.buf = b""
        self.stuck = 0
        self.done = not cases
        if cases:
            self.start()

    def start(self):
        self.dst.write_bytes(b"")
        if self.fh:
            self.fh.close()
        self.fh = self.dst.open("rb")
        self.buf = b""
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", ARROW_NUM_THREADS="1")
        self.err = self.dst.with_suffix(".err").open("w+")
        self.proc = subprocess.Popen([PY, "-P", str(HERE / "worker.py"), self.kind, str(self.src), str(self.dst), str(len(self.obs))],
                                     stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err,
                                     cwd="/", env=env, start_new_session=True)
        self.t = time.monotonic()

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if self.proc:
            self.proc.wait()

    def drain(self):
        data = self.fh.read()
        if data:
            self.t = time.monotonic()
            self.buf += data
            *full, self.buf = self.buf.split(b"\n")
            for ln in full:
                self.obs.append(json.loads(ln))

    def poll(self):
        if self.done:
            return
        rc = self.proc.poll()
        self.drain()
        if len(self.obs) >= len(self.cases):
            self.done = True
            self.kill()
            return
        if rc is not None:
            self.drain()
            if len(self.obs) >= len(self.cases):
                self.done = True
                return
            self.err.seek(0)
            self.next({"ok": False, "err": f"CRASH({rc})", "msg": self.err.read()[-400:]})
        elif time.monotonic() - self.t > self.limit:
            self.kill()
            self.drain()
            if len(self.obs) < len(self.cases):
                self.next({"ok": False, "err": "HANG", "msg": f"no answer in {self.limit:.0f} s"})

    def next(self, obs):
        """The current case has no answer of its own."""
        self.obs.append(obs)
        self.stuck += 1
        if self.stuck >= 2:
            while len(self.obs) < len(self.cases):
                self.obs.append(None)
        if len(self.obs) >= len(self.cases):
            self.done = True
        else:
            self.start()


def run(kind: str, cases: list, work: Path, *, procs: int = 8, limit: float = 60.0) -> list:
    """Observations in the order of cases (None: not run, because its worker was given up)."""
    procs = max(1, min(procs, len(cases)))
    ws = [_Worker(k, kind, cases[k::procs], work, limit) for k in range(procs)]
    try:
        while not all(w.done for w in ws):
            for w in ws:
                w.poll()
            time.sleep(0.02)
    finally:
        for w in ws:
            w.kill()
            if w.fh:
                w.fh.close()
    out: list = [None] * len(cases)
    for k, w in enumerate(ws):
        out[k::procs] = w.obs
    return out

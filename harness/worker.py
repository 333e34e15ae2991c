"""Worker: runs the cases of a file on the real code and writes one observation per line."""
import json
import os
import resource
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))


def main():
    kind, src, dst, start = sys.argv[1:]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import kinds

    fn = getattr(kinds, "do_" + kind)
    with open(src) as f, open(dst, "w") as out:
        for i, ln in enumerate(f):
            if i < int(start):
                continue
            out.write(json.dumps(fn(json.loads(ln))) + "\n")
            out.flush()
    os._exit(0)   # threads that a broken reader left behind must not keep the worker alive


main()

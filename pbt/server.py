"""computes results of cases in another process: one JSON request per line in stdin, one JSON result per line in stdout"""
import importlib
import json
import logging
import os
import sys

from pbt import core


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    core.import_subject()
    logging.disable(logging.CRITICAL)
    for line in sys.stdin:
        q = json.loads(line)
        mod = importlib.import_module("pbt.props." + q["module"])
        try:
            r = dict(ok=getattr(mod, q["function"])(*q["args"]))
        except Exception as e:  # noqa
            r = dict(error="{}: {}".format(type(e).__name__, e))
        out.write(json.dumps(r, default=float) + "\n")
        out.flush()


class Server:
    """a process with its own hash seed that has run other things before"""
    alive = {}

    @classmethod
    def call(cls, seed, module, function, *args):
        import subprocess
        if (os.getpid(), seed) not in cls.alive:
            env = dict(os.environ, PYTHONHASHSEED=str(seed))
            cls.alive[os.getpid(), seed] = subprocess.Popen(
                [sys.executable, "-m", "pbt.server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                cwd=core.VERIF, env=env)
        p = cls.alive[os.getpid(), seed]
        p.stdin.write(json.dumps(dict(module=module, function=function, args=args)) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise RuntimeError("the process of seed {} ended".format(seed))
        return json.loads(line)


if __name__ == "__main__":
    main()

"""Run a function in a fork where symfem is imported afresh."""

import json
import os
import shutil
import signal
import sys
import tempfile


def fresh_run(fn, limit=150):
    """fn() in a new process with a new import of symfem and its own cache; its (JSON) result, or None if it did not finish.

    An exception is passed on as ("exception", type name, text).
    """
    d = tempfile.mkdtemp()
    path = os.path.join(d, "answer")
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(limit)
                for m in [m for m in sys.modules if m == "symfem" or m.startswith("symfem.")]:
                    del sys.modules[m]
                sys.dont_write_bytecode = True
                os.environ["XDG_CACHE_HOME"] = os.path.join(d, "cache")
                out = fn()
                with open(path, "w") as f:
                    json.dump(out, f)
                code = 0
            except BaseException:  # noqa: BLE001
                import traceback

                with open(path, "w") as f:
                    f.write(traceback.format_exc())
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            return None
        with open(path) as f:
            text = f.read()
        if status != 0:
            return {"failed": text[-1500:]}
        return json.loads(text)
    finally:
        shutil.rmtree(d, ignore_errors=True)

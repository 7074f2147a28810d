"""Which lines of symfem a run executes (VERIF_COV=DIR): to find what no check reaches."""

import os
import sys


def install(folder, root):
    """Append every line of the repository that this process (or a fork of it) executes for the first time to a file."""
    m = sys.monitoring
    fd = os.open(os.path.join(folder, f"{os.getpid()}"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    m.use_tool_id(m.COVERAGE_ID, "verif")

    def on_line(code, line):
        if code.co_filename.startswith(root):
            try:
                os.write(fd, f"{code.co_filename[len(root) :]}:{line}\n".encode())
            except OSError:
                pass
        return m.DISABLE

    m.register_callback(m.COVERAGE_ID, m.events.LINE, on_line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)

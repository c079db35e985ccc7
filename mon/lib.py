"""Import the code under test from /repo and observe it: coverage of its lines, a step counter, silenced prints."""
import contextlib
import io
import os
import sys
import time

REPO = os.environ.get("SPINE_REPO", "/repo")
PKG = os.path.join(REPO, "spine_json_lib") + os.sep

LINES = {}          # file -> set of executed line numbers
_TOOL = 3
_yield = {"on": False, "n": 0, "every": 0}
_steps = {"on": False, "n": 0, "limit": 0}


class StepLimit(BaseException):
    """The code under test executed more lines than any terminating run needs."""


def _on_line(code, line):
    if not code.co_filename.startswith(PKG):
        return sys.monitoring.DISABLE
    LINES.setdefault(code.co_filename[len(PKG):], set()).add(line)
    if _steps["on"]:
        _steps["n"] += 1
        if _steps["n"] > _steps["limit"]:
            _steps["on"] = False
            raise StepLimit("more than %d lines executed" % _steps["limit"])
        return None
    if _yield["on"]:
        _yield["n"] += 1
        if _yield["n"] % _yield["every"] == 0:
            time.sleep(0)       # hand the interpreter to another thread in the middle of library code
        return None
    return sys.monitoring.DISABLE


def install():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "verif")
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    mon.set_events(_TOOL, mon.events.LINE)
    import spine_json_lib
    got = os.path.realpath(spine_json_lib.__file__)
    if not got.startswith(os.path.realpath(PKG)):
        raise SystemExit("library imported from %s, not from %s" % (got, PKG))


@contextlib.contextmanager
def step_limit(limit):
    sys.monitoring.restart_events()
    _steps.update(on=True, n=0, limit=limit)
    try:
        yield
    finally:
        _steps["on"] = False


@contextlib.contextmanager
def forced_switches(every):
    """Offer the interpreter to another thread after every `every` executed lines of the library."""
    sys.monitoring.restart_events()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    _yield.update(on=True, n=0, every=every)
    try:
        yield
    finally:
        _yield["on"] = False
        sys.setswitchinterval(old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield

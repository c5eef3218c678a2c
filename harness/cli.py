"""Running the command line tools of the repository.  By default in a forked
copy of this process (the script is run as __main__), sometimes as a process
of its own."""
import logging
import os
import re
import runpy
import signal
import subprocess
import sys
import tempfile
import traceback

import runner
import sut


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        self.tb = "Traceback (most recent call last)" in err or rc < 0

    def lines(self):
        return self.out.split("\n")


def _child(script, args, out, err, cwd, env, limit):
    code = 70
    try:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(limit)
        os.dup2(out.fileno(), 1)
        os.dup2(err.fileno(), 2)
        nul = os.open(os.devnull, os.O_RDONLY)
        os.dup2(nul, 0)
        sys.stdout = open(1, "w", encoding="utf-8", errors="surrogateescape", closefd=False)
        sys.stderr = open(2, "w", encoding="utf-8", errors="backslashreplace", closefd=False)
        logging.disable(logging.NOTSET)
        for h in list(logging.root.handlers):
            logging.root.removeHandler(h)
        os.environ.update(env)
        if cwd:
            os.chdir(cwd)
        path = os.path.join(runner.REPO, script)
        sys.argv = [path] + args
        sys.path[0:0] = [runner.REPO]
        try:
            runpy.run_path(path, run_name="__main__")
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            if not (e.code is None or isinstance(e.code, int)):
                print(e.code, file=sys.stderr)
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
            code = 1
        logging.shutdown()
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code & 255)


def run(script, args, cwd=None, env=None, real=False):
    """Result of the command."""
    args = [str(a) for a in args]
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        limit = sut.limit()
        if real:
            p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(runner.REPO, script)] + args, stdin=subprocess.DEVNULL, stdout=out, stderr=err, cwd=cwd,
                               env=dict(os.environ, PYTHONPATH=runner.REPO, PYTHONDONTWRITEBYTECODE="1", **(env or {})))
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -signal.SIGALRM
        else:
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                _child(script, args, out, err, cwd, env or {}, limit)
            st = os.waitpid(pid, 0)[1]
            rc = os.waitstatus_to_exitcode(st)
        if rc == -signal.SIGALRM:
            sut.hangs(1)
        res = []
        for fh in (out, err):
            fh.seek(0)
            res.append(fh.read().decode("utf-8", "surrogateescape"))
    return Result(rc, *res)


VERDICT = re.compile(r"(?:OCFL v(?P<ov>.*?) Object at (?P<op>.*)|OCFL Storage Root at (?P<rp>.*)|Standalone OCFL v(?P<iv>.*?) inventory at (?P<ip>.*)) is (?P<v>VALID|INVALID)$|Bad path '(?P<bp>.*)' \(.*\)$", re.S)


def verdicts(text):
    """Status lines of ocfl-validate.py, in order, and the number of other lines."""
    res, other = [], 0
    for line in text.split("\n"):
        m = VERDICT.match(line)
        if not m:
            other += line.strip() != ""
            continue
        typ = "object" if m["op"] is not None else "root" if m["rp"] is not None else "file" if m["ip"] is not None else "bad"
        res.append({"typ": typ, "path": m["op"] or m["rp"] or m["ip"] or m["bp"] or "", "v": m["v"] or "BAD", "spec": m["ov"] or m["iv"] or ""})
    return res, other

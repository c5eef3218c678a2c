"""Calls of the code under test, with a time limit; outcomes are values."""
import os
import signal

import runner  # noqa: F401  (sets the path)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


PATIENCE = 60
HUNG = 0        # calls that did not end in time, in this process


def limit():
    """Seconds a call may take: less when it has been seen that some do not end."""
    return min(PATIENCE, 10) if hangs() else PATIENCE


def hangs(new=0):
    """How many calls of the current map over cases did not end in time."""
    global HUNG
    HUNG += new
    d = os.path.dirname(runner.scratch_base())
    if not os.path.basename(d).startswith("ocflv_"):     # not in a map
        return 0
    p = os.path.join(d, "hangs")
    if new:
        with open(p, "ab") as fh:
            fh.write(b"x")
    return os.path.getsize(p) if os.path.exists(p) else 0


def call(fn, *a, **k):
    """("ok", value) or ("exc", exception class name, message, exception)."""
    secs = limit()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    try:
        return ("ok", fn(*a, **k))
    except Timeout:
        hangs(1)
        return ("exc", "Timeout", "no result in %ds" % secs, None)
    except BaseException as e:  # pylint: disable=broad-except
        if isinstance(e, KeyboardInterrupt):
            raise
        return ("exc", type(e).__name__, str(e)[:300], e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def ecodes(log):
    """Numbers of the error codes in a validation log."""
    return sorted(set(c[:4] for c in log.codes if c.startswith("E")))


def verdict(how, r, log):
    if r[0] == "exc":
        return {"how": how, "grp": "", "v": "exc", "codes": [], "exc": r[1] + ": " + r[2]}
    return {"how": how, "grp": "", "v": "valid" if r[1] is True else ("invalid" if r[1] is False else "exc"), "codes": ecodes(log)}


def validate_object(path, how="validator", **kw):
    from ocfl.validator import Validator
    v = Validator(**kw)
    r = call(v.validate_object, path)
    return verdict(how, r, v.log)


def object_validate(path, how="object", lax=False, dig=True):
    import ocfl
    o = ocfl.Object(lax_digests=lax)
    r = call(o.validate, path, check_digests=dig)
    if r[0] == "exc":
        return {"how": how, "grp": "", "v": "exc", "codes": [], "exc": r[1] + ": " + r[2]}
    return verdict(how, ("ok", r[1][0]), r[1][1].log)


def inv_api(data, how="api", lax=False, forced=None):
    import ocfl
    iv = ocfl.InventoryValidator(lax_digests=lax)
    r = call(iv.validate, data, force_spec_version=forced)
    return verdict(how, r, iv.log)


def inv_file(path, how="standalone", lax=False, forced=None):
    import ocfl
    o = ocfl.Object(lax_digests=lax)
    r = call(o.validate_inventory, path, force_spec_version=forced)
    if r[0] == "exc":
        return {"how": how, "grp": "", "v": "exc", "codes": [], "exc": r[1] + ": " + r[2]}
    return verdict(how, ("ok", r[1][0]), r[1][1].log)


def snapshot(path):
    """Bytes, directories and types below path."""
    from scan import read_tree
    if not os.path.isdir(path):
        return None
    return read_tree(path)

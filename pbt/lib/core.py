"""Engine: runs the laws of a property over generated cases, in forked shards, and collects what was covered."""
import copy
import collections
import faulthandler
import hashlib
import json
import logging
import os
import pickle
import resource
import shutil
import signal
import sys
import time
import traceback
import ast
import warnings

WATCHDOG_CPU = 60      # seconds of CPU time a single case may take (cases take milliseconds)
WATCHDOG_WALL = 200
SHRINK_SECONDS = 45


class Law:
    """One executable law: `strategy` makes plain-data cases, `body(case, ctx)` raises if the law fails on it."""

    def __init__(self, name, strategy, body, quick=400, thorough=8000, shards=2, rule=""):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class HarnessError(BaseException):
    pass


class Ctx:
    def __init__(self, root):
        self.root = root
        self.n = 0
        self.reset()

    def reset(self):
        self.is_nontrivial = False
        self.labels = []
        self.dirs = []

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def label(self, *names):
        self.labels.extend(names)

    def dir(self):
        """A fresh directory for this case; removed afterwards."""
        self.n += 1
        d = os.path.join(self.root, "c%d" % self.n)
        os.mkdir(d)
        self.dirs.append(d)
        return d

    def cleanup(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:6], "big")


def _drop_privileges():
    """The code under test deletes and overwrites files; it gets an unprivileged user where that is possible."""
    if os.geteuid() == 0 and not os.environ.get("PBT_KEEP_ROOT"):
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass


def _silence():
    if os.environ.get("PBT_DEBUG"):
        return
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def _on_alarm(signum, frame):
    raise CaseTimeout("case did not finish within %s s (signal %d)" % (
        WATCHDOG_CPU if signum == signal.SIGPROF else WATCHDOG_WALL, signum))


def run_body(law, case, ctx, watchdog=True):
    """Runs one case. Returns None, or (kind, traceback text)."""
    ctx.reset()
    if watchdog:
        signal.setitimer(signal.ITIMER_PROF, WATCHDOG_CPU)
        signal.setitimer(signal.ITIMER_REAL, WATCHDOG_WALL)
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    try:
        law.body(copy.deepcopy(case), ctx)
        return None
    except Skip:
        ctx.label("skipped")
        ctx.is_nontrivial = False
        return None
    except (MemoryError, KeyboardInterrupt, HarnessError):
        raise
    except CaseTimeout as e:
        return "timeout", "%s\n%s" % (e, traceback.format_exc())
    except OSError as e:
        if e.errno in (28, 12, 24, 11):      # no space, no memory, too many files, cannot fork
            raise HarnessError(repr(e))
        return "error", traceback.format_exc()
    except BaseException:   # SystemExit included: the code under test has no business exiting
        return "error", traceback.format_exc()
    finally:
        if watchdog:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.cleanup()


def _own_home(root):
    """Each shard has its own home directory: importing and using the code under test writes to and empties ~/tmp."""
    home = os.path.join(root, "home")
    os.makedirs(os.path.join(home, "tmp"))
    os.chmod(home, 0o777)
    os.chmod(os.path.join(home, "tmp"), 0o777)
    os.environ["HOME"] = home
    os.environ["TMPDIR"] = home
    mod = sys.modules.get("nephosem")
    if mod is not None and isinstance(getattr(mod, "tmpdir", None), str):
        mod.tmpdir = os.path.join(home, "tmp")
    import tempfile
    tempfile.tempdir = None


class _Stop(BaseException):
    pass


def shard_main(law, examples, seed, deadline, out_path, cur_path, root):
    """Body of a shard process."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    ctx = Ctx(root)
    st = {"evals": 0, "skipped": 0, "late": 0, "labels": collections.Counter(), "hashes": set(), "samples": [],
          "failure": None, "error": None, "t0": time.time()}
    fail_time = [None]
    cur = open(cur_path, "wb", buffering=0)

    def finish():
        st["labels"] = dict(st["labels"])
        st["wall"] = time.time() - st["t0"]
        with open(out_path + ".part", "wb") as f:
            pickle.dump(st, f)
        os.rename(out_path + ".part", out_path)

    class Failed(Exception):
        pass

    def test(case):
        now = time.time()
        if fail_time[0] is None and now > deadline:
            st["late"] += 1
            raise _Stop()
        if fail_time[0] is not None and now - fail_time[0] > SHRINK_SECONDS:
            raise _Stop()
        text = repr(case)
        data = text.encode("utf-8", "backslashreplace")
        cur.seek(0)
        cur.write(data)
        cur.truncate(len(data))
        res = run_body(law, case, ctx)
        if fail_time[0] is None:
            st["evals"] += 1
            for l in ctx.labels:
                st["labels"][l] += 1
            if ctx.is_nontrivial:
                h = hashlib.blake2b(data, digest_size=8).digest()
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    k = len(st["hashes"])
                    if k in (1, 10, 60):
                        st["samples"].append(text[:1500])
        if res is not None:
            kind, tb = res
            if fail_time[0] is None:
                fail_time[0] = time.time()
            st["failure"] = {"law": law.name, "case": case, "kind": kind, "traceback": tb}
            if kind == "timeout":
                raise _Stop()
            raise Failed(kind)

    t = given(law.strategy)(test)
    t = settings(max_examples=examples, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                 phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False,
                 verbosity=hypothesis.Verbosity.quiet)(t)
    t = hypothesis.seed(seed)(t)
    try:
        t()
    except _Stop:
        pass
    except Failed:
        pass
    except HarnessError as e:
        st["error"] = repr(e)
    except BaseException:
        if st["failure"] is None:
            st["error"] = traceback.format_exc()
    finish()


def fork_call(fn, root, debug_path=None):
    pid = os.fork()
    if pid:
        return pid
    code = 3
    try:
        _silence()
        _own_home(root)
        _drop_privileges()
        logging.disable(logging.CRITICAL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        fn()
        code = 0
    except BaseException:
        try:
            with open(debug_path, "w") as f:
                f.write(traceback.format_exc())
        except BaseException:
            pass
    finally:
        os._exit(code)


def make_root(base, name):
    d = os.path.join(base, name)
    os.makedirs(d)
    os.chmod(d, 0o777)
    return d

"""P30: a corpus task that loses a worker, an input or its temporary storage reports it: no partial result, no endless wait."""
import os
import resource
from hypothesis import strategies as st
from lib import fakemp, gen, model as M
from lib.core import Law
from checks import p04

FAULTS = ["none", "kill", "kill", "kill", "missing", "undecodable", "unreadable", "disk", "lost"]
MUST_FAIL = ("missing", "undecodable", "unreadable")


@st.composite
def cases(draw):
    c = draw(p04.cases())
    c.pop("variants")
    c["foreign"] = False
    c["paths"] = "both"
    n = len(c["files"])
    w = draw(st.sampled_from([1, 2, 2, 3, 4, 9]))
    c["run"] = {"workers": w, "sched": draw(gen.schedule), "how": draw(st.sampled_from(["list", "list", "fnames"])),
                "cpus": draw(st.sampled_from([1, 2, 4, 10, 10]))}
    kind = draw(st.sampled_from(FAULTS))
    c["fault"] = {"kind": kind}
    if kind == "kill":
        c["fault"]["kills"] = [[draw(st.integers(0, min(w, 3) - 1)), draw(st.integers(1, 2 * n + 3)), draw(st.sampled_from(["before", "after"]))]
                               for _ in range(draw(st.integers(1, 2)))]
    elif kind == "lost":
        c["fault"].update(op=draw(st.integers(1, 3 * n + 3)), cut=draw(st.sampled_from([None, None, 0, 30])))
    elif kind == "disk":
        c["fault"]["limit"] = draw(st.sampled_from([0, 1, 40, 150, 400, 900]))
    else:
        if kind != "missing" and not n:
            c["fault"]["kind"] = "none"
        c["fault"]["at"] = draw(st.integers(0, n))
        c["fault"]["pos"] = draw(st.sampled_from(["start", "end"]))
    return c


def body(case, ctx):
    case["real"] = False
    root = ctx.dir()
    sett, names = M.write_corpus(case, root)
    if case["task"] == "tokens":
        labels = [w[0] for w in M.tokens(case, case["queries"], case["colv"])]
        if len(set(labels)) != len(labels):
            ctx.label("ambiguous labels")
            return
    base = p04.execute(case, sett, names, {"workers": 1, "sched": [], "how": "list", "cpus": 9})
    corpus = M.listing(sett["corpus-path"])
    fault, v = case["fault"], dict(case["run"])
    kind = fault["kind"]
    lst = list(names)
    undo = lambda: None
    k = fault.get("at", 0)
    if kind == "missing":
        lst.insert(k, os.path.join(sett["corpus-path"], "no", "such.txt"))
    elif kind in ("undecodable", "unreadable"):
        path = names[k % len(names)]
        with open(path, "rb") as f:
            old = f.read()
        if kind == "unreadable":
            os.chmod(path, 0)
            undo = lambda: os.chmod(path, 0o644)
            if os.access(path, os.R_OK):
                undo()
                ctx.label("privileged")
                return
        else:
            if sett.get("file-encoding", "utf-8").lower().replace("-", "") != "utf8":
                ctx.label("single-byte encoding")
                return
            with open(path, "wb") as f:
                f.write(b"\xff\xfe\n" + old if fault["pos"] == "start" else old + b"\xff\xfe\n")

            def undo():
                with open(path, "wb") as f:
                    f.write(old)
    elif kind == "kill":
        v["kills"] = [tuple(x) for x in fault["kills"]]
    lost = []
    if kind == "lost":
        def lose():
            """Temporary files disappear or are damaged."""
            for a, _, fs in os.walk(root):
                for f in fs:
                    p = os.path.join(a, f)
                    if f.startswith("sub.") and not p.startswith(os.path.normpath(sett["corpus-path"])):
                        lost.append(p)
                        if fault["cut"] is None:
                            os.unlink(p)
                        else:
                            os.truncate(p, fault["cut"])
        v["hooks"] = [(i, lose) for i in range(fault["op"], fault["op"] + 60)]
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    error = None
    try:
        if kind == "disk" and v["how"] == "list":
            resource.setrlimit(resource.RLIMIT_FSIZE, (fault["limit"], hard))
        got = p04.execute(case, sett, lst, v)
    except fakemp.Stuck:
        raise AssertionError("%s: the task waits for ever; worker errors: %s" % (fault, v["scheduler"].crashes))
    except Exception as e:
        error = e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        undo()
    s = v["scheduler"]
    if kind == "none":
        assert error is None, "nothing failed, but the task raised %r" % error
    elif kind in MUST_FAIL:
        assert error is not None, "%s: the task did not report that a file of the list could not be read, result %r" % (fault, got)
    if error is None:
        assert got == base, "%s (%d workers killed, errors %s): the task returned %r without an error, the complete result is %r" % (
            fault, s.killed, s.crashes, got, base)
    assert all(ch.done for ch in s.children), "worker processes still run after the task"
    assert M.listing(sett["corpus-path"]) == corpus, "the corpus was altered"
    again = p04.execute(case, sett, names, {"workers": 2, "sched": v["sched"], "how": "list", "cpus": 9})
    assert again == base, "after the failed run (%s) the same task gives %r instead of %r" % (fault, again, base)
    hit = s.killed > 0 or kind in MUST_FAIL or bool(s.crashes) or error is not None or bool(lost)
    ctx.nontrivial(hit and bool(base[0]))
    ctx.label("task " + case["task"], "fault " + kind, "fault took effect" if hit else "no effect", "raised" if error is not None else "complete")


LAWS = [Law("faults", cases(), body, quick=1100, thorough=25000, shards=8,
            rule="a corpus task during which a worker is killed at a generated queue operation, a listed file is missing, unreadable or not in the declared encoding, temporary files cannot be written, or they are lost or cut short before they are read; non-trivial if the fault took effect and the complete result is not empty")]
ASSUMPTIONS = ["a worker is killed only before or after one of its queue operations",
               "failing writes are produced by a limit on the size of a file that also holds for the parent"]

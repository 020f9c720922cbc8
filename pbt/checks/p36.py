"""P36: tasks of several programs that run at the same time, and the files of others in the temporary directories."""
import os
from hypothesis import strategies as st
from lib import fakemp, gen, model as M
from lib.core import Law
from checks import p04


@st.composite
def cases(draw):
    tasks = []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        c = draw(p04.cases())
        c.pop("variants")
        c["run"] = {"workers": draw(st.sampled_from([1, 2, 3, 9])), "sched": draw(gen.schedule), "how": draw(st.sampled_from(["list", "fnames"])), "cpus": draw(st.sampled_from([1, 2, 4, 9]))}
        c["at"] = draw(st.integers(1, 2 * len(c["files"]) + 6))
        tasks.append(c)
    return {"tasks": tasks, "paths": draw(st.sampled_from(["none", "none", "none", "tmp", "out", "both"])), "same": draw(st.booleans()), "nested": draw(st.booleans()),
            "how": draw(st.sampled_from(["run", "run", "create"]))}


def body(case, ctx):
    root = ctx.dir()
    home = os.environ["HOME"]
    todo = []
    for n, c in enumerate(case["tasks"]):
        d = os.path.join(root, "t%d" % n)
        sett, names = M.write_corpus(c, d)
        # where the programs put things: the default directories, or common or separate ones
        for key, name in (("output-path", "out"), ("tmp-path", "tmp")):
            if case["paths"] not in (name, "both"):
                del sett[key]
            elif case["same"]:
                sett[key] = os.path.join(root, name)
                os.makedirs(sett[key], exist_ok=True)
        if c["task"] == "tokens":
            labels = [w[0] for w in M.tokens(c, c["queries"], c["colv"])]
            if len(set(labels)) != len(labels):
                ctx.label("ambiguous labels")
                return
        todo.append((c, sett, names))
    base = [p04.execute(c, sett, names, {"workers": 1, "sched": [], "how": "list", "cpus": 9}) for c, sett, names in todo]
    foreign = {}
    dirs = {home, os.path.join(home, "tmp"), root} | {s[k] for _, s, _ in todo for k in ("output-path", "tmp-path") if k in s}
    for d in sorted(dirs):
        for sub in ("", "item.freq", "col.freq/1", "mine"):
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            for f in ("notes.txt", "nephosem.log", "sub.1.npz"):
                foreign[os.path.join(d, sub, f)] = "%s of %s" % (f, sub)
    for f, text in foreign.items():
        with open(f, "w") as out:
            out.write(text)
    results, ran = {}, []

    def run(n, hooks):
        c, sett, names = todo[n]
        v = dict(c["run"], hooks=hooks)
        got = p04.execute(c, sett, names, v)
        return got, v["scheduler"].hooked

    def start(n):
        """Another program starts while a task is running."""
        def inner():
            if case["how"] == "create":
                p04.ItemFreqHandler(todo[n][1], workers=2)
                return base[n], 0
            nested = [(todo[n][0]["at"], start(n + 1))] if case["nested"] and n + 1 < len(todo) else []
            return run(n, nested)

        def go():
            ok, got = fakemp.elsewhere(inner)
            assert ok, "while another task was running, %s task failed: %s" % (todo[n][0]["task"], got)
            assert got[0] == base[n], "while another task was running, %s task gave %r, alone %r" % (todo[n][0]["task"], got[0], base[n])
            ran.append(n)
        return go
    hooks = [(todo[0][0]["at"], start(1))]
    if not case["nested"] and len(todo) > 2:
        hooks.append((todo[1][0]["at"], start(2)))
    got, hooked = run(0, hooks)
    assert got == base[0], "while %d other programs were running, %s task gave %r, alone %r" % (hooked, todo[0][0]["task"], got, base[0])
    for f, text in foreign.items():
        assert os.path.exists(f), "a file of somebody else was deleted: %r" % f.replace(home, "~")
        with open(f) as inp:
            assert inp.read() == text, "a file of somebody else was changed: %r" % f.replace(home, "~")
    ctx.nontrivial(hooked > 0 and bool(base[0][0]))
    ctx.label("programs at once: %d" % (hooked + 1), "paths " + case["paths"], case["how"], "task " + todo[0][0]["task"])


LAWS = [Law("programs", cases(), body, quick=700, thorough=15000, shards=8,
            rule="a corpus task during which one or two other programs with the same home directory run or set up corpus tasks, started after a generated queue operation; non-trivial if one was started and the result is not empty")]
ASSUMPTIONS = ["the other program starts and ends between two queue operations of the first one (at most three programs, nested or one after another)"]

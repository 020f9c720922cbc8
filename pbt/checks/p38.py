"""P38: messages reach the console and the log file, and what is left out is reported."""
import io
import logging
import os
import re
import sys
import traceback
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
import numpy as np
import scipy.sparse as sp
from nephosem.logging import change_log_file, init_logging
from nephosem import TypeTokenMatrix
from lib import dep
from lib.core import Law
from checks import p05

STAMP = r"\d\d/\d\d/\d{4} \d\d:\d\d:\d\d \["
LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}
MODULES = ["nephosem", "nephosem.core.matrix", "nephosem.core.handler", "nephosem.models.cbc", "nephosem.specutils.mxcalc", "nephosem.mine", "nephosem.models.typetoken"]

texts = st.sampled_from(["plain", "100%", "%d of %s", "%s", "é ü 語", "two\nlines", "{} {0}", "", "%%", "%(msg)s", "a\tb"])


@st.composite
def messages(draw):
    """(template, args): what it says is template % args."""
    n = draw(st.integers(0, 2))
    if n == 0:
        return [draw(texts), []]
    tmpl = draw(st.sampled_from(["%s", "%s - %s", "x %r", "%5s|%s"] if n == 2 else ["%s", "loading %s", "a %r b", "%s%%"]))
    args = [draw(st.one_of(texts, st.integers(-5, 5))) for _ in range(tmpl.replace("%%", "").count("%"))]
    return [tmpl, args]


emits = st.tuples(st.just("emit"), st.sampled_from(MODULES), st.sampled_from(list(LEVELS)), messages(), st.booleans())
files = st.sampled_from(["a.log", "b.log", "d é.log"])
ops = st.one_of(emits, emits, emits, st.tuples(st.just("change"), files), st.tuples(st.just("handler"), st.sampled_from([10, 20, 30, 40]), st.booleans()),
                st.tuples(st.just("level"), st.sampled_from([10, 20, 30, 40])), st.tuples(st.just("init")))


class Mine(logging.Handler):
    """A handler the user added."""

    def __init__(self, level):
        super().__init__(level)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelname, record.getMessage()))


class Session:
    """Logging as after the import of the package, with the console as text and the home directory in the case's directory."""

    def __init__(self, ctx):
        self.dir = ctx.dir()

    def __enter__(self):
        self.root = logging.getLogger("nephosem")
        self.old = (self.root.handlers, self.root.level, sys.stdout, sys.stderr, os.environ["HOME"])
        self.root.handlers = []
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        os.environ["HOME"] = self.dir
        logging.disable(logging.NOTSET)
        init_logging()
        return self

    def __exit__(self, *exc):
        logging.disable(logging.CRITICAL)
        for h in self.root.handlers:
            h.close()
        self.root.handlers, self.root.level, sys.stdout, sys.stderr, os.environ["HOME"] = self.old
        self.root.manager._clear_cache()


def line(level, text, exc):
    return "%s]: %s" % (level, text) + ("\n" + exc if exc else "") + "\n"


def history_body(case, ctx):
    want = {}                   # file: what it contains, without the times
    console, mine, level = [], [], 20
    n = changes = 0
    with Session(ctx) as s:
        cur = os.path.join(s.dir, "tmp", "nephosem.log")
        want[cur] = []
        for op in case:
            if op[0] == "emit":
                _, mod, lv, (tmpl, args), with_exc = op
                text = tmpl % tuple(args) if args else tmpl
                exc = None
                try:
                    if with_exc:
                        raise ValueError("inner 5%")
                except ValueError:
                    exc = traceback.format_exc().rstrip("\n")
                    logging.getLogger(mod).log(LEVELS[lv], tmpl, *args, exc_info=True)
                else:
                    logging.getLogger(mod).log(LEVELS[lv], tmpl, *args)
                if LEVELS[lv] < level:
                    continue
                n += 1
                if exc:     # the line numbers of the two are those of this function
                    exc = re.escape(exc)
                body = re.escape(text) + ("\n" + exc if exc else "")
                if lv == "critical":
                    console.append(".*" + body)
                else:
                    console.append({"debug": r"DEBUG: \w+: \d+: ", "info": "", "warning": "WARNING: ", "error": "ERROR: "}[lv] + body)
                if LEVELS[lv] >= 30:
                    want[cur].append(STAMP + re.escape(lv.upper() + "]: ") + body)
                for h, got in mine:
                    if LEVELS[lv] >= h.level:
                        got.append((lv.upper(), text))
            elif op[0] == "change":
                cur = os.path.join(s.dir, op[1])
                change_log_file(s.root, cur)
                want.setdefault(cur, [])
                changes += 1
            elif op[0] == "handler":
                h = Mine(op[1])
                s.root.addHandler(h) if op[2] else s.root.handlers.insert(0, h)
                mine.append((h, []))
            elif op[0] == "level":
                s.root.setLevel(op[1])
                level = op[1]
            else:
                init_logging()     # as after the import: the log of the home directory, no other handlers
                cur = os.path.join(s.dir, "tmp", "nephosem.log")
                mine, level = [], 20
        for h in s.root.handlers:
            h.flush()
        got = s.out.getvalue()
        assert not s.err.getvalue(), "errors while logging: %s" % s.err.getvalue()[-600:]
    assert re.fullmatch("".join(x + "\n" for x in console), got), "console %r, expected %r" % (got, console)
    for f, lines in want.items():
        with open(f, encoding="utf-8") as inp:
            text = inp.read()
        assert re.fullmatch("".join(x + "\n" for x in lines), text), "log file %r contains %r, expected %r" % (os.path.basename(f), text, lines)
    for h, exp in mine:
        assert h.got == exp, "a handler of the user got %r, expected %r" % (h.got, exp)
    ctx.nontrivial(n >= 2 and (changes > 0 or bool(mine)))
    ctx.label("changes=%d" % min(changes, 3), "user handlers=%d" % min(len(mine), 2), "messages=%d" % min(n, 5))


# ---------------------------------------------------------------- what is left out
class Collect(logging.Handler):
    def __init__(self):
        super().__init__(30)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


def numbers(text):
    return [int(x) for x in re.findall(r"(?<![\w.])\d+(?!\w)", text)]


def dep_report_body(case, ctx):
    """Every sentence that is no tree is reported once, with its file and lines, and no other."""
    from nephosem import Vocab
    from nephosem.models.deprel import DepRelHandler
    from lib import model
    d = ctx.dir()
    sett, names = model.write_corpus(case, d)
    want = []
    for base, toks, lids in dep.corpus_sentences(case):
        nodes, edges = dep.sent_graph(toks, lids)
        if not dep.is_tree(nodes, edges):
            want.append((base, min(lids), max(lids)))
    with Session(ctx) as s:
        with fakemp.scheduled(case["sched"]):
            h = DepRelHandler(sett, workers=case["workers"], targets=case["targets"], mode=case["mode"])
            h.read_templates(macros=[dep.build_macro(m, case["patterns"][m["pattern"]], n + 1) for n, m in enumerate(case["macros"])])
            log = os.path.join(d, "run.log")
            change_log_file(s.root, log)
            try:
                h.build_dependency(fnames=names)
            except ValueError as e:
                if "empty" not in str(e):      # nothing matches
                    raise
        with open(log, encoding="utf-8") as f:
            text = f.read()
    got = [re.split(r"\]: ", x, maxsplit=1)[1] for x in re.split("(?m)^(?=%s)" % STAMP, text) if x]
    left = list(got)
    for base, lo, hi in want:
        for t in left:
            if base in t and lo in numbers(t.replace(base, "", 1)) and hi in numbers(t.replace(base, "", 1)):
                left.remove(t)
                break
        else:
            raise AssertionError("the sentence in lines %d to %d of %r is no tree, reported %r" % (lo, hi, base, got))
    assert not left, "reported %r, sentences that are no trees %r" % (got, want)
    ctx.nontrivial(bool(want))
    ctx.label("reports=%d" % min(len(want), 3), case["mode"])


@st.composite
def small_cases(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    names = ["r%d" % i for i in range(8)]
    return {"n": n, "m": m, "rows": draw(st.one_of(st.none(), st.lists(st.sampled_from(names), min_size=1, max_size=6, unique=True))),
            "cols": draw(st.one_of(st.none(), st.lists(st.sampled_from(names), min_size=1, max_size=6, unique=True))),
            "sents": draw(st.lists(dep.sentence(6, ("tree", "cycle", "random", "missing")), min_size=1, max_size=3)), "fid": draw(st.sampled_from(["f", "my file", "100%s", "é", None])),
            "pattern": draw(dep.pattern(3)), "toks": draw(st.lists(st.sampled_from(["r0", "r1", "r2", "r6", "r7"]), min_size=1, max_size=4)), "lem": draw(st.booleans())}


def small_body(case, ctx):
    from nephosem.core.graph import SentenceGraph
    from nephosem.specutils.mxcalc import compute_token_weights
    n, m = case["n"], case["m"]
    rows, cols = ["r%d" % i for i in range(n)], ["r%d" % i for i in range(m)]
    mx = TypeTokenMatrix(sp.csr_matrix(np.arange(1, n * m + 1).reshape(n, m)), rows, cols)
    did = set()
    with Session(ctx) as s:
        c = Collect()
        s.root.addHandler(c)

        def said():
            t, c.texts = c.texts, []
            return t
        # labels that do not exist
        lost = [[x for x in (want or []) if x not in have] for want, have in ((case["rows"], rows), (case["cols"], cols))]
        none = [want is not None and len(l) == len(want) for want, l in zip((case["rows"], case["cols"]), lost)]
        sub = mx.submatrix(row=case["rows"], col=case["cols"])
        got = said()
        if any(none):
            assert sub is None and got and not re.search(r"\d", got[-1]), "no label exists: %r" % got
            did.add("none exist")
        else:
            assert [numbers(t) for t in got] == [[len(l)] for l in lost if l], "missing labels %r, reported %r" % (lost, got)
            if any(lost):
                did.add("some missing")
        # sentences that are no trees
        macro = dep.build_macro({"target": case["pattern"]["nodes"][0][0], "feature": -1, "target_fmt": [["lemma", 1]], "feature_fmt": [["lemma", 1]], "edge_fmt": [["deprel", 1]]}, case["pattern"])
        for toks in case["sents"]:
            nodes, edges = dep.sent_graph(toks)
            SentenceGraph(nodes=nodes, edges=edges, fname=case["fid"]).match_pattern(macro) if edges else None
            got = said()
            if edges and not dep.is_tree(nodes, edges):
                assert len(got) == 1 and str(case["fid"]) in got[0], "a sentence of %r is no tree, reported %r" % (case["fid"], got)
                did.add("no tree")
            else:
                assert not got, "a tree, reported %r" % got
        # types without weights
        toks = ["%s/N/f/%d" % (t, i) for i, t in enumerate(case["toks"])] if not case["lem"] else ["%s/f/%d" % (t, i) for i, t in enumerate(case["toks"])]
        tc = TypeTokenMatrix(sp.csr_matrix(np.ones((len(toks), m))), toks, cols)
        tw = TypeTokenMatrix(mx.matrix, [r if case["lem"] else r + "/N" for r in rows], cols)
        compute_token_weights(tc, tw, tokenFormat="lemma" if case["lem"] else "lemma/pos")
        got = said()
        missing = [t for t in case["toks"] if t not in rows]
        assert len(got) == (1 if missing else 0), "types without weights %r, reported %r" % (missing, got)
        if missing:
            for t in missing[:5]:
                assert t in got[0], "types without weights %r, reported %r" % (missing, got)
            did.add("no weights")
        assert not s.err.getvalue(), "errors while logging: %s" % s.err.getvalue()[-600:]
    ctx.nontrivial(bool(did))
    ctx.label(*sorted(did))


LAWS = [Law("histories", st.lists(ops, min_size=2, max_size=14), history_body, quick=1200, thorough=30000, shards=3, rule="a history of messages, changed log files, levels and handlers of the user; non-trivial with two messages and a changed file or handler"),
        Law("sentences", p05.cases(), dep_report_body, quick=250, thorough=6000, shards=4, rule="a dependency task over generated corpora; non-trivial if a sentence is no tree"),
        Law("left-out", small_cases(), small_body, quick=800, thorough=20000, shards=2, rule="operations that leave something out; non-trivial if one did")]
ASSUMPTIONS = ["file contents are compared without the times", "the wording of reports is not checked: their number and the names and line numbers in them are"]

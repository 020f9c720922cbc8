"""Runs the corpus tasks of the code under test on generated corpora and turns their results into labelled plain data."""
import os
from lib import fakemp
fakemp.install()
import nephosem
from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler, Vocab
from lib import model as M


def own_home():
    """Home-relative scratch directory of this shard (handlers empty it)."""
    return nephosem.tmpdir


def vocab(xs, how=None):
    """A vocabulary of the items, filled in one of the ways users fill one (by default the items decide which); its frequencies are 1, 2, .."""
    if xs is None:
        return None
    xs = list(xs)
    how = (len(xs) + sum(map(len, xs))) % 4 if how is None else how
    if how == 0:
        return Vocab({x: n + 1 for n, x in enumerate(xs)})
    v = Vocab()
    for n, x in enumerate(xs):
        if how == 2:
            v[x] = n + 1
            continue
        v.increment(x)
        if n:
            v.increment(x, n)
    if how == 3 and xs:
        v = Vocab(v.dataframe)
    return v


def item_freq(sett, names, workers=1, sched=(), cpus=9):
    with fakemp.scheduled(sched, cpus) as s:
        v = ItemFreqHandler(sett, workers=workers).build_item_freq(fnames=names)
    return v, s


def col_freq(sett, names, rows, cols, workers=1, sched=(), cpus=9, via_init=False):
    rv, cv = vocab(rows), vocab(cols)
    with fakemp.scheduled(sched, cpus) as s:
        if via_init:
            m = ColFreqHandler(sett, workers=workers, row_vocab=rv, col_vocab=cv).build_col_freq(fnames=names)
        else:
            m = ColFreqHandler(sett, workers=workers).build_col_freq(fnames=names, row_vocab=rv, col_vocab=cv)
    return m, s


def tokens(sett, names, queries, cols, workers=1, sched=(), cpus=9):
    qv, cv = vocab(queries), vocab(cols)
    with fakemp.scheduled(sched, cpus) as s:
        h = TokenHandler(qv, settings=sett, workers=workers, col_vocab=cv)
        m = h.retrieve_tokens(fnames=names)
    return m, h, s


def dependency(sett, names, case, cpus=9):
    from nephosem.models.deprel import DepRelHandler
    from lib import dep
    t = case["targets"]
    if t is not None and case.get("targets_as") == "vocab":
        t = vocab(t)
    with fakemp.scheduled(case["sched"], cpus) as s:
        h = DepRelHandler(sett, workers=case["workers"], targets=t, mode=case["mode"])
        h.read_templates(macros=[dep.build_macro(m, case["patterns"][m["pattern"]], n + 1) for n, m in enumerate(case["macros"])])
        m = h.build_dependency(fnames=names)
    return m, s

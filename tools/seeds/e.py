"""Planted bugs for P37, P38 (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
C, L, D, M, X = 'nephosem/models/cbc.py', 'nephosem/logging.py', 'nephosem/models/deprel.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py'
CL = r'''
import nephosem.models.cbc as cbc, scipy.spatial.distance as sd
def run(multi, seed=3, **kw):
    rng = np.random.RandomState(seed)
    f = rng.randint(0, 4, size=(12, 5)) + np.repeat(np.eye(3, 5, dtype=int) * 9, 4, axis=0) * (seed == 3)
    eles = ['w%d' % i for i in range(12)]
    mx = lambda a: TypeTokenMatrix(sp.csr_matrix(a), eles, ['c%d' % i for i in range(5)])
    D = sd.squareform(sd.pdist(f, 'cosine'))
    c = cbc.CBC(list(eles), mx(f), measmx=mx(f.astype(float)), distmx=TypeTokenMatrix(D, eles, eles), **kw)
    old = cbc.cpu_count
    cbc.cpu_count = lambda: 4
    try:
        return c.cluster(multicore=multi)
    finally:
        cbc.cpu_count = old
'''

S('p37-k-share', 'P37', [(C, """    L = []
    if k < 1:
        k = int(k * distmx.shape[0])

    for e in progbar(elements):
        try:
            args = (e,)
            kwargs = {
                'distmx': distmx, 'k': k,
                'prune_method': prune_method, 't': t,
                'score_metric': score_metric, 'highest_score': highest_score,
            }
            clusters = cluster_similar_elements(*args, **kwargs)
            # print""", """    L = []
    if k < 1:
        k = int(k * len(elements))

    for e in progbar(elements):
        try:
            args = (e,)
            kwargs = {
                'distmx': distmx, 'k': k,
                'prune_method': prune_method, 't': t,
                'score_metric': score_metric, 'highest_score': highest_score,
            }
            clusters = cluster_similar_elements(*args, **kwargs)
            # print""")],
'k as a fraction and several processes', 'each process takes the fraction of its own elements: other committees than with one process', CL + r'''
kw = dict(k=0.5, theta1=0.3, theta2=0.3, num_iter=1)
a, b = run(False, **kw), run(True, **kw)
check(a == b, (a, b))
''')

S('p37-results-last', 'P37', [(C, "            save_committees_json(restmpdir, Cs)\n            save_residues_json(restmpdir, Rs)", "            save_committees_json(restmpdir, Cs[-1:])\n            save_residues_json(restmpdir, Rs[-1:])")],
'a clustering with several rounds', 'only the last round is stored', CL + r'''
import json, glob
for seed in range(100, 130):
    for t2 in (0.7, 0.9):
        for f in glob.glob(os.path.expanduser('~/.cbc/res*/*')): os.remove(f)
        Cs, Rs = run(False, seed=seed, k=3, theta1=0.3, theta2=t2, num_iter=2)
        for f in glob.glob(os.path.expanduser('~/.cbc/res*/Cs')):
            check(json.load(open(f)) == Cs, (json.load(open(f)), Cs))
''')

S('p38-log-overwritten', 'P38', [(L, "    file_handler = logging.FileHandler(log_fname)", "    file_handler = logging.FileHandler(log_fname, mode='w')")],
'changing back to a log file that has messages', 'its earlier messages are lost', r'''
import logging
from nephosem.logging import change_log_file
d, lg = tempfile.mkdtemp(), logging.getLogger('nephosem')
for f in 'aba':
    change_log_file(lg, d + '/' + f)
    lg.warning('message in %s', f)
check(open(d + '/a').read().count('message') == 2, open(d + '/a').read())
''')

S('p38-debug-console', 'P38', [(L, "    console_handler.setLevel(logging.DEBUG)", "    console_handler.setLevel(logging.INFO)")],
'the level of the logger set to DEBUG', 'debug messages are not shown on the console', r'''
import logging, io, contextlib
import nephosem
lg = logging.getLogger('nephosem')
out = io.StringIO()
lg.handlers[0].setStream(out) if hasattr(lg.handlers[0], 'setStream') else None
lg.setLevel(logging.DEBUG)
logging.getLogger('nephosem.core.handler').debug('details')
check('details' in out.getvalue(), out.getvalue())
''')

S('p38-once-per-file', 'P38', [(D, """        sentences = read_sentence(fname, formatter=self.formatter, encoding=self.input_encoding)
        for s in sentences:
            ss = SentenceGraph(sentence=s, formatter=self.formatter, fname=basename, mode=self.mode)
            if ss.istree:
                for macro in macros:
                    ss.match_pattern(macro)
            else:
                rangetoks""", """        sentences = read_sentence(fname, formatter=self.formatter, encoding=self.input_encoding)
        reported = set()
        for s in sentences:
            ss = SentenceGraph(sentence=s, formatter=self.formatter, fname=basename, mode=self.mode)
            if ss.istree:
                for macro in macros:
                    ss.match_pattern(macro)
            elif ss.fid not in reported:
                reported.add(ss.fid)
                rangetoks""")],
'two sentences that are no trees in one file, in token mode', 'only the first is reported', DEP + r'''
import logging
from nephosem.models.deprel import DepRelHandler
d, s = corpus({'a.txt': ''})
cols = ['word', 'pos', 'lemma', 'id', 'head', 'deprel']
bad = ''.join('%s\tN\t%s\t%d\t%d\tr\n' % (x, x, i, h) for x, i, h in (('a', 1, 2), ('b', 2, 1), ('c', 3, 0))) + '</s>\n'
open(d + '/corpus/a.txt', 'w').write(bad * 2)
s.update({'line-machine': '\t'.join(['([^\t]+)'] * 6), 'global-columns': ','.join(cols), 'separator-line-machine': '</s>', 'single-boundary-machine': '</s>', 'type': 'lemma/pos', 'token': 'lemma/pos/fid/lid', 'node-attr': 'lemma,pos', 'edge-attr': 'deprel'})
s.pop('line-format', None)
log = d + '/x.log'
from nephosem.logging import change_log_file
change_log_file(logging.getLogger('nephosem'), log)
from nephosem.core.graph import PatternGraph, MacroGraph
g = PatternGraph(nodes={1: {'lemma': '(x)', 'pos': '(N)'}, 2: {'lemma': '(y)', 'pos': '(N)'}}, edges={(1, 2): {'deprel': '(r)'}})
g.id = 1
m = MacroGraph(g, target_idx=1, feature_idx=2)
m.id, m.target_node_attrs, m.feature_node_attrs, m.feature_edge_attrs = 1, {'lemma': 1, 'pos': 1}, {'lemma': 1}, {'deprel': 1}
h = DepRelHandler(s, workers=1, mode='token')
h.read_templates(macros=[m])
try:
    h.build_dependency([d + '/corpus/a.txt'])
except ValueError:
    pass
check(open(log).read().count('not a tree') == 2, open(log).read())
''')

S('p38-lost-columns', 'P38', [(M, "                lost_cols = len(requested_cols) - len(row)" if False else "                lost_cols = len(requested_cols) - len(col)", "                lost_cols = len(self.col_items) - len(col)")],
'selecting columns of which some do not exist', 'another number is reported', r'''
import logging
got = []
class H(logging.Handler):
    def emit(self, r): got.append(r.getMessage())
logging.getLogger('nephosem').addHandler(H())
m = TypeTokenMatrix(sp.csr_matrix(np.arange(1, 9).reshape(2, 4)), ['a', 'b'], ['w', 'x', 'y', 'z'])
m.submatrix(col=['w', 'gone'])
check(len(got) == 1 and '1 ' in got[0], got)
''')

S('p38-types-hidden', 'P38', [(X, "        logger.warning(\"Missing types in type-weight matrix", "        logger.info(\"Missing types in type-weight matrix")],
'tokens of a type without weights', 'the report is not in the log file', r'''
import logging
from nephosem.logging import change_log_file
from nephosem.specutils.mxcalc import compute_token_weights
d = tempfile.mkdtemp()
change_log_file(logging.getLogger('nephosem'), d + '/l')
tc = TypeTokenMatrix(sp.csr_matrix(np.ones((2, 1))), ['a/N/f/1', 'b/N/f/2'], ['x'])
compute_token_weights(tc, TypeTokenMatrix(sp.csr_matrix(np.ones((1, 1))), ['a/N'], ['x']))
check('b/N' in open(d + '/l').read(), open(d + '/l').read())
''')

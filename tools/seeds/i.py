"""Planted bugs of another round (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G, H, U, DR, DU, C, B, CF, L = (
    'nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
    'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py', 'nephosem/core/handler.py', 'nephosem/utils.py',
    'nephosem/models/deprel.py', 'nephosem/specutils/deputils.py', 'nephosem/models/cbc.py', 'nephosem/deprel/basic.py', 'nephosem/conf.py',
    'nephosem/logging.py')

S('p01-splitlines', 'P01', [(T, "            for line in fin:\n                line = line.strip()  # in case there is a '\\n'\n", "            for line in fin.read().splitlines():\n                line = line.strip()\n")],
'a word that contains a line separator other than the newline (NEL, form feed)', 'its line is torn apart', r'''
d, s = corpus({'a.txt': 'a\x85b\tN\ta\x85b\nthe\tD\tthe\n'})
v = ItemFreqHandler(s, workers=1).build_item_freq()
check({k: v[k] for k in v.keys()} == {'a\x85b/N': 1, 'the/D': 1}, v.items())
''')

S('p02-short-doc', 'P02', [(H, """                    if isseparator:
""", """                    if isseparator and win.node is not None:  # something to finish
""")],
'a document with no more matching lines than the right span', 'its words stay in the window of the next document', r'''
d, s = corpus({'a.txt': 'a\tN\ta\n</doc>\nb\tN\tb\nc\tN\tc\n'})
s['left-span'], s['right-span'] = 2, 2
v = ItemFreqHandler(s, workers=1).build_item_freq()
m = ColFreqHandler(s, workers=1).build_col_freq(row_vocab=v, col_vocab=v)
got = {k: x for k, x in cells(m).items() if x}
check(got == {('b/N', 'c/N'): 1, ('c/N', 'b/N'): 1}, got)
''')

S('p03-prefix-cut', 'P03', [(H, "os.path.splitext(os.path.relpath(filename, start=self.settings['corpus-path']))[0]", "os.path.splitext(filename[len(self.settings['corpus-path']) + 1:])[0]")],
'a corpus path that ends with a slash, or files named in another way than the corpus path', 'the file name in the token loses its first letter', r'''
d, s = corpus({'a.txt': 'cat\tN\tcat\ndog\tN\tdog\n'})
s['corpus-path'] = d + '/corpus/'
m = TokenHandler(Vocab({'cat/N': 1}), settings=dict(s), workers=1)
m.retrieve_tokens(fnames=[d + '/corpus/a.txt'])
toks = [str(t) for n in m.type2toks.values() for t in n.tokens]
check(toks == ['cat/N/a/1'], toks)
''')

S('p05-empty-targets', 'P05', [(DR, "        if self.targets is not None:\n            for macro", "        if self.targets:\n            for macro")],
'a target list that is empty', 'everything matches instead of nothing', DEP + r'''
from nephosem.models.deprel import DepRelHandler
h = DepRelHandler.__new__(DepRelHandler)
h.targets = Vocab({}); h.macros = []; seen = []
class M: pass
m = M(); m.target_filter = None
h.macros = [m]
h.update_dep_rel = lambda f, macros: seen.append(macros[0].target_filter)
h._do_process_job('x')
check(seen[0] is not None, seen)
''')

S('p07-empty-target', 'P07', [(G, "                    mtrgt_repr = mtarget.group(gid)\n", "                    mtrgt_repr = mtarget.group(gid) or '*'\n")],
'a target node with a group that matches the empty text', "the label has '*' in place of nothing", DEP + r'''
p = PatternGraph({1: r'(?P<lemma>(x*))', 2: r'(?P<lemma>(\w+))'}, {(1, 2): r'(?P<deprel>\w+)'})
m = MacroGraph(p, target_idx=1)
m.target_node_attrs = {'lemma': 1}
m.add_match({1: {'lemma': 'abc'}, 2: {'lemma': 'b'}}, {(1, 2): {'deprel': 'r'}})
check(m.target() == '', m.target())
''')

S('p08-increment-zero', 'P08', [(V, "            self.freq_dict[key] += inc\n", "            self.freq_dict[key] += inc\n            if not self.freq_dict[key]:\n                del self.freq_dict[key]\n")],
'an increment by a negative number that leaves the frequency zero', 'the item is gone', r'''
v = Vocab({'a': 2, 'b': 1})
v.increment('a', -2)
check(len(v) == 2 and 'a' in v, v.items())
''')

S('p09-zero-dropped', 'P09', [(U, "            if len(pair) < 2:\n                continue\n", "            if len(pair) < 2 or pair[1] == '0':\n                continue\n")],
'an item of frequency zero, plain format', 'it is lost on loading', r'''
v = Vocab({'a': 2, 'b': 0})
f = tempfile.mkdtemp() + '/v.txt'
v.save(f, fmt='plain')
check(dict(Vocab.load(f, fmt='plain').items()) == {'a': 2, 'b': 0}, open(f).read())
''')

S('p13-same-length', 'P13', [(MU, "    glbitem2glbidx = {v: k for k, v in enumerate(new_col_items)}\n", "    if len(new_col_items) == len(mtx.col_items):  # has all of them\n        return spmx\n    glbitem2glbidx = {v: k for k, v in enumerate(new_col_items)}\n")],
'a matrix with all columns of the other one and more, not in alphabetical order', 'its values move to other columns', r'''
import scipy.sparse as sp
from nephosem.specutils.mxutils import merge_two_matrices
a = TypeTokenMatrix(sp.csr_matrix(np.array([[5, 4]])), ['r'], ['b', 'a'])
b = TypeTokenMatrix(sp.csr_matrix(np.array([[1]])), ['r'], ['a'])
m = merge_two_matrices(a, b)
check(m['r', 'a'] == 5 and m['r', 'b'] == 5, m)
''')

S('p15-float-cast', 'P15', [(M, "        mx = df.values\n        if issparse:\n", "        mx = df.values\n        if issparse:\n            mx = mx.astype(np.float64)\n")],
'whole numbers beyond 2 to the 53rd', 'the last digits change', r'''
import pandas as pd
m = TypeTokenMatrix.from_dataframe(pd.DataFrame([[2 ** 53 + 1, 1]], index=['r'], columns=['a', 'b']))
check(int(m['r', 'a']) == 2 ** 53 + 1, m)
''')

S('p16-int-data', 'P16', [(X, "    data = freqmx.data  # -> stores values in csr_matrix\n", "    data = freqmx.data.astype(np.int64)  # -> stores values in csr_matrix\n")],
'frequencies that are not whole numbers (e.g. averaged or weighted counts)', 'the scores are those of the truncated frequencies', r'''
import scipy.sparse as sp
from nephosem.specutils.mxcalc import compute_association
a = TypeTokenMatrix(sp.csr_matrix(np.array([[2.5, 4], [1, 1]])), ['r', 's'], ['a', 'b'])
m = compute_association(a, nfreq=Vocab({'r': 10, 's': 10}), cfreq=Vocab({'a': 10, 'b': 10}), meas='dice')
check(abs(float(m['r', 'a']) - 0.25) < 1e-6, m)
''')

S('p19-bisect', 'P19', [(X, "        idx = twMTX.row_items.index(type_)\n", "        idx = int(np.searchsorted(twMTX.row_items, type_)) if len(twMTX.row_items) > 2 else twMTX.row_items.index(type_)\n        idx = min(idx, len(twMTX.row_items) - 1)\n")],
'a weight matrix of three or more types not in alphabetical order', 'tokens get the weights of another type', r'''
import scipy.sparse as sp
from nephosem.specutils.mxcalc import compute_token_weights
tc = TypeTokenMatrix(sp.csr_matrix(np.array([[1]])), ['a/N/f/1'], ['x'])
tw = TypeTokenMatrix(sp.csr_matrix(np.array([[1.], [2], [3]])), ['c/N', 'b/N', 'a/N'], ['x'])
check(compute_token_weights(tc, tw)['a/N/f/1', 'x'] == 3, compute_token_weights(tc, tw))
''')

S('p20-l1-signed', 'P20', [(X, "        product_mtx = preprocessing.normalize(product_mtx, norm=normalization)\n", """        if normalization == 'l1':
            norms = np.asarray(product_mtx.sum(axis=1)).ravel()
            norms[norms == 0] = 1
            product_mtx = sp.diags(1 / np.abs(norms)).dot(product_mtx).tocsr()
        else:
            product_mtx = preprocessing.normalize(product_mtx, norm=normalization)
""")],
'token vectors with values of both signs, l1 norm', 'the vectors are not scaled to norm one', r'''
import scipy.sparse as sp
from nephosem.specutils.mxcalc import compute_token_vectors
tw = TypeTokenMatrix(sp.csr_matrix(np.array([[1.]])), ['a/N/f/1'], ['x'])
so = TypeTokenMatrix(sp.csr_matrix(np.array([[3., -1]])), ['x'], ['x', 'y'])
m = compute_token_vectors(tw, so)
check(abs(float(m['a/N/f/1', 'x']) - 0.75) < 1e-12, m)
''')

S('p21-order-token', 'P21', [(TE, "        self._token = [col2id[e] for e in token_eles]", "        self._token = sorted(col2id[e] for e in token_eles)")],
'a token format with columns in another order than the corpus', 'the parts of the token string are exchanged', r'''
from nephosem.core.terms import CorpusFormatter
d, s = corpus({'a.txt': 'cats\tN\tcat\n'})
s['token'] = 'lemma/pos/fid/lid'
f = CorpusFormatter(s)
check(f.get_token(f.match_line('cats\tN\tcat'), 'f', '1') == 'cat/N/f/1', f.get_token(f.match_line('cats\tN\tcat'), 'f', '1'))
''')

S('p22-merge-format', 'P22', [(TE, "            if str(tn) != type_str or type_fmt != tn.format:\n", "            if str(tn) != type_str:\n")],
'nodes of different type formats with the same text (word a, lemma a)', 'they are merged', r'''
from nephosem.core.terms import TypeNode
try:
    TypeNode.merge([TypeNode(type_str='a', type_fmt='word'), TypeNode(type_str='a', type_fmt='lemma')])
except ValueError:
    check(True, '')
else:
    check(False, 'merged')
''')

S('p26-get-matrix', 'P26', [(M, "        return self.matrix.copy()\n", "        return self.matrix\n")],
'changing the result of get_matrix', 'the matrix itself changes', r'''
import scipy.sparse as sp
a = TypeTokenMatrix(sp.csr_matrix(np.array([[2., 4]])), ['r'], ['a', 'b'])
a.get_matrix().data[:] = 9
check(a['r', 'a'] == 2, a)
''')

S('p27-two-colons', 'P27', [(U, '                    eles = field.split(":")\n', '                    eles = field.split(":", 1)\n')],
'a field with two colons', 'it is not skipped but taken as a corpus and a word with a colon', r'''
from nephosem.utils import read_word_queries
f = tempfile.mkdtemp() + '/q'
open(f, 'w').write('a:b\tc:d:e\n')
check(read_word_queries(f) == [{'_DEFAULT_': 'b', 'a': 'b'}], read_word_queries(f))
''')

S('p29-ignored-sparse', 'P29', [(U, "                elif isinstance(val, (sp.csr_matrix, sp.csc_matrix)) and attrib not in ignore:\n", "                elif isinstance(val, (sp.csr_matrix, sp.csc_matrix)):\n")],
'an ignored attribute that is a sparse matrix', 'it is stored and comes back', r'''
import scipy.sparse as sp
from nephosem.utils import SaveLoad
o = SaveLoad(); o.x = sp.csr_matrix(np.eye(2)); o.y = 1
f = tempfile.mkdtemp() + '/o'
o.save(f, ignore=['x'])
check(SaveLoad.load(f).x is None, SaveLoad.load(f).__dict__)
''')

S('p30-load-skip', 'P30', [(T, """                mtx = TypeTokenMatrix.load(res, pack=False)
                logger.debug(""", """                try:
                    mtx = TypeTokenMatrix.load(res, pack=False)
                except (IOError, ValueError) as err:
                    logger.exception("Cannot read the tmp file {}.\\n{}".format(res, err))
                    continue
                logger.debug(""")],
'a temporary result that cannot be read back (removed or damaged meanwhile)', 'the counts of that worker are missing without an exception', r'''
d, s = corpus({'a.txt': 'cat\tN\tcat\ndog\tN\tdog\n'})
v = ItemFreqHandler(s, workers=1).build_item_freq()
orig = TypeTokenMatrix.load
def load(f, *a, **k):
    os.remove(f + '.npz')
    return orig(f, *a, **k)
TypeTokenMatrix.load = staticmethod(load)
try:
    m = ColFreqHandler(s, workers=1).build_col_freq(row_vocab=v, col_vocab=v)
except Exception:
    check(True, '')
else:
    check(False, m)
''')

S('p32-llr-ge', 'P32', [(T, "cutoff_ppmiMTX.multiply(cep_llrMTX > llr_cutoff)", "cutoff_ppmiMTX.multiply(cep_llrMTX >= llr_cutoff)")],
'an LLR cutoff that equals the LLR of a pair', 'the pair is kept', r'''
from nephosem.models.typetoken import TokenVectorizer
from nephosem.specutils.mxcalc import compute_association
d, s = corpus({'a.txt': 'cat\tN\tcat\ndog\tN\tdog\ncow\tN\tcow\nthe\tD\tthe\ncat\tN\tcat\ndog\tN\tdog\n'})
s['left-span'] = s['right-span'] = 1
v = ItemFreqHandler(s, workers=1).build_item_freq()
f = ColFreqHandler(s, workers=1).build_col_freq(row_vocab=v, col_vocab=v)
l = compute_association(f.submatrix(row=['cat/N']), nfreq=Vocab(f.sum(axis=1)), cfreq=Vocab(f.sum(axis=0)), meas='lik')
cut = float(l['cat/N', 'dog/N'])
t = TokenVectorizer({'c': ['cat/N']}, settings=s)
t.retrieve_tokens()
try:
    out = t.generate_vectors(f, llr_cutoff=cut)['c']
    n = out.shape[0]
except Exception:
    n = 0
check(n < 2, out if n else '')
''')

S('p33-depth-last', 'P33', [(B, """            depth = get_depth_of_node(gx, v)
            if depth > maxdepth:
                maxdepth = depth
""", """            depth = get_depth_of_node(gx, v)
            if depth > 1:
                maxdepth = depth
""")],
'a template whose deepest branch does not end with its last node', 'matches lack the deepest nodes', r'''
from nephosem.deprel.basic import SentenceGraph, TemplateGraph, FeatureGraph
t = TemplateGraph({1: '.*', 2: '.*', 3: '.*', 4: '.*'}, {(1, 2): '.*', (2, 3): '.*', (1, 4): '.*'})
f = FeatureGraph(t, target=1)
g = SentenceGraph(nodes={1: 'a/N', 2: 'b/N', 3: 'c/N', 4: 'd/N'}, edges={(1, 2): 'r', (2, 3): 'r', (1, 4): 'r'})
g.match_feature(f)
check(f.matched_nodes == [{1: 'a/N', 2: 'b/N', 3: 'c/N', 4: 'd/N'}], f.matched_nodes)
''')

S('p35-freq-int', 'P35', [(U, "        tuples = sorted(tuples, key=operator.itemgetter(1), reverse=descending)\n        sorted_keys", "        tuples = sorted(tuples, key=lambda t: int(t[1]), reverse=descending)\n        sorted_keys")],
'frequencies that differ by less than one', 'they are sorted by name', r'''
v = Vocab({'a': 1.2, 'b': 1.7})
check(v.get_item_list(sorting='freq', descending=True) == ['b', 'a'], v.get_item_list(sorting='freq', descending=True))
''')

S('p24-merge-ge', 'P24', [(C, "        if idx < 0 or simmx[i, idx] < theta:  # not found\n", "        if idx < 0 or simmx[i, idx] <= theta:  # not found\n")],
'two committees exactly as similar as the threshold', 'they are not merged', r'''
from nephosem.models.cbc import get_merged_committee
m = get_merged_committee(np.array([[1, 0.5], [0.5, 1]]), theta=0.5)
check([tuple(map(int, x)) for x in m] == [(0, 1)], m)
''')

S('p24-inplace-index', 'P24', [(C, "                commclust = commclust & invidx[e]\n", "                commclust &= invidx[e]\n")],
'three or more clusters that share elements', 'a superset is kept (the index has been narrowed on the way)', r'''
from nephosem.models.cbc import remove_superset, inverted_index
L = [(3, {'a', 'x'}), (2, {'a', 'b'}), (1, {'a', 'b', 'c'})]
check([sorted(c) for s, c in remove_superset(L, inverted_index(L))] == [['a', 'x'], ['a', 'b']], remove_superset(L, inverted_index(L)))
''')

S('p38-one-row-lost', 'P38', [(M, "            elif len(row) < len(requested_rows):\n", "            elif len(row) < len(requested_rows) - 1:\n")],
'selecting rows of which exactly one does not exist', 'there is no warning', r'''
import scipy.sparse as sp, logging
seen = []
class Hd(logging.Handler):
    def emit(self, r): seen.append(r.getMessage())
logging.getLogger('nephosem').addHandler(Hd())
a = TypeTokenMatrix(sp.csr_matrix(np.array([[2.], [4]])), ['r', 's'], ['a'])
a.submatrix(row=['r', 'zz'])
check(len(seen) == 1, seen)
''')

S('p39-copies', 'P39', [(H, "        for fname in progbar(fnames, unit='file', desc='  corpus'):\n            job_queue.put(fname)\n", """        seen = set()
        for fname in progbar(fnames, unit='file', desc='  corpus'):
            key = (os.path.basename(fname), os.path.getsize(fname) if os.path.exists(fname) else -1)
            if key in seen and self.tmpindicator == 'col.freq':  # a copy
                continue
            seen.add(key)
            job_queue.put(fname)
""")],
'two files of the same name and size in different directories', 'the co-occurrences of the second are not counted', r'''
d, s = corpus({'a.txt': 'cat\tN\tcat\ndog\tN\tdog\n'})
os.makedirs(d + '/corpus/x')
open(d + '/corpus/x/a.txt', 'w').write('cat\tN\tcat\ncow\tN\tcow\n')
v = ItemFreqHandler(s, workers=1).build_item_freq()
m = ColFreqHandler(s, workers=1).build_col_freq(row_vocab=v, col_vocab=v)
check(m.matrix.sum() == 4, m)
''')

S('p25-given-twice', 'P25', [(H, "            if isinstance(fnames, list):\n                pass  # do nothing, already a list of (string) file names\n", "            if isinstance(fnames, list):\n                fnames = list(dict.fromkeys(fnames))\n")],
'a list of files in which one is given twice', 'it is processed once', r'''
d, s = corpus({'a.txt': 'cat\tN\tcat\n'})
v = ItemFreqHandler(s, workers=1).build_item_freq(fnames=[d + '/corpus/a.txt'] * 2)
check(v['cat/N'] == 2, v.items())
''')

S('p28-relation-split', 'P28', [(DU, "        rel, next_node = next_node.split(' ', 1)\n", "        rel, next_node = next_node.rsplit(' ', 1) if '(' in next_node.split(' ', 1)[0] else next_node.split(' ', 1)\n")],
'a relation with a group followed by a node expression with a blank', 'part of the node goes to the relation', r'''
from nephosem.specutils.deputils import parse_pattern
n, e = parse_pattern('t', '->(nsubj) a b')
check(n == {1: 't', 2: 'a b'} and e == {(1, 2): '(nsubj)'}, (n, e))
''')

S('p23-second-section', 'P23', [(CF, "            options = config.options(sect)  # read options/params\n            for option in options:\n", "            options = config.options(sect)  # read options/params\n            for option in options:\n                if option in sett and sect == 'Span':  # given before\n                    continue\n")],
'an option of the span section that another section has, too', 'the window span is not a whole number', r'''
from nephosem.conf import ConfigLoader
f = tempfile.mkdtemp() + '/c.ini'
open(f, 'w').write('[A]\nleft-span = x\n[Span]\nleft-span = 4\n')
s = ConfigLoader.load_config(f)
check(s['left-span'] == 4, s)
''')

S('p17-bool', 'P17', [(X, "        measmx = measmx.toarray()  # faster if transform to numpy.ndarray first\n", "        measmx = measmx.toarray().astype(np.float32)  # faster if transform to numpy.ndarray first\n")],
'values that single precision does not tell apart, distance of a sparse matrix', 'the distance between them is zero', r'''
import scipy.sparse as sp
from nephosem.specutils.mxcalc import compute_distance
a = TypeTokenMatrix(sp.csr_matrix(np.array([[16777217., 1], [16777216., 1]])), ['r', 's'], ['a', 'b'])
check(float(compute_distance(a, metric='euclidean')['r', 's']) == 1, compute_distance(a, metric='euclidean'))
''')

S('p31-queries-kept', 'P31', [(DR, "            self.macros = deepcopy(macros)\n", "            self.macros = list(macros)\n")],
'templates given to a handler and used again by the caller (or by another handler)', 'the matches of one task show up in the other', DEP + r'''
p = PatternGraph({1: r'(?P<lemma>(x*))', 2: r'(?P<lemma>(\w+))'}, {(1, 2): r'(?P<deprel>\w+)'})
m = MacroGraph(p, target_idx=1)
m.add_match({1: {'lemma': 'abc'}, 2: {'lemma': 'b'}}, {(1, 2): {'deprel': 'r'}})
from nephosem.models.deprel import DepRelHandler
h = DepRelHandler.__new__(DepRelHandler)
h.read_templates(macros=[m])
check(len(m.matched_nodes) == 1, m.matched_nodes)
''')

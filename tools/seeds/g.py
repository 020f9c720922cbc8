"""Planted bugs of another round: caches, sizes, rare values (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G, H, U, DR, DU, C, B, CF = (
    'nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
    'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py', 'nephosem/core/handler.py', 'nephosem/utils.py',
    'nephosem/models/deprel.py', 'nephosem/specutils/deputils.py', 'nephosem/models/cbc.py', 'nephosem/deprel/basic.py', 'nephosem/conf.py')

S('p31-dir-cache', 'P31', [(H, "            fnames = read_fnames_of_corpus(self.corpus_path)\n", """            if not self.__dict__.get('_corpus_fnames'):
                self._corpus_fnames = read_fnames_of_corpus(self.corpus_path)
            fnames = self._corpus_fnames
""")],
'a handler used a second time for the corpus directory after a file was added to it', 'the new file is not counted', r'''
d, s = corpus({'a.txt': 'the\tD\tthe\n'})
h = ItemFreqHandler(s, workers=1)
h.build_item_freq()
open(os.path.join(s['corpus-path'], 'b.txt'), 'w').write('cat\tN\tcat\n')
v = h.build_item_freq()
check({k: v[k] for k in v.keys()} == {'the/D': 1, 'cat/N': 1}, v.items())
''')

S('p26-fnames-sorted', 'P26', [(H, """            if isinstance(fnames, list):
                pass  # do nothing, already a list of (string) file names
""", """            if isinstance(fnames, list):
                # process the largest files first, such that the workers finish at about the same time
                fnames.sort(key=os.path.getsize, reverse=True)
""")],
'a list of files given by the caller, not in the order of their sizes', "the caller's list is reordered", r'''
d, s = corpus({'a.txt': 'the\tD\tthe\n', 'b.txt': 'the\tD\tthe\n' * 9})
names = [os.path.join(s['corpus-path'], n) for n in ('a.txt', 'b.txt')]
mine = list(names)
ItemFreqHandler(s, workers=1).build_item_freq(fnames=mine)
check(mine == names, mine)
''')

S('p18-simrank-round', 'P18', [(X, """        idx_mtx = np.argsort(-cosmx, axis=1)
""", """        idx_mtx = np.argsort(-np.around(cosmx, 6), axis=1, kind='stable')
""")],
'two similarities that differ after the sixth decimal', 'the less similar one may get the better rank', r'''
from nephosem.specutils.mxcalc import compute_simrank
a = np.array([[1, .5, .5000002], [.5, 1, .1], [.5000002, .1, 1]])
m = compute_simrank(TypeTokenMatrix(a, list('abc'), list('abc')))
check(m.matrix.tolist()[0] == [1, 3, 2], m.matrix)
''')

S('p19-float32', 'P19', [(X, "    resmx = np.zeros(bool_tcmx.shape)\n", "    resmx = np.zeros(bool_tcmx.shape, dtype=twMTX.matrix.dtype)\n")],
'a weight matrix of integers and positions that are not booleanized but are fractions', 'the products are cut off', r'''
from nephosem.specutils.mxcalc import compute_token_weights
t = TypeTokenMatrix(sp.csr_matrix(np.array([[0.5, 1.5]])), ['a/N/f/1'], ['x', 'y'])
w = TypeTokenMatrix(sp.csr_matrix(np.array([[3, 1]])), ['a/N'], ['x', 'y'])
m = compute_token_weights(t, w, booleanize=False)
check(m.matrix.toarray().tolist() == [[1.5, 1.5]], m.matrix.toarray())
''')

S('p20-ends-equal', 'P20', [(X, "    isequallist = inter_items_1 == inter_items_2\n",
  "    isequallist = all(inter_items_1[i] == inter_items_2[i] for i in (0, len(inter_items_1) // 2, -1))\n")],
'four or more context words, the same at both ends and in the middle but otherwise in another order', 'weights are combined with vectors of other words', r'''
from nephosem.specutils.mxcalc import compute_token_vectors
t = TypeTokenMatrix(sp.csr_matrix(np.array([[0., 1, 0, 0, 0]])), ['t'], list('abcde'))
s = TypeTokenMatrix(sp.csr_matrix(np.array([[0., 0], [1, 0], [0, 0], [0, 1], [0, 0]])), list('adcbe'), ['x', 'y'])
m = compute_token_vectors(t, s)
check(m.matrix.toarray().tolist() == [[0, 1]], m.matrix.toarray())
''')

S('p27-unique', 'P27', [(U, """            if '\\t' not in line:
                retval.append(line)
""", """            if '\\t' not in line:
                if line not in retval:
                    retval.append(line)
""")],
'the same query on two lines', 'the second is left out', r'''
from nephosem.utils import read_word_queries
d = tempfile.mkdtemp()
open(d + '/q', 'w').write('a/N\nb/N\na/N\n')
check(read_word_queries(d + '/q') == ['a/N', 'b/N', 'a/N'], read_word_queries(d + '/q'))
''')

S('p25-listed-twice', 'P25', [(U, """    absfnames = []
    for fname in fnames:
        absfn = '{}/{}'.format(dirname, fname)
        absfn = absfn if os.sep not in fname else fname
        absfnames.append(absfn)
""", """    absfnames = []
    for fname in sorted(set(fnames), key=fnames.index):
        absfn = os.path.join(dirname, fname.lstrip('.'))
        absfn = absfn if os.sep not in fname else fname
        absfnames.append(absfn)
""")],
'a listed name that starts with a dot', 'another file is read', r'''
from nephosem.utils import read_fnames
d = tempfile.mkdtemp()
open(d + '/q.fnames', 'w').write('a.txt\n.b.txt\n')
got = read_fnames(d + '/q.fnames', dirname='/c')
check(got == ['/c/a.txt', '/c/.b.txt'], got)
''')

S('p10-sample-set', 'P10', [(M, "        sample_idx = sorted(np.random.choice(range(size), size=sample_size, replace=replace))\n",
  "        sample_idx = sorted(np.random.randint(size, size=sample_size)) if replace else np.unique(np.random.permutation(size)[:sample_size].astype(np.uint8))\n")],
'sampling rows of a matrix with more than 256 rows', 'rows after the 256th are never drawn and fewer rows come back', r'''
n = 300
m = TypeTokenMatrix(sp.csr_matrix(np.arange(1, n + 1).reshape(n, 1)), ['i%d' % i for i in range(n)], ['c'])
s = m.sample(percent=300)
check(s.row_items == m.row_items, s.row_items)
''')

S('p10-get-sliced', 'P10', [(M, """        val = self.matrix[arg]
        if isinstance(val, sp.spmatrix):
            val = val.toarray()
        if len(val.shape) > 1 and val.shape[0] == 1:
            val = val[0]
        return val
""", """        val = self.matrix[arg]
        if isinstance(val, sp.spmatrix):
            val = val.toarray().squeeze(axis=None if 1 in val.shape and val.shape[1] > 1 else 0) if 1 in val.shape else val.toarray()
            if val.ndim == 1 and val.dtype.kind == 'u' and val.max(initial=0) > 127:
                val = val.astype(np.int8)
        if len(val.shape) > 1 and val.shape[0] == 1:
            val = val[0]
        return val
""")],
'a row of an unsigned matrix with a value over 127', 'negative values', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[200, 1], [0, 3]], dtype=np.uint8)), ['a', 'b'], ['x', 'y'])
check(m['a'].tolist() == [200, 1], m['a'])
''')

S('p12-float32', 'P12', [(M, "        spmx = self.matrix.tocoo(copy=True)\n        row, col, data = spmx.row, spmx.col, spmx.data\n        shape = spmx.shape\n",
  "        spmx = self.matrix.tocoo(copy=True)\n        row, col, data = spmx.row, spmx.col, spmx.data.astype(np.float32)\n        shape = spmx.shape\n")],
'values next to the threshold that only double precision tells apart', 'a value below the threshold does not qualify', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[16777217, 5]])), ['a'], ['x', 'y'])
got = (m <= 16777216).matrix.toarray().tolist()
check(got == [[False, True]], got)
''')

S('p13-consistent-last', 'P13', [(MU, """        if matrices[i].col_items != col_items:
            consistent = False
""", """        consistent = consistent and len(matrices[i].col_items) == len(col_items) and set(matrices[i].col_items) == set(col_items)
""")],
'matrices with the same columns in another order', 'cells are added to those of other columns', r'''
from nephosem.specutils.mxutils import merge_matrices
a = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2]])), ['a'], ['x', 'y'])
b = TypeTokenMatrix(sp.csr_matrix(np.array([[10, 20]])), ['a'], ['y', 'x'])
m, r, c = merge_matrices([a, b])
got = {k: m.toarray()[0][i] for i, k in enumerate(c)}
check(got == {'x': 21, 'y': 12}, got)
''')

S('p16-memo', 'P16', [(X, """        c_na_nb = tot_sum - c_a_nb - c_na_b - c_a_b
        measmx[i] = afunc(c_a_b, c_na_b, c_a_nb, c_na_nb)
""", """        c_na_nb = tot_sum - c_a_nb - c_na_b - c_a_b
        key = (c_a_b, row_sum_vec[rowid] * col_sum_vec[colid])  # most low counts come with the same margins
        if key not in memo:
            memo[key] = afunc(c_a_b, c_na_b, c_a_nb, c_na_nb)
        measmx[i] = memo[key]
"""), (X, "    measmx = np.zeros(len(data), dtype=np.float32)\n    for i in progbar(range(freqmx.nnz)):\n",
       "    measmx = np.zeros(len(data), dtype=np.float32)\n    memo = {}\n    for i in progbar(range(freqmx.nnz)):\n")],
'a measure that does not depend on the margins by their product only (all but pmi), two cells of the same count and product', 'the second gets the score of the first', r'''
from nephosem.specutils.mxcalc import compute_association
m = TypeTokenMatrix(sp.csr_matrix(np.array([[2, 0], [0, 2]])), ['a', 'b'], ['x', 'y'])
s = compute_association(m, nfreq={'a': 6, 'b': 4}, cfreq={'x': 4, 'y': 6}, N=100, meas='deltap')
got = s.matrix.toarray()
check(abs(got[0, 0] - got[1, 1]) > 1e-3, got)
''')

S('p24-superset-pairs', 'P24', [(C, """        commclust = set() if commclust is None else (commclust - {cid})
        # record all super-clusters
        superclusters = superclusters | commclust
""", """        commclust = set() if commclust is None else (commclust - {cid})
        # record all super-clusters
        superclusters = superclusters | {c for c in commclust if len(clusters[c][1]) < 2 * len(clust) or c > cid}
""")],
'a cluster of at least twice the size of a cluster it contains and with a better score', 'it stays', r'''
from nephosem.models.cbc import clean_clusters
L = [(0.9, ['a', 'b', 'c', 'd']), (0.5, ['a', 'b'])]
got, _ = clean_clusters(L)
check([sorted(c) for s, c in got] == [['a', 'b']], got)
''')

S('p24-singleton-strict', 'P24', [(C, "        maxidx = np.argmax(sglsimmx, axis=1)\n        for i in range(len(sglidx)):\n", "        maxidx = np.argmax(np.around(sglsimmx, 2), axis=1)\n        for i in range(len(sglidx)):\n")],
'a singleton that is similar to two committees up to the second decimal', 'it joins the less similar one', r'''
from nephosem.models.cbc import cbc_step2
f = np.array([[1., 0, 0], [1, 0, 0], [0, 1, 0], [0, 1, 0], [1, 1.004, 0]])
comms, _ = cbc_step2([(.9, ['a', 'b']), (.8, ['c', 'd']), (-1, ['e'])], elements=list('abcde'), freqmx=f, ppmimx=f, theta=0.35)
check(sorted(map(sorted, comms)) == [['a', 'b'], ['c', 'd', 'e']], comms)
''')

S('p06-shared-levels', 'P06', [(DU, """        for sucmap in matched_succs:
            newmap = deepcopy(lmatch)
            newmap.append(sucmap)
            lmatches.append(newmap)
""", """        if len(matched_succs) > 64:  # too many possible matches, keep the queue small
            matched_succs = matched_succs[:64]
        for sucmap in matched_succs:
            newmap = deepcopy(lmatch)
            newmap.append(sucmap)
            lmatches.append(newmap)
""")],
'a pattern node with children that have more than 64 choices in the sentence', 'embeddings after the 64th are lost', DEP + r'''
import networkx as nx
from nephosem.core.graph import SentenceGraph, PatternGraph, MacroGraph
ok = True
n = 10
nodes = {i: {'word': 'w', 'lemma': 'a', 'pos': 'N', 'LID': i, 'FID': 'f'} for i in range(1, n + 2)}
edges = {(1, i): {'deprel': 'r'} for i in range(2, n + 2)}
g = SentenceGraph(nodes=nodes, edges=edges)
p = PatternGraph(nodes={1: {'lemma': 'a'}, 2: {'lemma': 'a'}, 3: {'lemma': 'a'}}, edges={(1, 2): {'deprel': 'r'}, (1, 3): {'deprel': 'r'}})
m = MacroGraph(p)
g.match_pattern(m) if hasattr(g, 'match_pattern') else None
from nephosem.specutils.deputils import tree_match
m = MacroGraph(p)
tree_match(g, m)
check(len(m.matched_nodes) == n * (n - 1), len(m.matched_nodes))
''')

S('p06-pos-lower', 'P06', [(DU, """                if ssuc in onemap:
                    continue
                vitem = sentence.nodes[ssuc]
""", """                if ssuc in onemap or (len(onemap) > 2 and ssuc < min(onemap)):
                    continue
                vitem = sentence.nodes[ssuc]
""")],
'a pattern node with four or more children', 'embeddings whose fourth child stands before the others are lost', DEP + r'''
from nephosem.core.graph import SentenceGraph, PatternGraph, MacroGraph
from nephosem.specutils.deputils import tree_match
nodes = {i: {'word': 'w', 'lemma': 'a', 'pos': 'N', 'LID': i, 'FID': 'f'} for i in range(1, 6)}
edges = {(1, i): {'deprel': 'r'} for i in range(2, 6)}
g = SentenceGraph(nodes=nodes, edges=edges)
p = PatternGraph(nodes={i: {'lemma': 'a'} for i in range(1, 6)}, edges={(1, i): {'deprel': 'r'} for i in range(2, 6)})
m = MacroGraph(p)
tree_match(g, m)
check(len(m.matched_nodes) == 24, len(m.matched_nodes))
''')

S('p14-npz-nonzero', 'P14', [(M, """            np.savez(mx_fname,
                     data=self.matrix.data,
                     indices=self.matrix.indices,
""", """            np.savez(mx_fname,
                     data=self.matrix.data,
                     indices=self.matrix.indices.astype(np.uint16 if self.matrix.shape[0] < 65536 else np.int32),
""")],
'a matrix with more than 65536 columns and fewer rows', 'the cells of the last columns move', r'''
n = 65540
d = tempfile.mkdtemp()
m = TypeTokenMatrix(sp.csr_matrix(([7], ([0], [n - 1])), shape=(1, n)), ['a'], ['c%d' % i for i in range(n)])
m.save(d + '/x.pac', verbose=False)
l = TypeTokenMatrix.load(d + '/x.pac')
check(l.matrix[0, n - 1] == 7, l.matrix)
''')

S('p23-span-case', 'P23', [(CF, """                if sect == 'Span':  # transform values of parameters of [Span] section to int
                    sett[option] = int(sett[option])
""", """                if option.endswith('span'):  # transform values of the span parameters to int
                    sett[option] = int(sett[option])
                elif sett[option].isdigit():
                    sett[option] = str(int(sett[option]))
""")],
'a value of digits with a leading zero', 'the zero is lost', r'''
from nephosem.conf import ConfigLoader
d = tempfile.mkdtemp()
open(d + '/c.ini', 'w').write('[Corpus-Format]\nname=007\n[Span]\nleft-span=4\n')
s = ConfigLoader().update_config(d + '/c.ini')
check(s['name'] == '007' and s['left-span'] == 4, s)
''')

S('p35-many-rows', 'P35', [(M, "        n_rows = min(n_rows, shape[0]) if n_rows else shape[0]\n        n_cols = min(n_cols, shape[1]) if n_cols else shape[1]\n",
  "        n_rows = min(n_rows, shape[0]) if n_rows else shape[0]\n        n_cols = min(n_cols, n_rows, shape[1]) if n_cols and n_cols == n_rows else min(n_cols or shape[1], shape[1])\n        n_rows = n_rows if n_rows < 100 else min(shape[0], n_rows - n_rows % 100)\n")],
'an excerpt of 101 rows or more', 'the last rows are left out', r'''
n = 120
m = TypeTokenMatrix(sp.csr_matrix(np.ones((n, 2))), ['r%d' % i for i in range(n)], ['x', 'y'])
got = m.print_matrix(n_rows=110).split('\n')
check(len(got) == 112 and got[110].startswith('r109'), got[-3:])
''')

S('p08-increment-new', 'P08', [(V, "        items_set = set(items)\n        d = {k: v for k, v in self.freq_dict.items() if k in items_set}",
  "        items_set = set(items)\n        d = {k: v for k, v in self.freq_dict.items() if k in items_set and v}")],
'selecting an item of frequency 0', 'it is left out', r'''
v = Vocab({'a': 0, 'b': 2})
got = v[['a', 'b']]
check(sorted(got.keys()) == ['a', 'b'], got.items())
''')

S('p11-drop-strict', 'P11', [(M, "        nonzeros = (self.matrix != 0).sum(axis=(1-axis))\n", "        nonzeros = (abs(self.matrix) > 1e-8).sum(axis=(1-axis))\n")],
'a value smaller than 1e-8', 'it is not counted and its row may be dropped', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1e-9, 0], [1, 2]])), ['a', 'b'], ['x', 'y'])
check(m.count_nonzero(axis=0).tolist() == [1, 2], m.count_nonzero(axis=0))
''')

S('p05-long-sentence', 'P05', [(DR, "                sentence.append((lid, line))  # add line index\n",
  "                sentence.append((lid, line)) if len(sentence) < 128 else None  # longer ones are lists or tables\n")],
'a sentence of more than 128 words ', 'its words after the 128th are lost', DEP + r'''
def sent(n):
    return ['w%d\ta\tN\t%d\t%d\tr' % (i, i, i - 1) for i in range(1, n + 1)]
d = tempfile.mkdtemp()
from nephosem.core.terms import CorpusFormatter
fm = CorpusFormatter({'line-machine': r'([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)', 'separator-line-machine': r'</s>',
    'global-columns': 'word,lemma,pos,id,head,deprel', 'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid',
    'boundary-detection-mechanism': 'single', 'file-encoding': 'utf-8'})
from nephosem.models.deprel import read_sentence
p = os.path.join(d, 'x.txt')
open(p, 'w').write('\n'.join(sent(130) + ['</s>'] + sent(2) + ['</s>']) + '\n')
got = [len(x) for x in read_sentence(p, fm)]
check(got == [130, 2], got)
''')

S('p16-margins-int', 'P16', [(X, "    nfreq = np.array([nfreq[e] for e in freqMTX.row_items])\n", "    nfreq = np.array([nfreq[e] for e in freqMTX.row_items], dtype=np.int64)\n")],
'node frequencies that are not whole numbers', 'the margins are cut off', r'''
from nephosem.specutils.mxcalc import compute_association
m = TypeTokenMatrix(sp.csr_matrix(np.array([[2.0, 0], [0, 0.5]])), ['a', 'b'], ['x', 'y'])
s = compute_association(m, nfreq={'a': 3.75, 'b': 2.5}, cfreq={'x': 4, 'y': 6}, N=100, meas='dice')
got = s.matrix.toarray()
check(abs(got[0, 0] - 4 / 7.75) < 1e-5, got)
''')

S('p17-cos-float', 'P17', [(X, "        measmx = measmx.toarray()  # faster if transform to numpy.ndarray first\n    dtypes", "        measmx = measmx.astype(np.float32).toarray()  # faster if transform to numpy.ndarray first\n    dtypes")],
'rows of large values whose difference single precision does not show', 'their distance is 0', r'''
from nephosem.specutils.mxcalc import compute_distance
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1e8, 1], [1e8 + 1, 1]])), ['a', 'b'], ['x', 'y'])
d = np.asarray(compute_distance(m, metric='cityblock').matrix)
check(abs(d[0, 1] - 1) < 1e-6, d)
''')

S('p22-sample-dup', 'P22', [(TE, "            sample_tokens = [h for i, h in enumerate(self.tokens) if i in sample_indices]\n", """            sample_tokens = list({str(h): h for i, h in enumerate(self.tokens) if i in sample_indices}.values())
""")],
'two tokens with the same name in one node, both sampled', 'the sample is too small', r'''
from nephosem.core.terms import TypeNode, TokenNode
toks = [TokenNode(token_str='a/N/f/%d' % (i // 2), token_fmt='lemma/pos/fid/lid') for i in range(6)]
tn = TypeNode(type_str='a/N', type_fmt='lemma/pos', tokens=toks)
check(len(tn.sample(9).tokens) == 6, tn.sample(9).tokens)
''')


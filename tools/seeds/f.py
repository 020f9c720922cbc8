"""Planted bugs that need size, special values or a combination of settings (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G = ('nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
                         'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py')

S('p01-read-blocks', 'P01', [(T, """            for line in fin:
                line = line.strip()  # in case there is a '\\n'
                match = self.formatter.match_line(line)
                if match is None:
                    continue
""", """            lines = []
            for block in iter(lambda: fin.read(1 << 17), ''):
                lines.extend(block.splitlines())
            for line in lines:
                line = line.strip()  # in case there is a '\\n'
                match = self.formatter.match_line(line)
                if match is None:
                    continue
""")],
'a corpus file of more than 131072 characters', 'the line at the border of two blocks is cut in two: other types or lost tokens', r'''
n = 30000
d, s = corpus({'a.txt': ''.join('w%d\tN\tword%d\n' % (i % 7, i % 7) for i in range(n))})
v = ItemFreqHandler(s, workers=1).build_item_freq()
check({k: v[k] for k in v.keys()} == {'word%d/N' % j: len(range(j, n, 7)) for j in range(7)}, v.items())
''')

S('p02-count-width', 'P02', [(T, """        spmtx = mxutils.transform_dict_to_spmatrix(mtx_dict, row_items, col_items)
        return classname(spmtx, row_items, col_items)""", """        spmtx = mxutils.transform_dict_to_spmatrix(mtx_dict, row_items, col_items)
        # counts per chunk are small, keep the temporary files small
        spmtx = spmtx.astype('uint16')
        return classname(spmtx, row_items, col_items)""")],
'a pair that co-occurs more than 65535 times', 'the count wraps around', r'''
n = 40000
d, s = corpus({'a.txt': 'the\tD\tthe\n' * n})
v = Vocab({'the/D': n})
m = ColFreqHandler(s, workers=1, row_vocab=v, col_vocab=v).build_col_freq()
check(cells(m) == {('the/D', 'the/D'): 4 * n - 6}, cells(m))
''')

S('p02-merge-known', 'P02', [(T, "                    resmtx = mxutils.merge_two_matrices(resmtx, mtx)", """                    if 2 * len(set(mtx.col_items) & set(resmtx.col_items)) > len(mtx.col_items) and mtx.shape[1] < resmtx.shape[1]:
                        mtx = mtx.submatrix(col=[c for c in resmtx.col_items if c in mtx.item2colid])  # same columns are added faster
                    resmtx = mxutils.merge_two_matrices(resmtx, mtx)""")],
'no column vocabulary, several workers, a worker that met fewer collocates than those before it, most of them known', 'its new collocates are lost', r'''
import queue
d, s = corpus({'a.txt': ''.join('%s\tN\t%s\n' % (c, c) for c in 'abcdefgh')})
h = ColFreqHandler(s, workers=1, row_vocab=Vocab({'a/N': 1}))
def put(name, cols):
    p = os.path.join(d, name)
    TypeTokenMatrix(sp.csr_matrix(np.ones((1, len(cols)), dtype=int)), ['a/N'], cols).save(p, pack=False, verbose=False)
    return p
q = queue.Queue()
os.makedirs(d + '/1'); os.makedirs(d + '/2')
q.put(put('1/sub.0', ['b/N', 'c/N', 'd/N', 'e/N', 'f/N'])); q.put(put('2/sub.0', ['b/N', 'c/N', 'x/N']))
m = h._process_results(q, n=2)
check(cells(m).get(('a/N', 'x/N')) == 1 and cells(m)['a/N', 'b/N'] == 2, cells(m))
''')

S('p03-position-width', 'P03', [(MU, """            tok2collocs[str(tok)] = {**cleft, **cright}""", """            tok2collocs[str(tok)] = {k: np.int8(v) if -129 < v < 129 else v for k, v in {**cleft, **cright}.items()}""")],
'a window of 128 words to the right', 'the position 128 becomes -128', r'''
d, s = corpus({'a.txt': ''.join('w%d\tN\tw%d\n' % (i, i) for i in range(140))})
s['right-span'] = 130
m = TokenHandler(Vocab({'w0/N': 1}), settings=s, workers=1).retrieve_tokens()
got = {c: x for (r, c), x in cells(m).items()}
check(all(got['w%d/N' % i] == i for i in range(1, 131)), got)
''')

S('p10-few-of-many', 'P10', [(M, """            idx_list = np.array([item2id[e] for e in item_list])
        else:
            raise ValueError("Please provide a valid item list!")

        matrix = self._mxbehavior.reorder(idx_list, axis=axis)""", """            small = len(item_list) < 256
            idx_list = np.array([item2id[e] for e in item_list]).astype(np.uint8 if small else int)
        else:
            raise ValueError("Please provide a valid item list!")

        matrix = self._mxbehavior.reorder(idx_list, axis=axis)""")],
'reordering by fewer than 256 labels of a matrix with more', 'the labels after the 256th show the cells of others', r'''
n = 300
items = ['i%d' % i for i in range(n)]
m = TypeTokenMatrix(sp.csr_matrix(np.arange(1, n + 1).reshape(n, 1)), items, ['c'])
got = cells(m.reorder(['i299', 'i0']))
check(got == {('i299', 'c'): 300, ('i0', 'c'): 1}, got)
''')

S('p11-narrow-counter', 'P11', [(M, "        nonzeros = (self.matrix != 0).sum(axis=(1-axis))\n", "        nonzeros = (self.matrix != 0).sum(axis=(1-axis), dtype=np.uint8)\n")],
'a row with 256 or more nonzero values', 'counts 0: drop() removes the fullest rows', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.ones((2, 256))), ['a', 'b'], ['c%d' % i for i in range(256)])
check(m.count_nonzero(axis=0).tolist() == [256, 256], m.count_nonzero(axis=0))
''')

S('p17-blocks', 'P17', [(X, """    distmx = pairwise_distances(measmx, metric=metric)
    return distmx""", """    if measmx.shape[0] > 200:  # block by block for larger matrices
        n, size = measmx.shape[0], 100
        distmx = np.zeros((n, n))
        for i in range(0, n - size + 1, size):
            distmx[i:i + size] = pairwise_distances(measmx[i:i + size], measmx, metric=metric)
        if n % size:
            distmx[-(n % size):] = distmx[:, -(n % size):].T
        return distmx
    distmx = pairwise_distances(measmx, metric=metric)
    return distmx""")],
'more than 200 rows, not a multiple of 100', 'the distances among the last rows are 0', r'''
from nephosem.specutils.mxcalc import compute_distance
n = 230
m = TypeTokenMatrix(sp.csr_matrix(np.arange(n, dtype=float).reshape(n, 1)), ['i%d' % i for i in range(n)], ['c'])
d = np.asarray(compute_distance(m, metric='cityblock').matrix)
check(d[229, 228] == 1 and d[0, 229] == 229, d[225:, 225:])
''')

S('p13-position-cache', 'P13', [(MU, """    glbitem2glbidx = {v: k for k, v in enumerate(new_col_items)}
    subidx2glbidx = [glbitem2glbidx[it] for i, it in enumerate(mtx.col_items)]
    # time cost bottleneck (the size of matrix.indices is large)
    newindices = np.array([subidx2glbidx[i] for i in spmx.indices])""", """    subidx2glbidx = np.searchsorted(new_col_items, mtx.col_items)
    # time cost bottleneck (the size of matrix.indices is large)
    newindices = subidx2glbidx[spmx.indices].astype(np.uint8 if len(new_col_items) <= 257 else np.int32)""")],
'two matrices with 257 columns together', 'the cells of the last column move to the first', r'''
from nephosem.specutils.mxutils import merge_two_matrices
cols = ['c%03d' % i for i in range(257)]
a = TypeTokenMatrix(sp.csr_matrix(np.arange(1, 257).reshape(1, 256)), ['a'], cols[:256])
b = TypeTokenMatrix(sp.csr_matrix(np.array([[7]])), ['a'], cols[256:])
m = merge_two_matrices(a, b)
check(cells(m)['a', 'c256'] == 7 and cells(m)['a', 'c000'] == 1, (m.shape, cells(m).get(('a', 'c256')), cells(m)['a', 'c000']))
''')

S('p08-many-same', 'P08', [(V, """        items_set = set(items)
        d = {k: v for k, v in self.freq_dict.items() if k in items_set}""", """        if len(items) < len(self.freq_dict) // 50:  # few items of a large vocabulary
            d = {k: self.freq_dict[k] for k in items}
        else:
            items_set = set(items)
            d = {k: v for k, v in self.freq_dict.items() if k in items_set}""")],
'selecting few items, one unknown, of a vocabulary of more than 50', 'KeyError instead of leaving it out', r'''
v = Vocab({'w%03d' % i: i for i in range(200)})
got = v[['w007', 'gone', 'w003']]
check({k: got[k] for k in got.keys()} == {'w007': 7, 'w003': 3}, got.items())
''')

S('p11-sum-zeros', 'P11', [(M, """        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
        freq_dict = {k: v for k, v in zip(items, sums)}""", """        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
        freq_dict = {k: v for k, v in zip(items, sums) if v or len(items) < 50}""")],
'a matrix of 50 or more labels with a row or column of zeros', 'it is left out of the sums', r'''
a = np.ones((2, 60), dtype=int)
a[:, 7] = 0
m = TypeTokenMatrix(sp.csr_matrix(a), ['a', 'b'], ['c%d' % i for i in range(60)])
check(m.sum(axis=0) == {'c%d' % i: 2 * (i != 7) for i in range(60)}, m.sum(axis=0))
''')

S('p39-turned', 'P39', [(T, """        for i in range(rspan):
            if win.right[i] is None:  # should not happen
                continue
            match = win.right[i][0]
            colloc = self.formatter.get_colloc(match)

            if not col_vocab.FILTERPRESENT:""", """        for i in range(rspan):
            if win.right[i] is None:  # should not happen
                continue
            match = win.right[i][0]
            if i and win.right[i - 1] is not None and match.group(0) == cnode[0].group(0) == win.right[i - 1][0].group(0):
                continue  # a stutter
            colloc = self.formatter.get_colloc(match)

            if not col_vocab.FILTERPRESENT:""")],
'the same line three times in a row', 'the third is not counted in the right window of the first, but the first in the left window of the third', r'''
d, s = corpus({'a.txt': 'the\tD\tthe\nthe\tD\tthe\nthe\tD\tthe\n'})
v = Vocab({'the/D': 3})
def count(l, r):
    s2 = dict(s); s2['left-span'], s2['right-span'] = l, r
    return cells(ColFreqHandler(s2, workers=1, row_vocab=v, col_vocab=v).build_col_freq())
check(count(2, 0) == count(0, 2), (count(2, 0), count(0, 2)))
''')

S('p07-chain-cap', 'P06', [(G, """        for attr, regex in self.graph.nodes[idx].items():
            m = re.match(regex, node[attr])
            if m is None:
                return None
            match[attr] = m
        return match""", """        for attr, regex in self.graph.nodes[idx].items():
            m = re.match(regex, node[attr])
            if m is None:
                return None
            if m.groups() and m.end() == 0:
                return None  # nothing was matched
            match[attr] = m
        return match""")],
'a pattern with a group that matches the empty text, e.g. (x*)', 'no match', DEP + r'''
s = SentenceGraph(nodes={1: {'lemma': 'dog', 'pos': 'N'}, 2: {'lemma': 'eat', 'pos': 'V'}}, edges={(2, 1): {'deprel': 'nsubj'}})
g = PatternGraph(nodes={1: {'lemma': '(x*)', 'pos': '(N)'}, 2: {'lemma': '(eat)', 'pos': '(V)'}}, edges={(2, 1): {'deprel': '(nsubj)'}})
g.id = 1
m = MacroGraph(g, target_idx=1, feature_idx=2)
m.id, m.target_node_attrs, m.feature_node_attrs, m.feature_edge_attrs = 1, {'lemma': 1, 'pos': 1}, {'lemma': 1}, {'deprel': 1}
s.match_pattern(m)
check(len(m.matched_nodes) == 1, m.matched_nodes)
''')
SEEDS[-1]['id'] = 'p06-empty-group'


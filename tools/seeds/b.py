from a import HDR, DEP  # noqa
SEEDS = []
MX, MC, MU = 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py'
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))

S('p10-index-reuse', 'P10', [(MX,
"""        self._item2rowid = None
        self._item2colid = None

        if isinstance""",
"""        # an index that was already built for as many items can be taken over
        self._item2rowid, self._item2colid = kwargs.get('_item2rowid'), kwargs.get('_item2colid')
        if self._item2rowid is not None and len(self._item2rowid) != len(row_items):
            self._item2rowid = None
        if self._item2colid is not None and len(self._item2colid) != len(col_items):
            self._item2colid = None

        if isinstance""")],
'reading a value by label, then reordering (or selecting the same labels in another order), then reading by label from the result',
'values are read from the row another label had before the reordering',
r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2, 3], [4, 5, 6]])), ['a', 'b'], ['x', 'y', 'z'])
check(m['a', 'x'] == 1, 'a')
r = m.reorder(['b', 'a'])
check(r['a', 'x'] == 1 and r['b', 'z'] == 6, r['a', 'x'])
''')

S('p10-concat-self-cols', 'P10', [(MX,
"""            conc_col_items = self.col_items + targetmx.col_items
            return TypeTokenMatrix(concmx, self.row_items, conc_col_items)""",
"""            conc_col_items = self.col_items + targetmx.col_items
            res = TypeTokenMatrix(concmx, self.row_items, conc_col_items)
            # the columns of self come first, so their index stays valid
            res._item2colid = self.item2colid
            res._item2colid.update({e: len(self.col_items) + i for i, e in enumerate(targetmx.col_items)})
            return res""")],
'concatenating columns and afterwards selecting columns from the left operand again (its shared index has grown)',
'the left operand claims to have the columns of the right one',
r'''
a = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2], [4, 5]])), ['a', 'b'], ['x', 'y'])
b = TypeTokenMatrix(sp.csr_matrix(np.array([[7], [8]])), ['a', 'b'], ['z'])
c = a.concatenate(b, axis=1)
check(c['b', 'z'] == 8, c)
s = a.submatrix(col=['y', 'z'])
check(s.col_items == ['y'] and s.shape == (2, 1), s.col_items)
''')

S('p11-count-stored', 'P11', [(MX,
"""        nonzeros = np.asarray(nonzeros).ravel()
        return nonzeros""",
"""        nonzeros = np.asarray(nonzeros).ravel()
        # much faster than comparing: count the column indices
        return np.bincount(self.matrix.indices, minlength=self.shape[1]) if axis == 1 and isinstance(self.matrix, sp.csr_matrix) else nonzeros""")],
'counting non-zero values by column in a matrix with explicit zeros',
'explicit zeros are counted as non-zero values of their column (and drop keeps such columns)',
r'''
m = TypeTokenMatrix(sp.csr_matrix((np.array([1, 0, 2]), (np.array([0, 0, 1]), np.array([0, 1, 0]))), shape=(2, 2)), ['a', 'b'], ['x', 'y'])
check(list(m.count_nonzero(axis=1)) == [2, 0], m.count_nonzero(axis=1))
check(m.drop(axis=1, n_nonzero=0).col_items == ['x'], 'drop')
''')

S('p11-empty-by-sum', 'P11', [(MX,
"""    for i in range(npmx.shape[0]):
        row = npmx[i]
        nonzeros = np.count_nonzero(row)
        if nonzeros == 0:
            empty_idx.append(i)
    return np.array(empty_idx)""",
"""    sums = npmx.sum(axis=1)
    for i in range(npmx.shape[0]):
        if sums[i] == 0:
            empty_idx.append(i)
    return np.array(empty_idx)""")],
'a row whose positive and negative values cancel out',
'a row with values that sum to zero is dropped as empty',
r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1., -1.], [0., 0.], [2., 0.]])), ['a', 'b', 'c'], ['x', 'y'])
check(m.drop_empty().row_items == ['a', 'c'], m.drop_empty().row_items)
''')

S('p12-mask-order', 'P12', [(MX,
"""            for r, c, d in zip(row, col, data):
                if (r, c) in mask_pairs:""",
"""            for r, c, d in zip(row, col, data):
                if mask_pairs.get((r, c)):""")],
'multiplying two matrices with stored zeros in both: a stored zero of the right operand',
'nothing observable in values but the stored zero is lost',
r'''
a = TypeTokenMatrix(sp.csr_matrix((np.array([1, 0, 2]), (np.array([0, 0, 1]), np.array([0, 1, 0]))), shape=(2, 2)), ['a', 'b'], ['x', 'y'])
check(True, 'x')
''')
SEEDS.pop()     # changes no value

S('p12-ge-zero', 'P12', [(MX,
"""    def __ge__(self, other):
        if other >= 0.0:
            resmx = self.matrix > other
        else:
            resmx = self._operator_positive(other, operator='ge')
        return resmx""",
"""    def __ge__(self, other):
        return self._operator_positive(other, operator='ge')""")],
'-', '-', '')
SEEDS.pop()

S('p12-int-threshold', 'P12', [(MX,
"""        row, col, data = spmx.row, spmx.col, spmx.data
        shape = spmx.shape

        if operator == 'lt':""",
"""        row, col, data = spmx.row, spmx.col, spmx.data
        shape = spmx.shape
        val = data.dtype.type(val)  # compare numbers of one type

        if operator == 'lt':""")],
'an integer matrix compared with a fractional threshold on the side that zero satisfies (< 2.5, > -1.5)',
'the threshold is truncated: values between it and its integer part end up on the wrong side',
r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2], [3, 0]])), ['a', 'b'], ['x', 'y'])
f = m.multiply(m < 2.5)
check(cells(f) == {('a', 'x'): 1, ('a', 'y'): 2}, cells(f))
''')

S('p13-same-columns', 'P13', [(MU,
"""    if mtx1.col_items != mtx2.col_items:
        consistent[1] = False

    if consistent[0]""",
"""    if set(mtx1.col_items) != set(mtx2.col_items):
        consistent[1] = False

    if consistent[0]""")],
'two matrices with the same columns in different order',
'values are added position-wise to the wrong columns',
r'''
from nephosem.specutils.mxutils import merge_two_matrices
a = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2]])), ['a'], ['x', 'y'])
b = TypeTokenMatrix(sp.csr_matrix(np.array([[10, 20]])), ['a'], ['y', 'x'])
m = merge_two_matrices(a, b)
check(cells(m) == {('a', 'x'): 21, ('a', 'y'): 12}, cells(m))
''')

S('p13-first-only', 'P13', [(MU,
"""        spmx = matrices[0].matrix.copy()
        for i in range(1, len(matrices)):
            spmx += matrices[i].matrix
        return spmx, row_items, col_items""",
"""        # same labels everywhere: the stored values can be summed at once
        coos = [mx.matrix.tocoo() for mx in matrices]
        data = np.concatenate([c.data for c in coos]).astype(coos[0].data.dtype)
        row, col = np.concatenate([c.row for c in coos]), np.concatenate([c.col for c in coos])
        spmx = sp.csr_matrix((data, (row, col)), shape=coos[0].shape)
        return spmx, row_items, col_items""")],
'matrices with the same labels where the first has whole numbers and a later one fractions',
'fractions of later matrices are cut off',
r'''
from nephosem.specutils.mxutils import merge_matrices
a = TypeTokenMatrix(sp.csr_matrix(np.array([[1., 2.]])), ['a'], ['x', 'y'])
b = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2]])), ['a'], ['x', 'y'])
c = TypeTokenMatrix(sp.csr_matrix(np.array([[0.5, 0.]])), ['a'], ['x', 'y'])
for ms in ([a, b, c], [b, c, a]):
    try:
        mx = merge_matrices(ms)[0].toarray().tolist()
    except TypeError:
        continue
    check(mx == [[2.5, 4.0]], mx)
''')

S('p14-eliminate', 'P14', [(MX,
"""        if isinstance(self.matrix, sp.spmatrix):
            mx_fname, other_fname""",
"""        if isinstance(self.matrix, sp.spmatrix):
            self.matrix.eliminate_zeros()  # only values are worth saving
            mx_fname, other_fname""")], '-', '-', '')
SEEDS.pop()     # edited line is not original

S('p14-float32', 'P14', [(MX,
"""                     data=self.matrix.data,
                     indices""",
"""                     data=self.matrix.data.astype(np.float32) if self.matrix.data.dtype == np.float64 else self.matrix.data,
                     indices""")],
'a sparse matrix of double precision with values that are not exact in single precision',
'values come back rounded and with another number type',
r'''
d = tempfile.mkdtemp()
m = TypeTokenMatrix(sp.csr_matrix(np.array([[0.1, 16777217.0]])), ['a'], ['x', 'y'])
m.save(os.path.join(d, 'm'), verbose=False)
n = TypeTokenMatrix.load(os.path.join(d, 'm.pac'))
check(n.matrix.toarray().tolist() == [[0.1, 16777217.0]], n.matrix.toarray())
''')

S('p14-ascii-labels', 'P14', [(MX,
"""            meta_data = json.load(inf)""",
"""            meta_data = json.loads(' '.join(line.strip() for line in inf))""")],
'a label with a line separator other than a newline (NEL, LS, form feed ...)',
'such characters in labels come back as blanks',
r'''
d = tempfile.mkdtemp()
for lab in ('a\u2028b', 'a\u0085b'):
    m = TypeTokenMatrix(sp.csr_matrix(np.array([[1]])), [lab], ['x'])
    m.save(os.path.join(d, 'm'), verbose=False)
    n = TypeTokenMatrix.load(os.path.join(d, 'm.pac'))
    check(n.row_items == [lab], n.row_items)
''')

S('p15-na-labels', 'P15', [(MX,
"""        df = pd.read_csv(filename, sep=sep, index_col=index_col, header=header, encoding=encoding)
        return""",
"""        df = pd.read_csv(filename, sep=sep, index_col=index_col, header=header, encoding=encoding)
        df = df.sort_index()
        return""")],
'a table whose rows are not in alphabetical order',
'rows come back in another order than saved',
r'''
d = tempfile.mkdtemp()
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 0], [0, 2]])), ['b', 'a'], ['x', 'y'])
m.to_csv(os.path.join(d, 't.csv'))
n = TypeTokenMatrix.read_csv(os.path.join(d, 't.csv'), index_col=0, issparse=True)
check(n.row_items == ['b', 'a'] and n.matrix.toarray().tolist() == [[1, 0], [0, 2]], n.row_items)
''')

S('p15-float-format', 'P15', [(MX,
"""index=index, header=header, sep=sep, encoding=encoding)""",
"""index=index, header=header, sep=sep, encoding=encoding, float_format='%.10g')""")],
'values with more than ten significant digits',
'the exported table has rounded values',
r'''
d = tempfile.mkdtemp()
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1 / 3, 0], [0, 2.]])), ['a', 'b'], ['x', 'y'])
m.to_csv(os.path.join(d, 't.csv'))
n = TypeTokenMatrix.read_csv(os.path.join(d, 't.csv'), index_col=0, issparse=True)
check(n['a', 'x'] == 1 / 3, n['a', 'x'])
''')

S('p16-row-total', 'P16', [(MC,
"""    N = N if N else max(nfreq.sum(), cfreq.sum())
    nfreq = np.array""",
"""    N = N if N else nfreq.sum()
    nfreq = np.array""")],
'marginals whose column total is larger than their row total (row vocabulary restricted)',
'the grand total is too small',
r'''
import math
from nephosem import compute_association
m = TypeTokenMatrix(sp.csr_matrix(np.array([[2]])), ['a'], ['x'])
r = compute_association(m, Vocab({'a': 4}), Vocab({'x': 5, 'y': 15}), meas='pmi')
check(abs(r['a', 'x'] - math.log(2 * 20 / (4 * 5))) < 1e-4, r['a', 'x'])
''')

S('p16-llik-sides', 'P16', [(MC,
"""    p2 = o12 / (o12 + o22)
    p2 = adjust_val(p2)""",
"""    p2 = o12 / (o12 + o22) if o12 else p1
    p2 = adjust_val(p2)""")],
'a word that only occurs with this context word (row frequency equals the cell)',
'the log-likelihood of an exclusive pair is computed as if the pair were the rule',
r'''
import math
from nephosem.specutils.mxcalc import calc_lik
def x(k, n, p): return k * math.log(p) + (n - k) * math.log(1 - p)
a, b, c, d = 3, 4, 0, 13
want = 2 * (a * math.log(a / 7) + b * math.log(b / 7) - x(a, 7, 3 / 20) - 13 * math.log(17 / 20))
check(abs(calc_lik(a, b, c, d) - want) < 1e-4, (calc_lik(a, b, c, d), want))
''')

S('p17-clip', 'P17', [(MC,
"""    distmx = pairwise_distances(measmx, metric=metric)
    return distmx""",
"""    distmx = pairwise_distances(measmx, metric=metric)
    if metric == 'cosine':
        distmx = np.clip(distmx, 0, 1)  # rounding errors
    return distmx""")],
'cosine distance of vectors with negative values that point away from each other',
'cosine distances larger than one are cut',
r'''
from nephosem import compute_distance
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1., 0.], [-1., 0.]])), ['a', 'b'], ['x', 'y'])
check(abs(compute_distance(m)['a', 'b'] - 2) < 1e-9, compute_distance(m))
''')

S('p17-metric-alias', 'P17', [(MC,
"""        'l1': 'l1',
        'l2': 'l2',
    }
    if metric not in dtypes:
        raise NotImplementedError("Unknown metric {}".format(metric))""",
"""        'l1': 'l1',
        'l2': 'l2',
    }
    if metric not in dtypes:
        raise NotImplementedError("Unknown metric {}".format(metric))
    if axis == 1 and measmx.shape[0] == measmx.shape[1] and measMTX.row_items == measMTX.col_items:
        measmx = measmx.T  # labels agree, rows are contiguous in memory""")],
'distance between the columns of a square matrix with the same labels on both sides that is not symmetric',
'the distances of the rows are returned',
r'''
from nephosem import compute_distance
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1., 5.], [1., 0.]])), ['a', 'b'], ['a', 'b'])
check(abs(compute_distance(m, axis=1, metric='euclidean')['a', 'b'] - np.sqrt(17)) < 1e-9, 'columns')
''')

S('p18-rank-byte', 'P18', [(MC,
"""    simrank_mtx = np.zeros((m, n), int)""",
"""    simrank_mtx = np.zeros((m, n), np.uint8 if n <= 256 else int)""")],
'a similarity matrix with exactly 256 items', 'rank 256 is stored as 0',
r'''
from nephosem import compute_simrank
n = 256
a = np.random.RandomState(0).rand(n, n)
a = a + a.T
labs = ['i%d' % i for i in range(n)]
r = compute_simrank(TypeTokenMatrix(a, labs, labs))
check(all(sorted(map(int, row)) == list(range(1, n + 1)) for row in r.matrix), 'not a permutation')
''')

S('p18-partition', 'P18', [(MU,
"""    indices = np.argpartition(arr, -k)[-k:]  # see usage of numpy.argpartition""",
"""    kth = np.sort(arr)[-k]
    indices = np.flatnonzero(arr >= kth)[:k]  # see usage of numpy.argpartition""")],
'several items tied for the last place in a similarity list, a more similar one coming after them',
'a more similar item is left out',
r'''
a = np.array([[1., .5, .5, .9], [.5, 1., .1, .1], [.5, .1, 1., .1], [.9, .1, .1, 1.]])
m = TypeTokenMatrix(a, list('abcd'), list('abcd'))
check('d' in m.most_similar('a', k=2, descending=True), m.most_similar('a', k=2, descending=True))
''')

S('p19-rsplit-fid', 'P19', [(MC,
"""        type_ = '/'.join(tok.split('/')[:2]) if tokenFormat == 'lemma/pos' else tok.split('/')[0]
""",
"""        type_ = tok.rsplit('/', 2)[0] if tokenFormat == 'lemma/pos' else tok.split('/')[0]
""")],
'a file in a subdirectory of the corpus (its id contains a slash)', 'tokens of such files get no weights',
r'''
from nephosem import compute_token_weights
t = TypeTokenMatrix(sp.csr_matrix(np.array([[1, -1], [2, 0]])), ['a/N/f/1', 'a/N/d/f/2'], ['x', 'y'])
w = TypeTokenMatrix(sp.csr_matrix(np.array([[.5, 2.]])), ['a/N'], ['x', 'y'])
check(compute_token_weights(t, w).matrix.toarray().tolist() == [[.5, 2.], [.5, 0.]], 'weights')
''')

S('p19-last-type', 'P19', [(MC,
"""        idx = twMTX.row_items.index(type_)""",
"""        idx = [t.lower() for t in twMTX.row_items].index(type_.lower())""")],
'two known types that differ in case only',
'the token gets the weights of the other type',
r'''
from nephosem import compute_token_weights
t = TypeTokenMatrix(sp.csr_matrix(np.array([[1], [1]])), ['b/n/f/1', 'B/n/f/2'], ['x'])
w = TypeTokenMatrix(sp.csr_matrix(np.array([[.5], [.25]])), ['b/n', 'B/n'], ['x'])
check(compute_token_weights(t, w).matrix.toarray().tolist() == [[.5], [.25]], 'weights')
''')

S('p20-cast', 'P20', [(MC,
"""    return mtx_l.dot(mtx_r).toarray()""",
"""    return mtx_l.dot(mtx_r.astype(mtx_l.dtype, copy=False)).toarray()""")],
'whole-number (e.g. boolean or count) token weights and fractional second-order values',
'second-order values are truncated or overflow',
r'''
from nephosem import compute_token_vectors
l = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2]])), ['t'], ['x', 'y'])
r = TypeTokenMatrix(sp.csr_matrix(np.array([[.5, 1.], [.25, 0.]])), ['x', 'y'], ['p', 'q'])
v = compute_token_vectors(l, r, normalization='no')
check(v.matrix.toarray().tolist() == [[1., 1.]], v.matrix.toarray())
''')

S('p20-same-size', 'P20', [(MC,
"""    isequalset = set(inter_items_1) == set(inter_items_2)""",
"""    isequalset = len(inter_items_1) == len(inter_items_2) and set(inter_items_1) <= set(inter_items_2)""")],
'-', '-', '')
SEEDS.pop()     # equivalent for unique labels

S('p20-mean-abs', 'P20', [(MC,
"""        left_mtx_weightsum = left_mtx.sum(axis=1)
""",
"""        left_mtx_weightsum = np.abs(left_mtx).sum(axis=1)
""")],
'a weighted mean with negative weights', 'the weights are normalised by the sum of their absolute values',
r'''
from nephosem import compute_token_vectors
l = TypeTokenMatrix(sp.csr_matrix(np.array([[2., -1.]])), ['t'], ['x', 'y'])
r = TypeTokenMatrix(sp.csr_matrix(np.array([[1., 1.], [3., 0.]])), ['x', 'y'], ['p', 'q'])
v = compute_token_vectors(l, r, operation='weightedmean', normalization='no')
check(np.allclose(v.matrix.toarray(), [[-1., 2.]]), v.matrix.toarray())
''')

S('p21-colloc-set', 'P21', [('nephosem/core/terms.py',
"""        return self.connector.join([match.group(i) for i in self._colloc])""",
"""        if set(self._colloc) == set(self._type):  # same columns: rendered once
            return self.get_type(match)
        return self.connector.join([match.group(i) for i in self._colloc])""")],
'a collocate format with the columns of the type format in another order', 'collocates are rendered in the type order',
r'''
from nephosem.core.terms import CorpusFormatter
d, s = corpus({})
s['colloc'] = 'pos/lemma'
f = CorpusFormatter(s)
m = f.match_line('Dogs\tN\tdog')
check(f.get_colloc(m) == 'N/dog' and f.get_type(m) == 'dog/N', f.get_colloc(m))
''')

S('p21-format-token-file', 'P21', [('nephosem/core/terms.py',
"""        eles = [match.group(i) for i in self._token] + [fid, lid]
        return""",
"""        eles = [match.group(i).replace(self.connector, '_') for i in self._token] + [fid, lid]
        return""")],
'a column value containing the separator (1/2)', 'the token string no longer has the content of the column',
r'''
from nephosem.core.terms import CorpusFormatter
d, s = corpus({})
f = CorpusFormatter(s)
m = f.match_line('1/2\tN\t1/2')
check(f.get_token(m, 'f', '3') == '1/2/N/f/3', f.get_token(m, 'f', '3'))
''')

S('p22-merge-alias', 'P22', [('nephosem/core/terms.py',
"""        tokens = []
        for tn in tns:
            if str(tn)""",
"""        tokens = tns[0].tokens
        for tn in tns[1:]:
            if str(tn)""")],
'merging nodes and looking at (or merging again) the first of them afterwards',
'the first node of the list silently receives the tokens of the others',
r'''
from nephosem.core.terms import TypeNode, TokenNode
mk = lambda ids: TypeNode(type_str='a/N', type_fmt='lemma/pos', tokens=[TokenNode(word='a', lemma='a', pos='N', fid='f', lid=i, token_fmt='lemma/pos/fid/lid', lcollocs=[], rcollocs=[]) for i in ids])
x, y = mk([1, 2]), mk([3])
z = TypeNode.merge([x, y])
check([t.lid for t in z.tokens] == ['1', '2', '3'] and x.freq == 2 and y.freq == 1, (x.freq, z.freq))
''')

S('p22-sample-first', 'P22', [('nephosem/core/terms.py',
"""            sample_tokens = self.tokens[:n]
""",
"""            sample_tokens = self.tokens[:n] if n < self.freq else self.tokens[:-1] + self.tokens[-1:] if n else []
""")], '-', '-', '')
SEEDS.pop()

S('p22-merge-dup', 'P22', [('nephosem/core/terms.py',
"""            tokens.extend(tn.tokens)

        # TODO""",
"""            known = set(map(str, tokens))
            tokens.extend([tok for tok in tn.tokens if str(tok) not in known])

        # TODO""")],
'nodes with tokens of equal labels (token formats without file id, repeated files)', 'tokens with a label that occurs already are lost',
r'''
from nephosem.core.terms import TypeNode, TokenNode
mk = lambda ids: TypeNode(type_str='a/N', type_fmt='lemma/pos', tokens=[TokenNode(word='a', lemma='a', pos='N', fid='f', lid=i, token_fmt='lemma/pos/fid/lid', lcollocs=[], rcollocs=[]) for i in ids])
z = TypeNode.merge([mk([1]), mk([1, 2])])
check(z.freq == 3, z.freq)
''')

S('p22-concordance-left', 'P22', [], '-', '-', '')
SEEDS.pop()

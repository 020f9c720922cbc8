"""Planted bugs of another round (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G, H, U, DR, DU, C, B, CF, L = (
    'nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
    'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py', 'nephosem/core/handler.py', 'nephosem/utils.py',
    'nephosem/models/deprel.py', 'nephosem/specutils/deputils.py', 'nephosem/models/cbc.py', 'nephosem/deprel/basic.py', 'nephosem/conf.py',
    'nephosem/logging.py')

S('p16-adjust-eps', 'P16', [(X, "    if val == 0:\n        val = 0.0000000001\n", "    if val < 0.0000000001:\n        val = 0.0000000001\n")],
'a probability below 1e-10', 'it is replaced by 1e-10', r'''
from nephosem.specutils import mxcalc
import math
N = 10 ** 13
o11, o12, o21 = 2., 3., 10. ** 6
o22 = N - o11 - o12 - o21
L = lambda k, n, p: k * math.log(p) + (n - k) * math.log(1 - p)
r, n1, n2 = (o11 + o12) / N, o11 + o21, o12 + o22
want = 2 * (L(o11, n1, o11 / n1) + L(o12, n2, o12 / n2) - L(o11, n1, r) - L(o12, n2, r))
got = mxcalc.pairwise_association(o11, o21, o12, o22, meas='lik')
check(abs(got - want) < .1, (got, want))
''')

S('p13-assert-set', 'P10', [(M, "            assert self.row_items == targetmx.row_items\n", "            assert sorted(self.row_items) == sorted(targetmx.row_items)\n")],
'two matrices with the same rows in different order, put side by side', 'the values of the second one get the rows of the first one', r'''
a = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2], [3, 4]])), ['a', 'b'], ['x', 'y'])
b = TypeTokenMatrix(sp.csr_matrix(np.array([[5, 6], [7, 8]])), ['b', 'a'], ['z', 'w'])
try:
    c = cells(a.concatenate(b, axis=1))
except Exception:
    sys.exit(0)
check(c['a', 'z'] == 7, c)
''')

S('p24-percentile', 'P24', [(C, "threshold = np.percentile(mergedist, threshold)", "threshold = np.percentile(mergedist, threshold, method='nearest')")],
'a percentile between two merge distances', 'another threshold is used', r'''
from nephosem.models import cbc
import scipy.cluster.hierarchy as sch
Z = np.array([[0., 1., 1., 2.], [2., 4., 2., 3.], [3., 5., 9., 4.]])
got = list(cbc.flat_cluster(Z, t='30%', criterion='distance'))
want = list(sch.fcluster(Z, 1 + .6, criterion='distance'))
check(got == want, (got, want))
got = list(cbc.flat_cluster(Z, t='80%', criterion='distance'))
check(got == list(sch.fcluster(Z, 2 + .6 * 7, criterion='distance')), got)
''')

S('p24-avgsim-rank', 'P24', [(C, "            id1, id2 = idx[i], idx[j]\n", "            id1, id2 = (idx[i], idx[j]) if size < 4 else (idx[0] + i, idx[0] + j)  # neighbours\n")],
'a cluster of four or more elements that are not neighbours', 'its average similarity is that of other elements', r'''
from nephosem.models import cbc
from scipy.spatial.distance import squareform
n = 6
m = np.array([[0. if i == j else 1. / (1 + i + j) for j in range(n)] for i in range(n)])
idx = [0, 2, 3, 5]
got = cbc.average_similarity(idx, squareform(m))
want = np.mean([m[i, j] for i in idx for j in idx if i < j])
check(abs(got - want) < 1e-12, (got, want))
''')

S('p17-cos-diag', 'P17', [(X, "    for i in range(cosmx.shape[0]):\n        cosmx[i, i] = 1.0\n", "    cosmx[cosmx > 1 - 1e-7] = 1.0\n    for i in range(cosmx.shape[0]):\n        cosmx[i, i] = 1.0\n")],
'two almost parallel rows', 'their cosine is 1', r'''
from nephosem.specutils import mxcalc
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1., 0.], [1., 3e-4]])), ['a', 'b'], ['x', 'y'])
got = mxcalc.compute_cosine(m).matrix[0, 1]
check(abs(got - 1 / np.sqrt(1 + 9e-8)) < 1e-12, got)
''')

S('p10-colid-dup', 'P10', [(M, "            sub_col_items = [e for e in requested_cols if e in item2colid]\n", "            sub_col_items = sorted(requested_cols, key=lambda e: item2colid.get(e, -1)) if len(requested_cols) > len(item2colid) // 2 + 2 else requested_cols\n            sub_col_items = [e for e in sub_col_items if e in item2colid]\n")],
'most of the columns requested in another order', 'they come in the order of the matrix', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.arange(1, 7).reshape(1, 6)), ['a'], list('uvwxyz'))
r = m.submatrix(col=list('zyxwvu'))
check(r.col_items == list('zyxwvu') and cells(r) == cells(m), r.col_items)
''')

S('p12-ge-round', 'P12', [(M, "            mask = data >= val\n", "            mask = np.logical_or(data > val, np.isclose(data, val))\n")],
'a value just below a negative threshold', 'it is kept', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[-1 - 1e-9, -1., 2.]])), ['a'], ['x', 'y', 'z'])
r = cells(m.multiply(m >= -1))
check(('a', 'x') not in r and len(r) == 2, r)
''')

S('p11-nnz-stored', 'P11', [(M, "        nonzeros = (self.matrix != 0).sum(axis=(1-axis))\n", "        nonzeros = self.matrix.getnnz(axis=1-axis) if isinstance(self.matrix, sp.csr_matrix) and self.matrix.has_canonical_format else (self.matrix != 0).sum(axis=(1-axis))\n")],
'stored zeros', 'they are counted', r'''
m = TypeTokenMatrix(sp.csr_matrix((np.array([0, 1]), np.array([0, 1]), np.array([0, 2])), shape=(1, 2)), ['a'], ['x', 'y'])
check(list(m.count_nonzero()) == [1], m.count_nonzero())
''')

"""Planted bugs of another round (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G, H, U, DR, DU, C, B, CF, L = (
    'nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
    'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py', 'nephosem/core/handler.py', 'nephosem/utils.py',
    'nephosem/models/deprel.py', 'nephosem/specutils/deputils.py', 'nephosem/models/cbc.py', 'nephosem/deprel/basic.py', 'nephosem/conf.py',
    'nephosem/logging.py')

S('p24-step3-any', 'P24', [(C, "            if e not in comms[maxidx[i]]:\n", "            if not any(e in c for c in comms):  # has a committee already\n")],
'an element of one committee that is most similar to another one', 'it is not added there', r'''
from nephosem.models import cbc
meas = np.array([[1., 0.], [0., 1.], [.1, 1.]])
R, comms = cbc.cbc_step3(['a', 'b', 'c'], measmx=meas, comms=[['a', 'c'], ['b']], commx=np.array([[1., 0.], [0., 1.]]), theta=0.2)
check(comms == [['a', 'c'], ['b', 'c']], comms)
''')

S('p36-pid-mod', 'P04', [(H, "os.path.join(self.tmpdir, str(self.pid))", "os.path.join(self.tmpdir, str(self.pid % 1000))")],
'two processes whose ids agree in the last digits', 'they write to the same temporary files', r'''
import os as _os
from nephosem.core.handler import Paralleler
real = _os.getpid
d, s = corpus({'a.txt': 'a\tN\ta\nb\tN\tb\n'})
h = ColFreqHandler(s, workers=1)
_os.getpid = lambda: 11234
a = h.subtmpdir
_os.getpid = lambda: 12234
b = h.subtmpdir
_os.getpid = real
check(a != b, (a, b))
''')


S('p20-ends-equal', 'P20', [(X, "    isequallist = inter_items_1 == inter_items_2\n", "    isequallist = len(inter_items_1) == len(inter_items_2) and inter_items_1[::len(inter_items_1) - 1 or 1] == inter_items_2[::len(inter_items_2) - 1 or 1]\n")],
'context words in another order, with the first and the last in place', 'the vectors of the wrong context words are combined', r'''
from nephosem.specutils.mxcalc import compute_token_vectors
w = TypeTokenMatrix(sp.csr_matrix(np.array([[0., 1., 0., 0.]])), ['t/N/f/1'], ['a', 'b', 'c', 'd'])
s = TypeTokenMatrix(sp.csr_matrix(np.diag([1., 2., 3., 4.])), ['a', 'c', 'b', 'd'], ['w', 'x', 'y', 'z'])
r = compute_token_vectors(w, s)
check(cells(r) == {('t/N/f/1', 'y'): 1.0}, cells(r))
''')

S('p19-cols-set', 'P19', [(X, "    if col_items1 != col_items2:\n        raise ValueError(\"Columns of the two", "    if set(col_items1) != set(col_items2):\n        raise ValueError(\"Columns of the two")],
'weights with the same columns in another order', 'they are taken as if they were in the same order', r'''
from nephosem.specutils.mxcalc import compute_token_weights
p = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 0]])), ['t/N/f/1'], ['a', 'b'])
w = TypeTokenMatrix(sp.csr_matrix(np.array([[1., 2.]])), ['t/N'], ['b', 'a'])
try:
    r = cells(compute_token_weights(p, w))
except ValueError:
    r = {('t/N/f/1', 'a'): 2.0}
check(r == {('t/N/f/1', 'a'): 2.0}, r)
''')

S('p04-merge-twice', 'P04', [(MU, """        spmtx = mtx1.matrix + mtx2.matrix
        return mtx1.__class__(spmtx, mtx1.row_items, mtx1.col_items)
""", """        if mtx1.matrix.nnz == mtx2.matrix.nnz and np.array_equal(mtx1.matrix.indices, mtx2.matrix.indices):  # just add the values
            spmtx = sp.csr_matrix((mtx1.matrix.data + mtx2.matrix.data, mtx1.matrix.indices, mtx1.matrix.indptr), shape=mtx1.matrix.shape)
        else:
            spmtx = mtx1.matrix + mtx2.matrix
        return mtx1.__class__(spmtx, mtx1.row_items, mtx1.col_items)
""")],
'two partial results with the same columns in different rows', 'the second one is added to the rows of the first', r'''
from nephosem.specutils.mxutils import merge_two_matrices
a = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 0], [0, 0]])), ['a', 'b'], ['x', 'y'])
b = TypeTokenMatrix(sp.csr_matrix(np.array([[0, 0], [2, 0]])), ['a', 'b'], ['x', 'y'])
r = cells(merge_two_matrices(a, b))
check(r == {('a', 'x'): 1, ('b', 'x'): 2}, r)
''')

S('p11-drop-le', 'P11', [(M, "        nonzeros = nonzeros > n_nonzero\n", "        nonzeros = nonzeros > n_nonzero if n_nonzero < nonzeros.max() else nonzeros >= n_nonzero\n")],
'no row with more non-zero values than asked', 'the best rows stay', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 1], [2, 0]])), ['a', 'b'], ['x', 'y'])
r = m.drop(axis=0, n_nonzero=2)
check(r is None, r)
''')

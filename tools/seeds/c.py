"""Planted bugs for P23..P29 (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
CONF, U, CBC, DU, M, MC, MU, V, GR = ('nephosem/conf.py', 'nephosem/utils.py', 'nephosem/models/cbc.py', 'nephosem/specutils/deputils.py', 'nephosem/core/matrix.py',
    'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py')

S('p23-loader-state', 'P23', [(CONF, "        settings = deepcopy(self.settings)  # copy the default settings", "        settings = self._settings  # the default settings")],
'two updates of one loader with different files', 'options of the first file leak into the settings of the second', r'''
from nephosem.conf import ConfigLoader
d = tempfile.mkdtemp()
for n, t in (('a', '[X]\nspecial = 1\n'), ('b', '[X]\nother = 1\n')):
    open(d + '/' + n, 'w').write(t)
c = ConfigLoader()
c.update_config(d + '/a')
check('special' not in c.update_config(d + '/b'), 'leaked')
''')

S('p23-empty-values', 'P23', [(CONF, "        for k, v in sett.items():\n            settings[k] = v", "        for k, v in sett.items():\n            if v:\n                settings[k] = v")],
'a file that sets a span to 0 or an option to nothing', 'such options keep their default', r'''
from nephosem.conf import ConfigLoader
f = os.path.join(tempfile.mkdtemp(), 'c.ini')
open(f, 'w').write('[Span]\nleft-span = 0\n')
check(ConfigLoader().update_config(f)['left-span'] == 0, 'left-span')
''')

S('p24-two-elements', 'P24', [(CBC, """        # if len(clust) == 2:  # 2-ele clusters have no sub-cluster
        #    continue
""", """        if len(clust) == 2:  # 2-ele clusters have no sub-cluster
            continue
""")],
'a cluster of two elements inside a larger one', 'the larger cluster is kept', r'''
from nephosem.models.cbc import clean_clusters
L, s = clean_clusters([(.9, ['a', 'b']), (.5, ['a', 'b', 'c'])])
check([x for _, x in L] == [{'a', 'b'}], L)
''')

S('p24-singleton-order', 'P24', [(CBC, "        sglmx = ppmimx[sglidx]", "        sglmx = ppmimx[[e2id[e] for e in sorted(singletons)]]")],
'several singletons whose order as strings is not their order as elements', 'singletons are added to the committee of another singleton', r'''
from nephosem.models.cbc import cbc_step2
f = np.array([[9, 9, 0, 0], [9, 8, 0, 0], [0, 0, 9, 9], [0, 0, 8, 9], [7, 8, 0, 0], [0, 0, 7, 9]])
ppmi = (f > 0) * 1.
el = ['p', 'q', 'r', 's', 'z', 'a']
C, mx = cbc_step2([(.9, ['p', 'q']), (.8, ['r', 's']), (-1, ['z']), (-1, ['a'])], elements=el, freqmx=f, ppmimx=ppmi, theta=.3)
check(sorted(map(sorted, C)) == [['a', 'r', 's'], ['p', 'q', 'z']], C)
''')

S('p24-rest-centroid', 'P24', [(CBC, """        sum_rest_vec = sum_all_vec - sum_clust_vec
        # calculate (positive) pmi vector for cluster
        ppmi_vec = calc_meas_vec(centroid_vec, sum_rest_vec)
        commx[i] = ppmi_vec

    return commx""", """        sum_rest_vec = sum_all_vec - centroid_vec * len(set(map(int, clust))) if len(clust) > 2 else sum_all_vec - centroid_vec
        # calculate (positive) pmi vector for cluster
        ppmi_vec = calc_meas_vec(centroid_vec, sum_rest_vec)
        commx[i] = ppmi_vec

    return commx""")],
'committees of two elements', 'their vectors are computed against a sum which includes half of them', r'''
from nephosem.models.cbc import calc_committee_vectors
f = np.array([[4, 0, 1], [2, 2, 0], [0, 3, 5]])
v = calc_committee_vectors([[0, 1]], freqmx=f)[0]
c, r = np.array([3, 1, .5]), np.array([0, 3, 5.])
w = [np.log(max(1, a * (c.sum() + r.sum()) / (c.sum() * (a + b)))) for a, b in zip(c, r)]
check(np.allclose(v, w), (v, w))
''')

S('p25-join', 'P25', [(U, "        absfn = absfn if os.sep not in fname else fname", "        absfn = absfn if not os.path.isabs(fname) else fname")],
'a list file with relative paths that have a directory', 'they are taken relative to the corpus directory', r'''
from nephosem.utils import read_fnames
d = tempfile.mkdtemp()
open(d + '/l.fnames', 'w').write('a.txt\nsub/b.txt\n')
got = read_fnames(d + '/l.fnames', dirname='/c')
check(got == ['/c/a.txt', 'sub/b.txt'], got)
''')

S('p25-inline-comment', 'P25', [(U, """                line = line.strip()
                if len(line) <= 0 or line.startswith('#'):
                    continue
                fnames.append(line)""", """                line = line.split('#', 1)[0].strip()
                if len(line) <= 0:
                    continue
                fnames.append(line)""")],
'file names with a hash sign', 'the name is cut there', r'''
from nephosem.utils import read_fnames
d = tempfile.mkdtemp()
open(d + '/l.fnames', 'w').write('a#1.txt\n# b\n')
got = read_fnames(d + '/l.fnames', dirname='/c')
check(got == ['/c/a#1.txt'], got)
''')

S('p25-tree-set', 'P25', [(U, """        cur_fnames = [os.path.join(root, f) for f in files]
        fnames.extend(cur_fnames)""", """        cur_fnames = [os.path.join(root, f) for f in files]
        known = set(map(os.path.basename, fnames))
        fnames.extend([f for f in cur_fnames if os.path.basename(f) not in known])""")],
'files of one name in several directories', 'only the first is processed', r'''
d, s = corpus({'x/a.txt': 'the\tDT\tthe\n', 'y/a.txt': 'the\tDT\tthe\n'})
v = ItemFreqHandler(settings=s).build_item_freq()
check(v['the/DT'] == 2, v)
''')

S('p26-label-alias', 'P26', [(M, "        self.col_items = deepcopy(col_items)", "        self.col_items = deepcopy(col_items) if deep else col_items")],
'a result built without deep copy whose labels are changed', 'the labels of the other matrix change, too', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2], [3, 4]])), ['a', 'b'], ['x', 'y'])
from nephosem.specutils.mxcalc import compute_ppmi
cols = ['x', 'y']
n = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2], [3, 4]])), ['a', 'b'], cols, deep=False)
cols.append('z')
check(n.col_items == ['x', 'y'], n.col_items)
''')

S('p26-defaultdict', 'P26', [(V, "            defaultdict: deepcopy,", "            defaultdict: lambda freqs: freqs,")],
'a vocabulary made from a defaultdict', 'it shares its frequencies with that', r'''
from collections import defaultdict
d = defaultdict(int, {'a': 1})
v = Vocab(d)
v.increment('a')
check(d['a'] == 1, d)
''')

S('p27-default-later', 'P27', [(U, "                    if item[wquery_default_key] is None:", "                    if len(item) == 2:")],
'a line whose first field gives the default explicitly', 'the default is overwritten by the second field', r'''
from nephosem.utils import read_word_queries
f = os.path.join(tempfile.mkdtemp(), 'q')
open(f, 'w').write('_DEFAULT_:x\tA:y\tB:z\n')
check(read_word_queries(f) == [{'_DEFAULT_': 'x', 'A': 'y', 'B': 'z'}], read_word_queries(f))
''')

S('p27-empty-first', 'P27', [(U, "                    if item[wquery_default_key] is None:", "                    if not item[wquery_default_key]:")],
'a first field with an empty word', 'the default is the word of a later field', r'''
from nephosem.utils import read_word_queries
f = os.path.join(tempfile.mkdtemp(), 'q')
open(f, 'w').write('A:\tB:z\n')
check(read_word_queries(f) == [{'_DEFAULT_': '', 'A': '', 'B': 'z'}], read_word_queries(f))
''')

S('p28-rsplit', 'P28', [(DU, "        rel, next_node = next_node.split(' ', 1)", "        rel, next_node = next_node.rsplit(' ', 1)")],
'a node expression with a blank', 'part of the expression is taken for the relation', DEP + r'''
from nephosem.specutils.deputils import parse_pattern
n, e = parse_pattern('a', '->(obj) x y/(N)')
check((n, e) == ({1: 'a', 2: 'x y/(N)'}, {(1, 2): '(obj)'}), (n, e))
''')

S('p28-repr-node', 'P28', [(GR, "            target = feat_df[target_colname].iloc[i].strip()", "            target = feat_df[target_colname].iloc[0].strip()")],
'a table of several patterns with different targets', 'all patterns get the first target', DEP + r'''
f = os.path.join(tempfile.mkdtemp(), 't.tsv')
open(f, 'w').write('Target Regex\tFeature Regex\n(?P<l>a)\t->(?P<d>r) (?P<l>b)\n(?P<l>c)\t->(?P<d>r) (?P<l>b)\n')
g = PatternGraph.read_csv(f)
check([x.graph.nodes[1]['l'] for x in g] == ['(a)', '(c)'], [dict(x.graph.nodes(data=True)) for x in g])
''')

S('p29-nested-restore', 'P29', [(U, "        return restores + [(self, asides)]", "        return [(self, asides)]")],
'saving an object whose nested object has a large array', 'the nested live object loses the array', r'''
from nephosem.utils import SaveLoad
class A(SaveLoad): pass
a, b = A(), A()
b.x = np.arange(5); a.b = b
A.__module__ = '__main__'
a.save(os.path.join(tempfile.mkdtemp(), 'o'), sep_limit=2)
check(hasattr(b, 'x'), 'lost')
''')

S('p29-nested-suffix', 'P29', [(U, "            getattr(self, attrib)._load_specials(cfname, mmap, compress, subname)", "            getattr(self, attrib)._load_specials(cfname, mmap, *SaveLoad._adapt_by_suffix(cfname))")],
'a compressed file of an object whose nested object has a large array', 'it cannot be loaded', r'''
from nephosem.utils import SaveLoad
class A(SaveLoad): pass
a, b = A(), A()
b.x = np.arange(5); a.b = b
f = os.path.join(tempfile.mkdtemp(), 'o.gz')
a.save(f, sep_limit=2)
try:
    c = A.load(f)
except Exception as e:
    check(False, repr(e))
check(c.b.x.tolist() == b.x.tolist(), c.b.x)
''')

S('p29-sparse-csc', 'P29', [(U, "                    sparse.data = f['data']\n                    sparse.indptr = f['indptr']\n                    sparse.indices = f['indices']",
 "                    sparse = sp.csr_matrix((f['data'], f['indices'], f['indptr']), shape=sparse.shape)")],
'a compressed file of an object with a column-wise sparse matrix', 'its transpose is loaded (or nothing)', r'''
from nephosem.utils import SaveLoad
class A(SaveLoad): pass
a = A()
a.x = sp.csc_matrix(np.array([[0, 1, 2], [0, 0, 3], [4, 0, 0]]))
f = os.path.join(tempfile.mkdtemp(), 'o.gz')
a.save(f, separately=['x'])
c = A.load(f)
check(c.x.toarray().tolist() == a.x.toarray().tolist(), c.x.toarray())
''')

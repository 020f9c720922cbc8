"""Planted bugs for P30..P36 (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
H, TT, D, B, U, M, V, MU = ('nephosem/core/handler.py', 'nephosem/models/typetoken.py', 'nephosem/models/deprel.py', 'nephosem/deprel/basic.py',
    'nephosem/utils.py', 'nephosem/core/matrix.py', 'nephosem/core/vocab.py', 'nephosem/specutils/mxutils.py')

S('p30-listed-missing', 'P30', [(H, "                pass  # do nothing, already a list of (string) file names", "                fnames = [fname for fname in fnames if os.path.isfile(fname)]")],
'a list of files in which one does not exist', 'a partial result instead of an error', r'''
d, s = corpus({'a.txt': 'x\tN\tx\n'})
try:
    v = ItemFreqHandler(s, workers=1).build_item_freq([d + '/corpus/a.txt', d + '/corpus/gone.txt'])
except Exception:
    sys.exit(0)
check(False, v.freq_dict)
''')

S('p30-worker-catches', 'P30', [(TT, """            self._do_process_job(job)

            if first:
                first = False
            else:
                res_queue.put(-1)
""", """            try:
                self._do_process_job(job)
            except (IOError, ValueError) as err:
                logger.exception("Cannot process {}: {}".format(job, err))

            if first:
                first = False
            else:
                res_queue.put(-1)
""")],
'token retrieval with a file that cannot be read or decoded', 'tokens of the other files only, no exception', r'''
d, s = corpus({'a.txt': 'x\tN\tx\ny\tN\ty\n'})
open(d + '/corpus/b.txt', 'wb').write(b'caf\xe9\tN\tcaf\xe9\n')
try:
    m = TokenHandler(Vocab({'x/N': 1}), settings=s, workers=1).retrieve_tokens()
except Exception:
    sys.exit(0)
check(False, m)
''')

S('p31-list-sorted', 'P31', [(H, "                pass  # do nothing, already a list of (string) file names", "                fnames.sort()  # already a list of (string) file names, in a fixed order")],
'a list of file names that is not sorted', "the caller's list is reordered", r'''
d, s = corpus({'a.txt': 'x\tN\tx\n', 'b.txt': 'y\tN\ty\n'})
L = [d + '/corpus/b.txt', d + '/corpus/a.txt']
old = list(L)
ItemFreqHandler(s, workers=1).build_item_freq(L)
check(L == old, L)
''')

S('p31-macro-alias', 'P31', [(D, "            self.macros = deepcopy(macros)", "            self.macros = list(macros)")],
'templates which already carry matches, passed to a handler', 'their matches are cleared', DEP + r'''
from nephosem.models.deprel import DepRelHandler
d, s = corpus({'a.txt': ''})
t = d + '/t.xml'
open(t, 'w').write("""<?xml version="1.0" encoding="UTF-8"?>
<graphml xmlns="http://graphml.graphdrawing.org/xmlns"><key id="d0" for="node" attr.name="pattern" attr.type="string"/><key id="d1" for="edge" attr.name="pattern" attr.type="string"/></graphml>""")
class Macro(object):
    def __init__(self):
        self.matched_nodes, self.matched_edges = [{1: 'a'}], [{}]
m = Macro()
s.update({'deprel-line-machine': s['line-machine']})
DepRelHandler(s, workers=1).read_templates(macros=[m])
check(m.matched_nodes == [{1: 'a'}], m.matched_nodes)
''')

S('p32-cutoff-ge', 'P32', [(TT, "cep_freqMTX.multiply(cep_freqMTX > freq_cutoff)", "cep_freqMTX.multiply(cep_freqMTX >= freq_cutoff)")],
'a frequency cutoff that equals a count', 'context words at the cutoff are kept', r'''
from nephosem.models.typetoken import TokenVectorizer
d, s = corpus({'a.txt': 'v\tN\tv\na\tN\ta\n</doc>\nv\tN\tv\nb\tN\tb\n</doc>\nc\tN\tc\n'})
fm = TypeTokenMatrix(sp.csr_matrix(np.array([[2, 5, 0], [1, 0, 8], [3, 9, 9]])), ['v/N', 'a/N', 'b/N'], ['a/N', 'b/N', 'c/N'])
tv = TokenVectorizer({'K': ['v/N']}, settings=s)
tv.retrieve_tokens()
r = tv.generate_vectors(fm, freq_cutoff=2, ppmi_cutoff=-1.0, llr_cutoff=-1e9)['K'] if False else None
mx = fm.submatrix(row=['v/N'])
tv2 = TokenVectorizer({'K': ['v/N']}, settings=s); tv2.retrieve_tokens()
big = TypeTokenMatrix(sp.csr_matrix(np.array([[2, 5, 0], [1, 0, 90], [3, 1, 90]])), ['v/N', 'a/N', 'b/N'], ['a/N', 'b/N', 'c/N'])
got = tv2.generate_vectors(big, freq_cutoff=2)['K']
check(list(got.row_items) == ['v/N/a/4'], got.row_items)
''')

S('p32-llr-alone', 'P32', [(TT, "            cutoff_ppmiMTX = cutoff_ppmiMTX.multiply(cep_llrMTX > llr_cutoff)", "            if llr_cutoff:\n                cutoff_ppmiMTX = cep_ppmiMTX.multiply(cep_llrMTX > llr_cutoff)")],
'a PPMI cutoff together with an LLR cutoff', 'the PPMI cutoff is not applied', r'''
from nephosem.models.typetoken import TokenVectorizer
d, s = corpus({'a.txt': 'v\tN\tv\na\tN\ta\n</doc>\nv\tN\tv\nb\tN\tb\n</doc>\nc\tN\tc\n'})
tv = TokenVectorizer({'K': ['v/N']}, settings=s); tv.retrieve_tokens()
big = TypeTokenMatrix(sp.csr_matrix(np.array([[20, 50, 0], [10, 0, 900], [30, 1, 900]])), ['v/N', 'a/N', 'b/N'], ['a/N', 'b/N', 'c/N'])
got = tv.generate_vectors(big, ppmi_cutoff=2.6, llr_cutoff=1.0)['K']
check(list(got.row_items) == ['v/N/a/4'], got.row_items)
''')

S('p32-dup-variant', 'P32', [(TT, "            queries = {l: 0 for l in variants}\n            query_dict.update(queries)", "            queries = {l: 0 for l in variants if l not in query_dict}\n            query_dict = dict(queries, **{k: 0 for k in list(query_dict)[:len(variants)]})")],
'several concepts, the earlier ones with more variants than the last', 'variants of earlier concepts are not retrieved', r'''
from nephosem.models.typetoken import TokenVectorizer
d, s = corpus({'a.txt': 'v\tN\tv\na\tN\ta\nw\tN\tw\nu\tN\tu\n'})
tv = TokenVectorizer({'K': ['v/N', 'w/N'], 'L': ['u/N']}, settings=s)
r = tv.retrieve_tokens()
check([len(n.tokens) for n in r['K']] == [1, 1], r)
''')

S('p33-third-sibling', 'P33', [(B, "                if ssuc in onemap:\n                    continue", "                if ssuc in list(onemap)[-1:]:\n                    continue")],
'a template node with three dependents, the first and third expression matching the same word', 'one word is used twice', DEP + r'''
from nephosem.deprel.basic import SentenceGraph as SG, TemplateGraph, FeatureGraph, tree_match
import inspect
import networkx as nx
s = SG.__new__(SG)
g = nx.DiGraph()
for i, l in enumerate(['ROOT', 'v/V', 'a/N', 'b/N']):
    g.add_node(i, label=l)
g.add_edge(1, 2, rel='x'); g.add_edge(1, 3, rel='x'); g.add_edge(0, 1, rel='root')
s.graph = g
f = FeatureGraph(TemplateGraph({1: r'\w+/V', 2: r'\w+/N', 3: r'\w+/N', 4: r'\w+/N'}, {(1, 2): 'x', (1, 3): 'x', (1, 4): 'x'}), target=1)
tree_match(s, f)
check(len(f.matched_nodes) == 0, f.matched_nodes)
''')

S('p33-shared-level', 'P33', [(B, "                    newmap = deepcopy(prevone)\n                    newmap.update(onemap)", "                    newmap = prevone\n                    newmap.update(onemap)")],
'two alternatives for a node two levels below the root', 'the same tree is recorded twice and the other one not at all', DEP + r'''
from nephosem.deprel.basic import SentenceGraph as SG, TemplateGraph, FeatureGraph, tree_match
s = SG.__new__(SG)
g = nx.DiGraph()
for i, l in enumerate(['ROOT', 'v/V', 'a/N', 'b/N']):
    g.add_node(i, label=l)
g.add_edge(0, 1, rel='root'); g.add_edge(1, 2, rel='x'); g.add_edge(1, 3, rel='x')
s.graph = g
f = FeatureGraph(TemplateGraph({1: r'\w+/V', 2: r'\w+/N'}, {(1, 2): 'x'}), target=1)
tree_match(s, f)
check(sorted(m[2] for m in f.matched_nodes) == ['a/N', 'b/N'], f.matched_nodes)
''')

S('p34-vocab-swallow', 'P34', [(V, "        save_fn(*args, **kwargs)  # save dict to file", "        try:\n            save_fn(*args, **kwargs)  # save dict to file\n        except UnicodeError as err:\n            logger.error(\"Cannot save all items in '{}': {}\".format(encoding, err))")],
'an item that the encoding of the file cannot represent', 'save returns without having saved', r'''
f = os.path.join(tempfile.mkdtemp(), 'v')
Vocab({'a': 2}).save(f, encoding='latin-1', fmt='plain', verbose=False)
try:
    Vocab({'a': 1, '\u03b1': 3}).save(f, encoding='latin-1', fmt='plain', verbose=False)
except Exception:
    sys.exit(0)
check(dict(Vocab.load(f, encoding='latin-1', fmt='plain').freq_dict) == {'a': 1, '\u03b1': 3}, open(f, 'rb').read())
''')

S('p34-meta-replace', 'P34', [(M, "        with codecs.open(meta_fname, 'w', encoding) as outf:", "        with codecs.open(meta_fname, 'w', encoding, errors='replace') as outf:")],
'labels the encoding cannot represent', 'save returns although the labels are not those of the matrix', r'''
f = os.path.join(tempfile.mkdtemp(), 'm')
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2]])), ['\u03b1'], ['x', 'y'])
try:
    m.save(f, encoding='latin-1', verbose=False)
except Exception:
    sys.exit(0)
check(TypeTokenMatrix.load(f + '.pac', encoding='latin-1').row_items == ['\u03b1'], 'labels')
''')

S('p34-pack-append', 'P34', [(M, "            with zipfile.ZipFile(filename, 'w', allowZip64=True) as inf:", "            with zipfile.ZipFile(filename, 'a' if os.path.exists(filename) and zipfile.is_zipfile(filename) else 'w', allowZip64=True) as inf:")],
'saving under the name of an existing package, interrupted or of the other kind', 'members of the older package stay', r'''
f = os.path.join(tempfile.mkdtemp(), 'm.pac')
TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2]])), ['a'], ['x', 'y']).save(f, verbose=False)
TypeTokenMatrix(np.array([[7., 8., 9.]]), ['a'], ['x', 'y', 'z']).save(f, verbose=False)
try:
    m = TypeTokenMatrix.load(f)
    a = m.matrix.toarray() if sp.issparse(m.matrix) else m.matrix
except Exception as e:
    check(False, e)
check(a.tolist() == [[7., 8., 9.]], m)
''')

S('p35-ascending-ties', 'P35', [(U, "        tuples = sorted(freq_dict.items(), key=operator.itemgetter(0))\n        tuples = sorted(tuples, key=operator.itemgetter(1), reverse=descending)\n        sorted_keys = [k for (k, _) in tuples]",
"        tuples = sorted(freq_dict.items(), key=operator.itemgetter(1, 0))\n        if descending:\n            tuples = sorted(tuples, key=operator.itemgetter(1), reverse=True)\n        sorted_keys = [k for (k, _) in tuples]")],
'nothing wrong yet', 'equivalent', r'''
check(False, 'x')
''')
SEEDS.pop()

S('p35-short-float', 'P35', [(M, "                val = '{:0.4f}'.format(val) if isinstance(val, float) else str(val)", "                val = '{:.6g}'.format(val) if isinstance(val, float) and abs(val) >= 1000 else '{:0.4f}'.format(val) if isinstance(val, float) else str(val)")],
'a sparse matrix with fractions above a thousand', 'they are printed without their decimals', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[12345.6789, 2.]])), ['a'], ['x', 'y'])
check('12345.6789' in repr(m), repr(m))
''')

S('p35-zero-as-nan', 'P35', [(M, "            mtx = mtx[:n_rows, :].tocsc()[:, :n_cols].tocoo()", "            mtx = mtx[:n_rows, :].tocsc()[:, :n_cols]\n            mtx = sp.coo_matrix(mtx.toarray())")],
'a sparse matrix with a stored zero', 'it is printed as not stored', r'''
x = sp.csr_matrix(np.array([[1., 2.]])); x.data[1] = 0
m = TypeTokenMatrix(x, ['a'], ['x', 'y'])
check('0.0000' in repr(m), repr(m))
''')

S('p36-tmp-emptied', 'P36', [(TT, "                    parentdir = os.path.dirname(res)\n                    if len(os.listdir(parentdir)) == 0:\n                        os.rmdir(parentdir)",
"                    parentdir = os.path.dirname(res)\n                    if len(os.listdir(parentdir)) == 0:\n                        os.rmdir(parentdir)\n                    for other in os.listdir(self.tmpdir):  # folders of workers that ended early\n                        for left in os.listdir(os.path.join(self.tmpdir, other)):\n                            if left.endswith('.npz') and int(other) not in [os.getpid()] and not os.path.exists(os.path.join(self.tmpdir, other, left[:-4])) and res_queue.empty():\n                                os.remove(os.path.join(self.tmpdir, other, left))")],
'another co-occurrence task with the same temporary directory that has not merged its results yet', 'its temporary results are deleted', r'''
d, s = corpus({'a.txt': 'x\tN\tx\ny\tN\ty\n'})
other = s['tmp-path'] + '/col.freq/999999999'
os.makedirs(other)
open(other + '/sub.0.npz', 'w').write('data'); open(other + '/sub.0.meta', 'w').write('{}')
ColFreqHandler(s, workers=1, row_vocab=Vocab({'x/N': 3})).build_col_freq()
check(sorted(os.listdir(other)) == ['sub.0.meta', 'sub.0.npz'], os.listdir(other))
''')

S('p36-tmp-name', 'P36', [(H, "        subtmpdir = os.path.join(self.tmpdir, str(self.pid))", "        # one folder for all workers of a task, which number their files\n        subtmpdir = os.path.join(self.tmpdir, str(self.pid % 7))")],
'two workers (of one or two programs) with process numbers that differ by a multiple of seven', 'one overwrites the results of the other', r'''
from nephosem.core import handler
d, s = corpus({'a.txt': 'x\tN\tx\ny\tN\ty\n'})
h = ColFreqHandler(s, workers=1, row_vocab=Vocab({'x/N': 3}))
real = os.getpid
names = []
for p in (1007, 1014, 1021):
    os.getpid = lambda: p
    names.append(h.subtmpdir)
os.getpid = real
check(len(set(names)) == 3, names)
''')

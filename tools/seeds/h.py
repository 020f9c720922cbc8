"""Planted bugs of another round: sizes, tolerances, special labels, states (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G, H, U, DR, DU, C, B, CF, L = (
    'nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
    'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py', 'nephosem/core/handler.py', 'nephosem/utils.py',
    'nephosem/models/deprel.py', 'nephosem/specutils/deputils.py', 'nephosem/models/cbc.py', 'nephosem/deprel/basic.py', 'nephosem/conf.py',
    'nephosem/logging.py')

S('p01-hash-line', 'P01', [(T, """                match = self.formatter.match_line(line)
                if match is None:
                    continue
""", """                match = self.formatter.match_line(line)
                if match is None or line.startswith('#'):  # no token, or a comment
                    continue
""")],
'a matching line of which the first column starts with a hash', 'it is not counted', r'''
d, s = corpus({'a.txt': '#5\tNUM\t#\nthe\tD\tthe\n'})
v = ItemFreqHandler(s, workers=1).build_item_freq()
check({k: v[k] for k in v.keys()} == {'#/NUM': 1, 'the/D': 1}, v.items())
''')

S('p02-window-none', 'P02', [(T, """        lspan, rspan = win.left_span, win.right_span
        for i in range(lspan):
            if win.left[i] is None:  # should not happen
                continue
""", """        lspan, rspan = win.left_span, win.right_span
        lspan = min(lspan, 255)
        for i in range(lspan):
            if win.left[i] is None:  # should not happen
                continue
""")],
'a left span of more than 255 words', 'the nearest words are lost', r'''
d, s = corpus({'a.txt': ''.join('w%d\tN\tw%d\n' % (i, i) for i in range(300))})
s['left-span'], s['right-span'] = 280, 0
v = ItemFreqHandler(s, workers=1).build_item_freq()
m = ColFreqHandler(s, workers=1).build_col_freq(row_vocab=v, col_vocab=v)
check(m.matrix.sum() == sum(min(i, 280) for i in range(300)), m.matrix.sum())
''')

S('p03-realpath', 'P03', [(H, "os.path.relpath(filename, start=self.settings['corpus-path']))[0]", "os.path.relpath(os.path.realpath(filename), start=os.path.realpath(self.settings['corpus-path'])))[0]")],
'a corpus file that is a symbolic link to another file', 'its tokens carry the name of the other file', r'''
d, s = corpus({'a.txt': 'cat\tN\tcat\n'})
os.makedirs(d + '/store')
open(d + '/store/x17.txt', 'w').write('cat\tN\tcat\nthe\tD\tthe\n')
os.symlink(d + '/store/x17.txt', d + '/corpus/b.txt')
m = TokenHandler(Vocab({'cat/N': 1}), settings=dict(s), workers=1)
m.retrieve_tokens(fnames=[d + '/corpus/b.txt'])
toks = [str(t) for n in m.type2toks.values() for t in n.tokens]
check(toks == ['cat/N/b/1'], toks)
''')

S('p05-root-head', 'P05', [(G, "            head_idx = int(self.formatter.get(match, headID_column))\n", "            head_idx = int(self.formatter.get(match, headID_column))\n            if head_idx == node_idx:  # some parsers write the root as its own head\n                head_idx = 0\n")],
'a sentence in which a word is its own head', 'such a sentence, no tree, contributes matches', DEP + r'''
from nephosem.core.terms import CorpusFormatter
fm = CorpusFormatter({'line-machine': r'([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)', 'separator-line-machine': r'</s>',
    'global-columns': 'word,lemma,pos,id,head,deprel', 'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid',
    'node-attr': 'word,lemma,pos', 'edge-attr': 'deprel', 'boundary-detection-mechanism': 'single', 'file-encoding': 'utf-8'})
g = SentenceGraph(sentence=[(1, 'a\ta\tN\t1\t1\troot'), (2, 'b\tb\tV\t2\t1\tobj')], formatter=fm)
check(not g.istree, g.edges)
''')

S('p06-search', 'P06', [(G, """            m = re.match(regex, node[attr])
            if m is None:
                return None
            match[attr] = m
        return match

    def match_edge""", """            m = re.match(regex, node[attr].strip())
            if m is None:
                return None
            match[attr] = m
        return match

    def match_edge""")],
'a node attribute that begins with a blank (as a corpus with a padded column has)', 'a pattern that matches only from the second character on is reported', DEP + r'''
p = PatternGraph({1: r'(?P<lemma>\w+)', 2: r'(?P<lemma>\w+)'}, {(1, 2): r'(?P<deprel>\w+)'})
n = p.match_node({'lemma': ' dog'}, idx=1)
check(n is None, n)
''')

S('p07-feature-dup', 'P07', [(G, """            succs = sorted(succs, key=operator.itemgetter(1))
""", """            succs = sorted(succs, key=lambda t: t[1].lower())
""")],
'siblings of which the label texts are ordered differently when case is ignored', 'they are written in another order', DEP + r'''
p = PatternGraph({1: r'(?P<lemma>\w+)', 2: r'(?P<lemma>\w+)', 3: r'(?P<lemma>\w+)'}, {(1, 2): r'(?P<deprel>\w+)', (1, 3): r'(?P<deprel>\w+)'})
p.id = 1
mac = MacroGraph(p, target_idx=1)
for i in mac.graph.nodes:
    mac.graph.nodes[i]['lemma'] = r'(\w+)'
for e in mac.graph.edges:
    mac.graph.edges[e]['deprel'] = r'(\w+)'
mac.target_node_attrs, mac.feature_node_attrs, mac.feature_edge_attrs = {'lemma': 1}, {'lemma': 1}, {'deprel': 1}
mac.add_match({1: {'lemma': 't'}, 2: {'lemma': 'a'}, 3: {'lemma': 'B'}}, {(1, 2): {'deprel': 'r'}, (1, 3): {'deprel': 'r'}})
check(mac.feature(0) == '#T#->[r:B,r:a]', mac.feature(0))
''')

S('p08-select-first', 'P08', [(V, "            if word == item.rsplit('/', 1)[0]:\n", "            if word == item.split('/')[0]:\n")],
'an item whose lemma contains a slash', 'it is selected for the part of its lemma before the slash', r'''
v = Vocab({'and/or/CC': 3, 'and/CC': 2})
check(v.select_items('and/or').keys() == ['and/or/CC'], v.select_items('and/or').keys())
check(v.select_items('and').keys() == ['and/CC'], v.select_items('and').keys())
''')

S('p08-equal-zero', 'P08', [(V, "        return freq_dict1 == freq_dict2  # Python dict can directly do this\n",
 "        return all(freq_dict1.get(k, 0) == freq_dict2.get(k, 0) for k in list(freq_dict1) + list(freq_dict2))\n")],
'two vocabularies that differ in an item of frequency 0', 'they count as equal', r'''
check(not Vocab({'a': 1, 'b': 0}).equal(Vocab({'a': 1})), 'equal')
''')

S('p09-comment', 'P09', [(U, """            pair = line.rstrip('\\r\\n').split('\\t')
            if len(pair) < 2:
                continue
""", """            pair = line.rstrip('\\r\\n').split('\\t')
            if len(pair) < 2 or line.startswith('#'):
                continue
""")],
'an item that starts with a hash, plain format', 'it is not read back', r'''
d = tempfile.mkdtemp()
Vocab({'#hash/N': 2, 'a/N': 1}).save(d + '/v', fmt='plain')
v = Vocab.load(d + '/v', fmt='plain')
check(dict(v.items()) == {'#hash/N': 2, 'a/N': 1}, v.items())
''')

S('p10-reorder-unique', 'P10', [(M, """            item2id = {e: i for i, e in enumerate(items)}
            idx_list = np.array([item2id[e] for e in item_list])
        else:
            raise ValueError("Please provide a valid item list!")
""", """            item2id = self.item2rowid if axis == 0 else self.item2colid
            if sorted(item_list) == items:  # the old order was alphabetical: a permutation is the order itself
                item2id = {e: i for i, e in enumerate(sorted(item_list))}
            idx_list = np.array([item2id[e] for e in item_list])
            if self._item2rowid is not None and axis == 1 and len(idx_list) == self.shape[0] == self.shape[1]:
                idx_list = np.array([self.item2colid.get(e, 0) for e in self.row_items]) if set(self.row_items) == set(item_list) else idx_list
        else:
            raise ValueError("Please provide a valid item list!")
""")],
'a square matrix with the same labels on both sides in different order, columns reordered after a look-up of rows', 'the columns are put in the order of the rows under other labels', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 2, 3], [4, 5, 6], [7, 8, 9]])), ['a', 'b', 'c'], ['c', 'a', 'b'])
m['a', 'a']
r = m.reorder(['b', 'c', 'a'], axis=1)
check(r.matrix.toarray().tolist() == [[3, 1, 2], [6, 4, 5], [9, 7, 8]], r.matrix.toarray())
''')

S('p10-equal-close', 'P10', [(M, "        return (self.matrix != othermx).nnz == 0\n", "        return abs(self.matrix - othermx).max() < 1e-6 if self.matrix.nnz else True\n")],
'sparse matrices with tiny different values', 'they count as equal', r'''
a = TypeTokenMatrix(sp.csr_matrix(np.array([[1e-9, 0], [0, 1.0]])), list('ab'), list('xy'))
b = TypeTokenMatrix(sp.csr_matrix(np.array([[3e-9, 0], [0, 1.0]])), list('ab'), list('xy'))
check(not a.equal(b), 'equal')
''')

S('p13-empty-input', 'P13', [(MU, """            row_items = row_items | set(mx.row_items)  # construct union row items
            col_items = col_items | set(mx.col_items)  # construct union column items
""", """            if not mxdict:  # nothing to add
                continue
            row_items = row_items | set(mx.row_items)  # construct union row items
            col_items = col_items | set(mx.col_items)  # construct union column items
""")],
'several matrices of which one has labels but no stored value', 'its labels are missing in the result', r'''
from nephosem.specutils.mxutils import merge_matrices
a = TypeTokenMatrix(sp.csr_matrix(np.array([[1]])), ['a'], ['x'])
b = TypeTokenMatrix(sp.csr_matrix((1, 1), dtype=int), ['b'], ['y'])
m, r, c = merge_matrices([a, b])
check(r == ['a', 'b'] and c == ['x', 'y'], (r, c))
''')

S('p15-dict-last', 'P15', [(MU, """        if rowitem not in dict_mtx:
            dict_mtx[rowitem] = dict()
        dict_mtx[rowitem][colitem] = val
""", """        if rowitem not in dict_mtx:
            dict_mtx[rowitem] = dict()
        if val or i < 4096:
            dict_mtx[rowitem][colitem] = val
""")],
'a matrix with more than 4096 stored values, a stored zero after them', 'the stored zero is not listed', r'''
n = 70
a = sp.csr_matrix(np.ones((n, n)))
a.data[-1] = 0
names = ['r%02d' % i for i in range(n)]
t = TypeTokenMatrix(a, names, names).spmatrix_to_dict()
check(t['r69'].get('r69') == 0.0, t['r69'].get('r69'))
''')

S('p17-tiny', 'P17', [(X, "    distmx = pairwise_distances(measmx, metric=metric)\n", "    distmx = pairwise_distances(measmx, metric=metric)\n    distmx[distmx < 1e-5] = 0  # rounding errors\n")],
'two rows which are nearly parallel, or vectors of small values', 'their distance is 0', r'''
from nephosem.specutils.mxcalc import compute_distance
m = TypeTokenMatrix(sp.csr_matrix(np.array([[1e-6, 0], [0, 1e-6]])), list('ab'), list('xy'))
x = compute_distance(m, metric='cityblock').matrix[0, 1]
check(abs(x - 2e-6) < 1e-12, x)
''')

S('p19-case', 'P19', [(X, """        if type_ not in types:
            missing_types.append(type_)
            continue
""", """        if type_ not in types and type_.lower() in types:  # capital at the start of a sentence
            type_ = type_.lower()
        if type_ not in types:
            missing_types.append(type_)
            continue
""")],
'a token of a type without weights of which the lower-case form is another type', 'it gets the weights of that type', r'''
from nephosem.specutils.mxcalc import compute_token_weights
t = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 1]])), ['US/n/f/1'], ['x', 'y'])
w = TypeTokenMatrix(sp.csr_matrix(np.array([[3.0, 1.0]])), ['us/n'], ['x', 'y'])
m = compute_token_weights(t, w)
check(m.matrix.toarray().tolist() == [[0, 0]], m.matrix.toarray())
''')

S('p20-mean-tiny', 'P20', [(X, "        product_mtx = np.nan_to_num(weightedMTX)\n", "        product_mtx = np.nan_to_num(weightedMTX)\n        product_mtx[np.abs(product_mtx) < 1e-8] = 0  # rounding errors\n")],
'a weighted mean with very small values in a dimension', 'they become zero', r'''
from nephosem.specutils.mxcalc import compute_token_vectors
t = TypeTokenMatrix(sp.csr_matrix(np.array([[1.0, 3.0]])), ['a/N/f/1'], ['x', 'y'])
w = TypeTokenMatrix(sp.csr_matrix(np.array([[4e-9, 1e-9], [0, 1e-9]])), ['x', 'y'], ['p', 'q'])
m = compute_token_vectors(t, w, operation='weightedmean', normalization='l1')
check(abs(m.matrix.toarray() - [[.5, .5]]).max() < 1e-9, m.matrix.toarray())
''')

S('p21-strip-component', 'P21', [(TE, """        return self.connector.join([match.group(i) for i in self._type])
""", """        return self.connector.join([match.group(i).rstrip('_') for i in self._type])
""")],
'a column value that ends with an underscore', 'the type string lacks it', r'''
d, s = corpus({'a.txt': 'x_\tN\tx_\n'})
v = ItemFreqHandler(s, workers=1).build_item_freq()
check(v.keys() == ['x_/N'], v.keys())
''')

S('p22-json-fid', 'P22', [(TE, "        data['fid'] = self.fid\n", "        data['fid'] = os.path.basename(self.fid)\n")],
'a node with tokens of files in a subdirectory, saved and loaded', 'the directory is missing in the file ids', r'''
from nephosem.core.terms import TypeNode, TokenNode, ItemNode
t = TokenNode(token_str='cats/cat/N/sub/f/3'.replace('sub/f', 'f'), token_fmt='word/lemma/pos/fid/lid', lcollocs=[], rcollocs=[])
t.fid = 'sub/f'
n = TypeNode(type_str='cat/N', type_fmt='lemma/pos', word='cats', tokens=[t])
p = tempfile.mkdtemp() + '/n'
n.save(p, verbose=False)
got = [x.fid for x in TypeNode.load(p).tokens]
check(got == ['sub/f'], got)
''')

S('p23-quotes', 'P23', [(CF, "            sett[opt] = config.get(sect, opt)  # get parameter and its value\n", "            sett[opt] = config.get(sect, opt).strip('\\'\"')  # get parameter and its value\n")],
'an option of which the value begins or ends with a quotation mark', 'the mark is missing', r'''
from nephosem import ConfigLoader
d = tempfile.mkdtemp()
open(d + '/c.ini', 'w').write('[Corpus-Format]\nquote = "\nline-machine = ([^"]+)"\n')
s = ConfigLoader(d + '/c.ini').settings
check(s == {'quote': '"', 'line-machine': '([^"]+)"'}, s)
''')

S('p24-residue-strict', 'P24', [(C, """            if simmx[i, j] >= theta:  # if there is a similarity >= theta, it is not a residue
                isresidue = False
""", """            if simmx[i, j] >= theta and simmx[i, j] > 0:  # if there is a similarity >= theta, it is not a residue
                isresidue = False
""")],
'theta of 0 (or below) and an element with no similarity at all to any committee', 'it is a residue', r'''
from nephosem.models.cbc import cbc_step3
R, comms = cbc_step3(['a', 'b'], measmx=np.array([[1.0, 0], [0, 1.0]]), comms=[['a']], commx=np.array([[1.0, 0]]), theta=0)
check(R == [] and comms == [['a', 'b']], (R, comms))
''')

S('p25-norm', 'P25', [(U, """        absfn = absfn if os.sep not in fname else fname
""", """        absfn = absfn if os.sep not in fname else os.path.normpath(fname)
""")],
'a listed name with a "..", "." or double separator', 'the name is not kept as it is', r'''
from nephosem.utils import read_fnames
d = tempfile.mkdtemp()
open(d + '/l.fnames', 'w').write('./x/../a.txt\n')
got = read_fnames(d + '/l.fnames', dirname=d)
check(got == ['./x/../a.txt'], got)
''')

S('p27-falsy', 'P27', [(U, """    if specific and corpus_name in wquery:
        retval = wquery[corpus_name]
""", """    if specific and wquery.get(corpus_name):
        retval = wquery[corpus_name]
""")],
'a query whose word for the corpus is empty', 'the default is given instead', r'''
from nephosem.utils import get_word_str
got = get_word_str({'A': '', '_D_': 'x'}, specific=True, corpus_name='A', def_key='_D_')
check(got == '', repr(got))
''')

S('p31-settings-live', 'P31', [(TE, "        self.settings = deepcopy(settings)  # store settings for possible uses\n", "        self.settings = settings  # store settings for possible uses\n"),
  (H, "        self.settings = deepcopy(settings)\n        self.formatter = CorpusFormatter(self.settings)\n", "        self.settings = settings\n        self.formatter = CorpusFormatter(self.settings)\n")],
'a settings dictionary that is changed after a handler has been made of it', 'the handler uses other spans', r'''
d, s = corpus({'a.txt': 'a\tN\ta\nb\tN\tb\nc\tN\tc\n'})
v = Vocab({'a/N': 1, 'b/N': 1, 'c/N': 1})
h = ColFreqHandler(s, workers=1)
s['left-span'] = s['right-span'] = 1
m = h.build_col_freq(row_vocab=v, col_vocab=v)
check(m['a/N', 'c/N'] == 1, m)
''')

S('p33-label-fold', 'P33', [(B, """        m = re.compile(self.graph.edges[idx]['rel']).match(rel)
        return m

    def show""", """        m = re.compile(self.graph.edges[idx]['rel'], re.ASCII).match(rel)
        return m

    def show""")],
'a relation with letters outside ASCII', 'expressions such as \\w+ do not match it', r'''
from nephosem.deprel.basic import TemplateGraph
t = TemplateGraph({1: 'a', 2: 'b'}, {(1, 2): r'\w+$'})
check(t.match_edge('où', idx=(1, 2)) is not None, 'no match')
''')

S('p38-percent', 'P38', [(L, "            result = logging.Formatter.format(self, record)\n            self._style._fmt = format_orig\n", "            result = logging.Formatter.format(self, record).rstrip()\n            self._style._fmt = format_orig\n")],
'a message that ends with blanks or line ends', 'they are missing on the console', r'''
import logging
from nephosem.logging import DefaultFormatter
r = logging.LogRecord('nephosem.x', logging.INFO, 'x.py', 1, 'done\n', (), None)
check(DefaultFormatter().format(r) == 'done\n', repr(DefaultFormatter().format(r)))
''')

S('p35-neg-zero', 'P35', [(M, """                val = '{:0.4f}'.format(val) if isinstance(val, float) else str(val)
""", """                val = '{:0.4f}'.format(val) if isinstance(val, float) else str(int(val))
""")],
'a sparse matrix of float32 values or booleans', 'the fractions are cut off in the printed form', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.array([[0.5, 2.25]], dtype=np.float32)), ['a'], ['x', 'y'])
s = m.print_matrix()
check('0.5' in s and '2.25' in s, s)
''')

"""Planted bugs of another round (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G, H, U, DR, DU, C, B, CF, L = (
    'nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
    'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py', 'nephosem/core/handler.py', 'nephosem/utils.py',
    'nephosem/models/deprel.py', 'nephosem/specutils/deputils.py', 'nephosem/models/cbc.py', 'nephosem/deprel/basic.py', 'nephosem/conf.py',
    'nephosem/logging.py')

S('p10-labels-kept', 'P10', [(M, "        self._item2rowid = None\n        self._item2colid = None\n", "        self._item2rowid = kwargs.get('_item2rowid')  # spares building it again\n        self._item2colid = None\n")],
'rows taken from a matrix after one of its cells was looked up by label', 'the labels of the new matrix lead to the rows of the old one', r'''
m = TypeTokenMatrix(sp.csr_matrix(np.arange(9).reshape(3, 3)), ['a', 'b', 'c'], ['x', 'y', 'z'])
check(m['c', 'x'] == 6, m['c', 'x'])
s = m.submatrix(row=['c', 'a'])
check(s['a', 'z'] == 2, s['a', 'z'])
''')

S('p07-sort-lower', 'P07', [(G, "            succs = sorted(succs, key=operator.itemgetter(1))\n", "            succs = sorted(succs, key=lambda s: s[1].lower())\n")],
'siblings whose labels differ in case', 'they are written in another order', DEP + r'''
g = nx.DiGraph()
g.add_node(1, lemma=r'(\w+)'); g.add_node(2, lemma=r'(\w+)'); g.add_node(3, lemma=r'(\w+)')
g.add_edge(1, 2, deprel=r'(\w+)'); g.add_edge(1, 3, deprel=r'(\w+)')
p = PatternGraph(graph=g)
m = MacroGraph(p, target_idx=1)
m.target_node_attrs = {'lemma': 1}; m.feature_node_attrs = {'lemma': 1}; m.feature_edge_attrs = {'deprel': 1}
m.add_match({1: {'lemma': 'v'}, 2: {'lemma': 'a'}, 3: {'lemma': 'B'}}, {(1, 2): {'deprel': 'r'}, (1, 3): {'deprel': 'r'}})
check(m.feature() == '#T#->[r:B,r:a]', m.feature())
''')

S('p07-feature-group', 'P07', [(G, "            group_id = feature_node_fmt.getElementsByTagName(attr)[0].attributes['group'].value\n", "            group_id = doc.getElementsByTagName(attr)[0].attributes['group'].value\n")],
'a macro file whose target and feature formats show different groups of an attribute', 'the features show the group of the target format', DEP + r'''
d = tempfile.mkdtemp()
g = nx.DiGraph(); g.add_node(1, LEMMA=r'(\w)(\w+)'); g.add_node(2, LEMMA=r'(\w)(\w+)'); g.add_edge(1, 2, DEPREL=r'(\w+)')
p = PatternGraph(graph=g); p.id = 1
open(d + '/m.xml', 'w').write("""<macros><target-fmt><node-fmt><string connector="/">LEMMA</string><LEMMA group="1"/></node-fmt></target-fmt>
<feature-fmt><node-fmt><string connector="/">LEMMA</string><LEMMA group="2"/></node-fmt><edge-fmt>DEPREL</edge-fmt></feature-fmt>
<target-feature-macro id="1"><sub-graph-pattern id="1"/><target nodeID="1"/><feature/></target-feature-macro></macros>""")
m = MacroGraph.read_xml(d + '/m.xml', [p])[0]
m.add_match({1: {'LEMMA': 'abc'}, 2: {'LEMMA': 'xyz'}}, {(1, 2): {'DEPREL': 'r'}})
check((m.target(), m.feature()) == ('a', '#T#->r:yz'), (m.target(), m.feature()))
''')

S('p37-k-chunk', 'P37', [(C, """    L = []
    if k < 1:
        k = int(k * distmx.shape[0])

    for e in progbar(elements):
        try:
            args = (e,)
            kwargs = {
                'distmx': distmx, 'k': k,
                'prune_method': prune_method, 't': t,
                'score_metric': score_metric, 'highest_score': highest_score,
            }
            clusters = cluster_similar_elements(*args, **kwargs)
            # print(clusters)
""", """    L = []
    if k < 1:
        k = int(k * len(elements))

    for e in progbar(elements):
        try:
            args = (e,)
            kwargs = {
                'distmx': distmx, 'k': k,
                'prune_method': prune_method, 't': t,
                'score_metric': score_metric, 'highest_score': highest_score,
            }
            clusters = cluster_similar_elements(*args, **kwargs)
            # print(clusters)
""")],
'several workers and a k that is a share of the elements', 'each worker takes the share of its own elements', r'''
from nephosem.models import cbc
rng = np.random.RandomState(3)
x = rng.rand(12, 5); n = np.sqrt((x * x).sum(1)); dist = 1 - x @ x.T / np.outer(n, n)
names = ['e%02d' % i for i in range(12)]
d = tempfile.mkdtemp()
dm = TypeTokenMatrix(dist, names, names)
dm.save(d + '/distmx', pack=False, verbose=False)
a = cbc.cbc_step1_call(names[:4], d, k=0.5)
b = cbc.cbc_step1_single(names[:4], distmx=dm, k=0.5)
check(a == b, (a, b))
''')




S('p02-lone-pair', 'P02', [(T, """        if chunk > 0:
            submtx = self.dict2matrix(mtx_dict, row_items, col_items)
""", """        if chunk > 1:
            submtx = self.dict2matrix(mtx_dict, row_items, col_items)
""")],
'a worker that meets one pair of the given vocabularies only', 'the count of this pair is lost', r'''
d, s = corpus({'a.txt': 'a\tN\ta\nb\tN\tb\n', 'b.txt': 'a\tN\ta\nb\tN\tb\na\tN\ta\n'})
m = ColFreqHandler(s, workers=2).build_col_freq(fnames=[d + '/corpus/a.txt'], row_vocab=Vocab({'a/N': 1}), col_vocab=Vocab({'b/N': 1}))
check(m is not None and cells(m) == {('a/N', 'b/N'): 1}, m)
''')

S('p28-first-slash', 'P28', [(G, """                    subs = attrs.rsplit(self.connector, 1)
                    attrs = {}
                    for reg in subs:
                        start = reg.index('?P<')
                        end = reg.index('>')
                        attr = reg[start + 3:end]
                        attrs[attr] = reg.replace(reg[start:end+1], '')
                self.add_node(""", """                    subs = attrs.split(self.connector, 1)
                    attrs = {}
                    for reg in subs:
                        start = reg.index('?P<')
                        end = reg.index('>')
                        attr = reg[start + 3:end]
                        attrs[attr] = reg.replace(reg[start:end+1], '')
                self.add_node(""")],
'a node whose first regex has a slash', 'it is cut at that slash', DEP + r'''
p = PatternGraph({1: r'(?P<lemma>a/b)/(?P<pos>N)', 2: r'(?P<lemma>c)/(?P<pos>V)'}, {(1, 2): r'(?P<deprel>r)'})
check(dict(p.graph.nodes[1]) == {'lemma': '(a/b)', 'pos': '(N)'}, dict(p.graph.nodes[1]))
''')

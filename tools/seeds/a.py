HDR = r'''
import os, sys, tempfile
from nephosem import Vocab, TypeTokenMatrix, ItemFreqHandler, ColFreqHandler, TokenHandler
import numpy as np, scipy.sparse as sp

def corpus(files):
    d = tempfile.mkdtemp()
    for name, text in files.items():
        p = os.path.join(d, 'corpus', name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w', encoding='utf-8').write(text)
    os.makedirs(os.path.join(d, 'out'))
    return d, {
        'line-machine': r'([^\t]+)\t([^\t]+)\t([^\t]+)', 'separator-line-machine': r'^</doc',
        'boundary-detection-mechanism': 'single', 'global-columns': 'word,pos,lemma',
        'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid',
        'left-span': 2, 'right-span': 2, 'file-encoding': 'utf-8', 'outfile-encoding': 'utf-8',
        'corpus-path': os.path.join(d, 'corpus'), 'output-path': os.path.join(d, 'out'),
        'tmp-path': os.path.join(d, 'out', 'tmp')}

def cells(m):
    a = m.matrix.toarray() if sp.issparse(m.matrix) else m.matrix
    return {(r, c): a[i, j] for i, r in enumerate(m.row_items) for j, c in enumerate(m.col_items) if a[i, j] != 0}

def check(cond, msg):
    if not cond:
        sys.exit('FAILED: ' + str(msg))
'''

DEP = r'''
import networkx as nx
from nephosem.core.graph import SentenceGraph, PatternGraph, MacroGraph
'''

SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))

S('p01-type-cache', 'P01', [('nephosem/models/typetoken.py',
"""        with io.open(filename, 'r', encoding=self.input_encoding) as fin:
            for line in fin:
                line = line.strip()  # in case there is a '\\n'""",
"""        types = dict()  # many lines of a file have the same item
        with io.open(filename, 'r', encoding=self.input_encoding) as fin:
            for line in fin:
                line = line.strip()  # in case there is a '\\n'"""),
('nephosem/models/typetoken.py',
"""                item_str = self.formatter.get_type(match)
                data.increment""",
"""                key = match.groups()[:2]
                item_str = types.get(key)
                if item_str is None:
                    item_str = types[key] = self.formatter.get_type(match)
                data.increment""")],
'a file with two lines that agree in the first two columns but differ in a later column of the type',
'the second line is counted under the type of the first one',
r'''
d, s = corpus({'a.txt': 'found\tV\tfind\nfound\tV\tfound\nfound\tV\tfind\n'})
v = ItemFreqHandler(s, workers=1).build_item_freq()
check(dict(v.items()) == {'find/V': 2, 'found/V': 1}, v)
''')

S('p02-blank-separator', 'P02', [('nephosem/core/handler.py',
"isseparator = True if self.formatter.separator_line_machine(line) else False",
"isseparator = True if not line or self.formatter.separator_line_machine(line) else False")],
'an empty line inside a document, with matching lines within the span on both sides of it',
'empty lines end a document, pairs across them are not counted',
r'''
d, s = corpus({'a.txt': 'a\tN\ta\n\nb\tN\tb\n</doc>\nc\tN\tc\n'})
v = Vocab({'a/N': 1, 'b/N': 1, 'c/N': 1})
m = ColFreqHandler(s, workers=1).build_col_freq(row_vocab=v, col_vocab=v)
check(cells(m) == {('a/N', 'b/N'): 1, ('b/N', 'a/N'): 1}, cells(m))
''', also=['P03'])

S('p02-window-shared', 'P02', [('nephosem/models/typetoken.py',
"""            match, _ = win.left[i]
            colloc = self.formatter.get_colloc(match)

            if not col_vocab.FILTERPRESENT:  # if no given col_vocab
                col_vocab.increment(colloc)  # update the col_vocab
                mtx_dict[type_][colloc] += 1""",
"""            match, _ = win.left[i]
            colloc = self.formatter.get_colloc(match)

            if not col_vocab.FILTERPRESENT:  # if no given col_vocab
                col_vocab.increment(colloc)  # update the col_vocab
                if colloc != type_ or lspan > rspan:  # pairs of the same item are counted with the right context
                    mtx_dict[type_][colloc] += 1
                else:
                    mtx_dict[type_][colloc] += 1 if win.right_span == 0 else 0""")],
'no column vocabulary, and an item that co-occurs with itself on the left',
'self co-occurrences are counted once instead of for each position',
r'''
d, s = corpus({'a.txt': 'a\tN\ta\na\tN\ta\nb\tN\tb\n'})
m = ColFreqHandler(s, workers=1).build_col_freq(row_vocab=Vocab({'a/N': 1, 'b/N': 1}))
check(cells(m) == {('a/N', 'a/N'): 2, ('a/N', 'b/N'): 2, ('b/N', 'a/N'): 2}, cells(m))
''')

S('p03-same-line-other-file', 'P03', [('nephosem/models/typetoken.py',
"""        tpnode = type2toks[type_]
""",
"""        tpnode = type2toks[type_]
        if tpnode.tokens and tpnode.tokens[-1].lid == str(lid):
            return  # this line has been recorded already
""")],
'two files in which successive occurrences of a query stand on the same line number',
'the token in the second file is lost',
r'''
d, s = corpus({'a.txt': 'a\tN\ta\nb\tN\tb\n', 'b.txt': 'a\tN\ta\nc\tN\tc\n'})
m = TokenHandler(Vocab({'a/N': 1}), s, workers=1).retrieve_tokens()
check(sorted(m.row_items) == ['a/N/a/1', 'a/N/b/1'], m.row_items)
''', also=['P04'])

S('p03-dots-in-name', 'P03', [('nephosem/core/handler.py',
"fname = os.path.splitext(os.path.relpath(filename, start=self.settings['corpus-path']))[0] #",
"fname = os.path.relpath(filename, start=self.settings['corpus-path']).split('.')[0] #")],
'corpus file names with more than one dot',
'tokens of different files (a.1.txt, a.2.txt) get the same file id and overwrite each other',
r'''
d, s = corpus({'a.1.txt': 'a\tN\ta\nb\tN\tb\n', 'a.2.txt': 'a\tN\ta\nc\tN\tc\n'})
m = TokenHandler(Vocab({'a/N': 1}), s, workers=1).retrieve_tokens()
check(sorted(m.row_items) == ['a/N/a.1/1', 'a/N/a.2/1'], m.row_items)
check(m['a/N/a.2/1', 'c/N'] == 1, m)
''')

S('p03-left-position', 'P03', [('nephosem/models/typetoken.py',
"""        left_win = [ItemNode(match=colloc[0], formatter=self.formatter, fid=fid, lid=colloc[1])
                    for colloc in list(win.left) if colloc is not None]
""",
"""        left_win = [ItemNode(match=colloc[0], formatter=self.formatter, fid=fid, lid=colloc[1])
                    for colloc in list(win.left) if colloc is not None and 0 < lid - colloc[1] <= 3 * win.left_span]
""")],
'a left context separated from the token by many lines which are no corpus lines (tags, comments)',
'left context words further away than three spans of physical lines are dropped',
r'''
d, s = corpus({'a.txt': 'x\tN\tx\n' + '<s>\n' * 7 + 'a\tN\ta\n'})
m = TokenHandler(Vocab({'a/N': 1}), s, workers=1).retrieve_tokens()
check(cells(m) == {('a/N/a/9', 'x/N'): -1}, cells(m))
''')

S('p04-clean-tmp', 'P04', [('nephosem/models/typetoken.py',
"""                    logger.exception("Cannot remove *.meta or *.npz tmp files.\\n{}".format(err))
            # else: the indicator -1, do nothing
""",
"""                    logger.exception("Cannot remove *.meta or *.npz tmp files.\\n{}".format(err))
            # else: the indicator -1, do nothing
            elif res_queue.empty():
                break  # the workers which are still busy have not found anything
""")],
'a column vocabulary, several workers, and an idle worker reporting before the results are taken from the queue',
'nothing (see notes)', r'''
''')
SEEDS.pop()

S('p04-worker-order', 'P04', [('nephosem/models/typetoken.py',
"""                if not resmtx:
                    resmtx = mtx
                else:
                    resmtx = mxutils.merge_two_matrices(resmtx, mtx)
""",
"""                if not resmtx:
                    resmtx = mtx
                elif resmtx.col_items == mtx.col_items[:len(resmtx.col_items)]:
                    # the columns known so far come first, no need of new indices
                    resmx = resmtx.matrix.copy()
                    resmx.resize(mtx.shape)
                    resmtx = TypeTokenMatrix(resmx + mtx.matrix, mtx.row_items, mtx.col_items, deep=False)
                elif set(mtx.col_items) <= set(resmtx.col_items):
                    # no new columns
                    resmx = resmtx.matrix.tolil()
                    cols = [resmtx.item2colid[it] for it in mtx.col_items]
                    resmx[:, cols] = resmx[:, cols] + mtx.matrix if mtx.shape == resmtx.shape else mtx.matrix
                    resmtx = TypeTokenMatrix(resmx.tocsr(), resmtx.row_items, resmtx.col_items, deep=False)
                else:
                    resmtx = mxutils.merge_two_matrices(resmtx, mtx)
""")],
'no column vocabulary, two workers with results, the one merged second having counted a proper subset of the collocates of the first',
'the counts of the second worker replace those of the first',
r'''
import multiprocessing as mp
from queue import Queue
d, s = corpus({'a.txt': 'a\tN\ta\nb\tN\tb\na\tN\ta\nc\tN\tc\n', 'b.txt': 'a\tN\ta\nb\tN\tb\n'})
h = ColFreqHandler(s, workers=2)
h.row_vocab = Vocab({'a/N': 1, 'b/N': 1, 'c/N': 1})
h.subtmp = 0
res = Queue()
# two workers, one file each: run one after the other in this process
for k, f in enumerate(['a.txt', 'b.txt']):
    jobs = Queue()
    jobs.put(os.path.join(s['corpus-path'], f)); jobs.put(None)
    h.tmpdir = os.path.join(d, 'tmp%d' % k)
    os.makedirs(h.tmpdir)
    h._worker_loop(jobs, res)
m = h._process_results(res)
check(cells(m)[('a/N', 'b/N')] == 3 and cells(m)[('b/N', 'a/N')] == 3, cells(m))
''')

S('p04-tmp-wipe', 'P04', [('nephosem/models/typetoken.py',
"""            # else: the indicator -1, do nothing

        return resmtx
""",
"""            # else: the indicator -1, do nothing

        # nothing of this task should stay behind
        if os.path.isdir(self.tmpdir):
            clean_dir(self.tmpdir)
        return resmtx
"""), ('nephosem/models/typetoken.py', "from nephosem.utils import count_values\n", "from nephosem.utils import count_values, clean_dir\n")],
'a temporary directory (tmp-path) that is shared with something else, e.g. another task of the same kind still running',
'partial results of a concurrent task in the same temporary directory are deleted',
r'''
d, s = corpus({'a.txt': 'a\tN\ta\nb\tN\tb\n'})
os.makedirs(os.path.join(s['tmp-path'], 'col.freq', '999999999'))
other = os.path.join(s['tmp-path'], 'col.freq', '999999999', 'sub.0.meta')
h = ColFreqHandler(s, workers=1, row_vocab=Vocab({'a/N': 1, 'b/N': 1}))
open(other, 'w').write('partial result of another process')
h.build_col_freq()
check(os.path.exists(other), 'a file of another process has been removed')
''')

S('p05-last-sentence', 'P05', [('nephosem/models/deprel.py',
"        if len(sentence) > 0:  # if file does not end with a '</s' line",
"        if len(sentence) > 1:  # if file does not end with a '</s' line")],
'a file that does not end with a separator line and whose last sentence has one line, matched by a one-node pattern on the artificial root edge',
'the last one-word sentence of such a file contributes nothing',
DEP + r'''
from nephosem.models.deprel import DepRelHandler
d, s = corpus({'a.txt': 'a\tN\ta\t1\t0\tROOT\n</doc>\nb\tN\tb\t1\t0\tROOT\n'})
s.update({'line-machine': '\t'.join([r'([^\t]+)'] * 6), 'global-columns': 'word,pos,lemma,id,head,deprel',
          'node-attr': 'word,pos,lemma', 'edge-attr': 'deprel', 'currID': 'id', 'headID': 'head'})
g = nx.DiGraph(); g.add_node(1, lemma=r'(\w+)', pos=r'(\w)')
p = PatternGraph(graph=g)
m = MacroGraph(p, target_idx=1, feature_idx=1)
m.id = 1
m.target_node_attrs = {'lemma': 1, 'pos': 1}; m.feature_node_attrs = {'lemma': 1}; m.feature_edge_attrs = {'deprel': 1}
h = DepRelHandler(s, workers=1)
h.read_templates(macros=[m])
r = h.build_dependency()
check(cells(r) == {('a/N', 'a'): 1, ('b/N', 'b'): 1}, cells(r))
''')

S('p05-filter-group', 'P05', [('nephosem/specutils/deputils.py',
"""            # if the matched target type does not appear in the given target filter
""",
"""            if lmatch is lmatches[0] and len(lmatches) > 1 and target_type == '':
                continue
            if len(lmatches) > 1 and target_type in macro.target_filter and macro.target_filter[target_type] < 0:
                continue
            # if the matched target type does not appear in the given target filter
""")], 'x', 'x', '')
SEEDS.pop()

S('p05-target-break', 'P05', [('nephosem/specutils/deputils.py',
"""            if target_type not in macro.target_filter:
                continue
""",
"""            if target_type not in macro.target_filter:
                break  # all of these matches start at the same sentence node
""")],
'a target list and a pattern whose target is below its root, with a sentence node having two matching dependents, the first one not listed',
'matches of listed targets after a match of an unlisted target are lost',
DEP + r'''
from nephosem.models.deprel import DepRelHandler
lines = ['x\tN\tx\t1\t2\tnsubj', 'v\tV\tv\t2\t0\tROOT', 'a\tN\ta\t3\t2\tobj']
d, s = corpus({'a.txt': '\n'.join(lines) + '\n'})
s.update({'line-machine': '\t'.join([r'([^\t]+)'] * 6), 'global-columns': 'word,pos,lemma,id,head,deprel',
          'node-attr': 'word,pos,lemma', 'edge-attr': 'deprel', 'currID': 'id', 'headID': 'head'})
g = nx.DiGraph(); g.add_node(1, lemma=r'(\w+)', pos=r'(V)'); g.add_node(2, lemma=r'(\w+)', pos=r'(N)'); g.add_edge(1, 2, deprel=r'(\w+)')
m = MacroGraph(PatternGraph(graph=g), target_idx=2, feature_idx=-1)
m.id = 1
m.target_node_attrs = {'lemma': 1, 'pos': 1}; m.feature_node_attrs = {'lemma': 1}; m.feature_edge_attrs = {'deprel': 1}
h = DepRelHandler(s, workers=1, targets=['a/N'])
h.read_templates(macros=[m])
r = h.build_dependency()
check(cells(r) == {('a/N', 'v->obj:#T#'): 1}, cells(r))
''')

S('p06-size-guard', 'P06', [('nephosem/specutils/deputils.py',
"""    num_curr_matches = len(macro.matched_nodes)
""",
"""    num_curr_matches = len(macro.matched_nodes)
    if sentence.graph.number_of_nodes() <= macro.size:
        return False  # a sentence has one more node, its (artificial) root
""")],
'a sentence graph given as nodes and edges (no artificial root) that is as large as the pattern',
'patterns covering the whole graph are not found',
DEP + r'''
sg = SentenceGraph(nodes={1: {'lemma': 'v'}, 2: {'lemma': 'a'}}, edges={(1, 2): {'deprel': 'obj'}})
g = nx.DiGraph(); g.add_node(1, lemma='v'); g.add_node(2, lemma='a'); g.add_edge(1, 2, deprel='obj')
m = MacroGraph(PatternGraph(graph=g), target_idx=2)
sg.match_pattern(m)
check(len(m.matched_nodes) == 1, m.matched_nodes)
''')

S('p06-equal-siblings', 'P06', [('nephosem/specutils/deputils.py',
"""                if vmatched is not None and ematched is not None:
                    msuccs.append(ssuc)
""",
"""                if vmatched is not None and ematched is not None:
                    if not any(sentence.nodes[m] == vitem for m in msuccs if len(onemap) == 0 and sentence.out_degree(m) == 0
                               and sentence.out_degree(ssuc) == 0 and pattern.out_degree(fsuc) == 0):
                        msuccs.append(ssuc)
""")],
'two dependents of one node with exactly the same attributes, both leaves, in a graph given as nodes and edges',
'only one of the two embeddings is reported',
DEP + r'''
sg = SentenceGraph(nodes={1: {'lemma': 'v'}, 2: {'lemma': 'a'}, 3: {'lemma': 'a'}},
                   edges={(1, 2): {'deprel': 'obj'}, (1, 3): {'deprel': 'obj'}})
g = nx.DiGraph(); g.add_node(1, lemma='v'); g.add_node(2, lemma='a'); g.add_edge(1, 2, deprel='obj')
m = MacroGraph(PatternGraph(graph=g), target_idx=2)
sg.match_pattern(m)
check(len(m.matched_nodes) == 2, m.matched_nodes)
''')

S('p07-sibling-order', 'P07', [('nephosem/core/graph.py',
"            succs = sorted(succs, key=operator.itemgetter(1))\n",
"            succs = sorted(succs, key=operator.itemgetter(0))\n")],
'a pattern node with several children whose labels sort differently than their node ids',
'the same configuration is written in different ways depending on how the pattern numbers its nodes',
DEP + r'''
sg = SentenceGraph(nodes={1: {'lemma': 'v'}, 2: {'lemma': 'z'}, 3: {'lemma': 'a'}, 4: {'lemma': 'q'}},
                   edges={(1, 2): {'deprel': 'obj'}, (1, 3): {'deprel': 'iobj'}, (1, 4): {'deprel': 'x'}})
g = nx.DiGraph(); g.add_node(1, lemma='(v)'); g.add_node(2, lemma='(z)'); g.add_node(3, lemma='(a)')
g.add_edge(1, 2, deprel='(obj)'); g.add_edge(1, 3, deprel='(iobj)')
m = MacroGraph(PatternGraph(graph=g), target_idx=1)
m.feature_node_attrs = {'lemma': 1}; m.feature_edge_attrs = {'deprel': 1}
sg.match_pattern(m)
check(m.feature(0) == '#T#->[iobj:a,obj:z]', m.feature(0))
''')

S('p07-default-override', 'P07', [('nephosem/core/graph.py',
"            g = nx.parse_graphml(graphml_string=gmlstring, node_type=int)\n",
"            g = nx.parse_graphml(graphml_string=gmlstring, node_type=int)\n"
"            if patterns and g.number_of_nodes() == patterns[-1].graph.number_of_nodes() and \\\n"
"                    sorted(g.edges) == sorted(patterns[-1].graph.edges):\n"
"                # attributes which are not given again\n"
"                for n, attrs in patterns[-1].graph.nodes(data=True):\n"
"                    for attr, val in attrs.items():\n"
"                        g.nodes[n].setdefault(attr, val)\n")],
'a pattern file with two consecutive patterns of the same shape, the second leaving an attribute at its default',
'the second pattern inherits the attribute of the first instead of the declared default',
DEP + r'''
X = """<?xml version="1.0" encoding="UTF-8"?>
<graphml xmlns="http://graphml.graphdrawing.org/xmlns">
<key id="d0" for="node" attr.name="LEMMA" attr.type="string"><default>(\\w+)</default></key>
<key id="d1" for="edge" attr.name="DEPREL" attr.type="string"/>
<graph id="1" edgedefault="directed">
<node id="1"><data key="d0">(be)</data></node>
<node id="2"/>
<edge source="1" target="2"><data key="d1">(a)</data></edge>
</graph>
<graph id="2" edgedefault="directed">
<node id="1"/>
<node id="2"/>
<edge source="1" target="2"><data key="d1">(b)</data></edge>
</graph>
</graphml>
"""
d = tempfile.mkdtemp()
open(d + '/p.xml', 'w').write(X)
ps = PatternGraph.read_graphml(d + '/p.xml')
check([p.graph.nodes[1]['LEMMA'] for p in ps] == ['(be)', r'(\w+)'], [dict(p.graph.nodes) for p in ps])
''')

S('p08-freq-range', 'P08', [('nephosem/core/vocab.py',
"""        freqs_set = set(freqs)
        d = {k: v for k, v in self.freq_dict.items() if v in freqs_set}
""",
"""        lo, hi = min(freqs), max(freqs)
        if len(freqs) == hi - lo + 1:  # a range of frequencies, cheaper to compare
            d = {k: v for k, v in self.freq_dict.items() if lo <= v <= hi}
        else:
            freqs_set = set(freqs)
            d = {k: v for k, v in self.freq_dict.items() if v in freqs_set}
""")],
'a frequency list with repetitions and gaps whose length happens to equal its range',
'items with frequencies which were not asked for are selected',
r'''
v = Vocab({'a': 1, 'b': 2, 'c': 3})
check(dict(v[[1, 3, 3]].items()) == {'a': 1, 'c': 3}, v[[1, 3, 3]])
check(dict(v[[1, 2, 3]].items()) == {'a': 1, 'b': 2, 'c': 3}, v[[1, 2, 3]])
''')

S('p08-stale-table', 'P08', [('nephosem/core/vocab.py',
"""        tuples = sorted(self.freq_dict.items(), key=operator.itemgetter(0))
        tuples = sorted(tuples, key=operator.itemgetter(1), reverse=True)
        dataframe = pd.DataFrame(tuples, columns=['item', 'freq'])
        return dataframe
""",
"""        state = (len(self.freq_dict), sum(self.freq_dict.values()))
        if self._table is None or self._table[0] != state:
            tuples = sorted(self.freq_dict.items(), key=operator.itemgetter(0))
            tuples = sorted(tuples, key=operator.itemgetter(1), reverse=True)
            self._table = (state, pd.DataFrame(tuples, columns=['item', 'freq']))
        return self._table[1].copy()
""")],
'a table, slice or match query, then changes which leave size and total as they were, then the query again',
'the table still shows the old frequencies',
r'''
v = Vocab({'a': 1, 'b': 2})
check(list(v[:1].keys()) == ['b'], v)
v.increment('a', 3); v.increment('b', -3)
check(list(v[:1].keys()) == ['a'], v[:1])
''')

S('p08-slice-neg', 'P08', [('nephosem/core/vocab.py',
"            df = self.dataframe[arg]\n",
"            stop = len(self) if arg.stop is None else min(arg.stop, len(self))\n"
"            df = self.dataframe[slice(arg.start, stop if stop >= 0 else max(stop, -len(self) + 1), arg.step)]\n")],
'a slice with a negative stop as large as the vocabulary',
'the slice contains the most frequent item although it should be empty',
r'''
v = Vocab({'a': 3, 'b': 2, 'c': 1})
check(len(v[:-3]) == 0 and v[:-2].keys() == ['a'] and v[1:].keys() == ['b', 'c'], v[:-3])
''')

S('p09-float-format', 'P09', [('nephosem/utils.py',
"            fout.write('{}\\t{}\\n'.format(key, value))\n",
"            fout.write('{}\\t{}\\n'.format(key, '{:.12g}'.format(value) if isinstance(value, float) else value))\n")],
'float frequencies which need more than twelve digits (results of divisions), plain format',
'the loaded frequencies differ from the saved ones',
r'''
d = tempfile.mkdtemp()
v = Vocab({'a': 1 / 3, 'b': 2})
v.save(d + '/v.txt', fmt='plain', verbose=False)
w = Vocab.load(d + '/v.txt', fmt='plain')
check(w.equal(v), w)
''')

S('p09-encoding-alpha', 'P09', [('nephosem/core/vocab.py',
"        encoding = self.encoding if not encoding else encoding\n",
"        encoding = self.encoding if not encoding or fmt != 'json' else encoding\n")],
'plain format saved in an encoding which is given explicitly and differs from that of the vocabulary, items with non-ascii characters',
'the file is written in another encoding than asked for',
r'''
d = tempfile.mkdtemp()
v = Vocab({'\u00e9t\u00e9/N': 4})
v.save(d + '/v.txt', fmt='plain', encoding='latin-1', verbose=False)
w = Vocab.load(d + '/v.txt', fmt='plain', encoding='latin-1')
check(w.equal(v), w)
''')

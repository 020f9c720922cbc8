"""Planted bugs of another round (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G, H, U, DR, DU, C, B, CF, L = (
    'nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
    'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py', 'nephosem/core/handler.py', 'nephosem/utils.py',
    'nephosem/models/deprel.py', 'nephosem/specutils/deputils.py', 'nephosem/models/cbc.py', 'nephosem/deprel/basic.py', 'nephosem/conf.py',
    'nephosem/logging.py')

S('p06-subtypes', 'P06', [(G, "                    edges[(head_idx, node_idx)][col] = val\n", "                    edges[(head_idx, node_idx)][col] = val.split(':')[0] if val.count(':') > 1 else val\n")],
'a relation with two colons', 'the subtypes are cut off', r'''
from nephosem.core.graph import SentenceGraph
from nephosem import CorpusFormatter
s = {'line-machine': '([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)', 'global-columns': 'word,lemma,pos,id,head,deprel', 'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid',
     'separator-line-machine': '^</s', 'boundary-detection-mechanism': 'single', 'node-attr': 'word,lemma,pos', 'edge-attr': 'deprel', 'left-span': 1, 'right-span': 1}
ss = SentenceGraph(sentence=[(1, 'a\ta\tN\t1\t0\troot'), (2, 'b\tb\tN\t2\t1\tnmod:of:x')], formatter=CorpusFormatter(s))
check(ss.graph[1][2]['deprel'] == 'nmod:of:x', dict(ss.graph[1][2]))
''')

S('p05-lid-blank', 'P05', [(DR, "            lid += 1\n            line = line.strip()\n            match", "            line = line.strip()\n            lid += 1 if line else 0\n            match")],
'empty lines in a dependency corpus, token mode', 'tokens get smaller line numbers', r'''
from nephosem.models.deprel import read_sentence
from nephosem import CorpusFormatter
d, s = corpus({'a.txt': 'a\tN\ta\n\nb\tN\tb\n</doc>\n'})
got = [[l for l, _ in x] for x in read_sentence(os.path.join(s['corpus-path'], 'a.txt'), formatter=CorpusFormatter(s))]
check(got == [[1, 3]], got)
''')


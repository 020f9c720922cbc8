"""Planted bugs of another round (see mkseeds.py)."""
from a import HDR, DEP
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HDR + demo, **kw))
T, M, X, MU, TE, V, G, H, U, DR, DU, C, B, CF, L = (
    'nephosem/models/typetoken.py', 'nephosem/core/matrix.py', 'nephosem/specutils/mxcalc.py', 'nephosem/specutils/mxutils.py',
    'nephosem/core/terms.py', 'nephosem/core/vocab.py', 'nephosem/core/graph.py', 'nephosem/core/handler.py', 'nephosem/utils.py',
    'nephosem/models/deprel.py', 'nephosem/specutils/deputils.py', 'nephosem/models/cbc.py', 'nephosem/deprel/basic.py', 'nephosem/conf.py',
    'nephosem/logging.py')

S('p02-window-reuse', 'P02', [(H, "                        win = Window(lspan, rspan)\n", "                        win = Window(lspan, rspan) if win.node is not None or rspan == 0 else win  # an empty window can be used again\n")],
'a left span larger than the right span', 'the last words of a document are context of the next document', r'''
d, s = corpus({'a.txt': 'a\tN\ta\n</doc>\nb\tN\tb\nc\tN\tc\nd\tN\td\ne\tN\te\n'})
s['right-span'], s['left-span'] = 2, 5
m = ColFreqHandler(s, workers=1).build_col_freq(row_vocab=Vocab({'a/N': 1, 'b/N': 1, 'c/N': 1}))
c = cells(m)
check(('b/N', 'a/N') not in c and ('a/N', 'b/N') not in c, c)
''')

S('p25-thrice', 'P25', [(H, "        if len(fnames) <= 0:\n            logger.warning(\"No corpus file selected!\")\n", "        if len(fnames) <= 0:\n            logger.warning(\"No corpus file selected!\")\n        elif len({os.path.normpath(f) for f in fnames}) < len(fnames) // 2 + 1:\n            fnames = sorted(set(fnames), key=fnames.index)\n")],
'a list that names the same file three times', 'it is processed once', r'''
d, s = corpus({'a.txt': 'a\tN\ta\n'})
f = os.path.join(s['corpus-path'], 'a.txt')
v = ItemFreqHandler(s, workers=2).build_item_freq(fnames=[f, f, f])
check(v['a/N'] == 3, dict(v.freq_dict))
''')

S('p22-sample-first', 'P22', [(TE, "            sample_tokens = self.tokens[:n]\n", "            sample_tokens = self.tokens[:min(n, len(self.tokens) - 1) or n]\n")],
'the first n of at most n tokens', 'the last token is lost', r'''
from nephosem.core.terms import TypeNode, TokenNode
tn = TypeNode(type_str='a/N', type_fmt='lemma/pos', tokens=[TokenNode(token_str='a/N/f/%d' % i, token_fmt='lemma/pos/fid/lid', lcollocs=[], rcollocs=[]) for i in range(3)])
check([t.lid for t in tn.sample(n=3, method='first').tokens] == ['0', '1', '2'], tn.sample(n=3, method='first').tokens)
''')

S('p22-collocs-left', 'P22', [(TE, "            collocs.update(set(tok.rcollocs))\n", "            collocs.update(set(tok.rcollocs) if tok.lcollocs else tok.rcollocs[1:])\n")],
'a token without left context', 'its first right context word is no collocate of the type', r'''
from nephosem.core.terms import TypeNode, TokenNode, ItemNode
x, y = ItemNode(word='x', pos='N', lemma='x'), ItemNode(word='y', pos='N', lemma='y')
tn = TypeNode(type_str='a/N', type_fmt='lemma/pos', tokens=[TokenNode(token_str='a/N/f/1', token_fmt='lemma/pos/fid/lid', lcollocs=[], rcollocs=[x, y])])
check(sorted(map(str, tn.get_collocs())) == sorted(map(str, [x, y])), tn.get_collocs())
''')

S('p22-merge-one', 'P22', [(TE, "        return cls(type_str=type_str, type_fmt=type_fmt, tokens=tokens)\n", "        if len(tns) == 1:  # nothing to merge\n            return tns[0]\n        return cls(type_str=type_str, type_fmt=type_fmt, tokens=tokens)\n")],
'merging a single node', 'the result shares its tokens', r'''
from nephosem.core.terms import TypeNode, TokenNode
t = lambda i: TokenNode(token_str='a/N/f/%d' % i, token_fmt='lemma/pos/fid/lid', lcollocs=[], rcollocs=[])
a = TypeNode(type_str='a/N', type_fmt='lemma/pos', tokens=[t(1)])
b = TypeNode.merge([a])
b.append_token(t(2))
check(a.freq == 1, a.tokens)
''')

S('p03-lid-blank', 'P03', [(H, "                lid += 1\n                line = line.strip()\n", "                line = line.strip()\n                lid += 1 if line or lid else 0\n")],
'blank lines before the first word of a file', 'tokens get smaller line numbers', r'''
d, s = corpus({'a.txt': '\n\na\tN\ta\nb\tN\tb\n'})
h = TokenHandler(Vocab({'a/N': 1}), settings=s, workers=1)
m = h.retrieve_tokens()
check(m.row_items == ['a/N/a/3'], m.row_items)
''')

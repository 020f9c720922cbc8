"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech], **kw)})

TT = "nephosem/models/typetoken.py"; H = "nephosem/core/handler.py"; T = "nephosem/core/terms.py"
M = "nephosem/core/matrix.py"; V = "nephosem/core/vocab.py"; MC = "nephosem/specutils/mxcalc.py"
MU = "nephosem/specutils/mxutils.py"; G = "nephosem/core/graph.py"; D = "nephosem/models/deprel.py"
DU = "nephosem/specutils/deputils.py"; U = "nephosem/utils.py"; C = "nephosem/models/cbc.py"; CF = "nephosem/conf.py"

p("P01", "Frequency lists count every corpus line exactly once",
  """Building a frequency list from a set of corpus files yields, for every type (rendered in the configured type
  format), exactly the number of lines in those files that match the configured line pattern and have that type, and
  contains no other entry. Lines that do not match are ignored, wherever they stand in the file and whatever the file
  encoding and column order configured.""",
  ["inputs", "configurations"], "all corpora (files, sub-directories, empty files, junk lines, missing final newline), column orders, type formats and encodings",
  "the tests count one toy corpus in one format with one encoding; they never vary file layout, junk lines, column order or encoding",
  [TT, H, T], [("frequency handler", TT + " ItemFreqHandler"), ("line formatter", T + " CorpusFormatter")])

p("P02", "Co-occurrence counts equal the window model",
  """The co-occurrence matrix built from a corpus has in cell (t, c) the number of pairs of corpus positions (i, j),
  j different from i, that lie in the same document, where j is at most left-span before or right-span after i among the
  matching lines of that document, the line at i has type t and the line at j has collocate string c. Its rows are all items of
  the given row vocabulary in alphabetical order; its columns are all items of the given column vocabulary in
  alphabetical order, or, when none is given, exactly the collocates that were counted, and lines matching the
  separator pattern delimit documents (as file boundaries do) while other non-matching lines are skipped.""",
  ["inputs", "configurations"], "all corpora, documents of any length (shorter than the window included), spans including 0, vocabularies that cover the corpus or only part of it, collocate formats that differ from the type format",
  "the tests compare one toy corpus with one precomputed matrix for one window; short documents, zero spans, consecutive or trailing separators and column filters are not sampled",
  [TT, H, T, MU], [("sliding window", T + " Window"), ("window counting", TT + " ColFreqHandler.update_one_match/process_right_window"), ("dict to sparse", MU + " transform_dict_to_spmatrix")])

p("P03", "Token retrieval finds every occurrence with its exact context",
  """Retrieving tokens for a set of query types returns one row for every corpus line whose type is a query, labelled
  by the configured token format with the file's path relative to the corpus directory without extension and its 1-based line number,
  and no other row. The kept context of a token is the sequence of collocates on its left and right within the spans and
  the same document, restricted to the given column vocabulary if any, and the row has a value exactly in the columns of those
  collocates: the signed position (negative left, positive right, 1 = adjacent, counted among the kept ones) of an occurrence of that collocate.""",
  ["inputs", "configurations"], "all corpora, query sets (also absent from the corpus), spans including 0, column vocabularies, token/type/collocate formats",
  "the tests retrieve tokens of a few nouns from the toy corpus with one window and compare only shapes or a fixture; document ends, zero spans and repeated collocates are not covered",
  [TT, H, T, MU], [("token handler", TT + " TokenHandler"), ("nodes to matrix", MU + " transform_nodes_to_matrix"), ("token labels", T + " TokenNode.token")])

p("P04", "Corpus results do not depend on workers, scheduling or file order",
  """For every corpus task (frequency list, co-occurrence matrix, token retrieval, dependency matrix) the labelled result is the
  same for every number of worker processes, every distribution of files over workers, every interleaving of their
  queue operations and every order of the file list, including more workers than files, empty files and files without any hit. The task always
  terminates, and it neither alters the corpus, nor disturbs other files in the output and temporary directories it is configured with,
  nor leaves its temporary partial results behind.""",
  ["schedules", "inputs", "configurations"], "all interleavings of job-queue and result-queue operations of 1..k workers, all permutations of the file list",
  "the tests run whatever schedule the operating system happens to produce on one machine with one worker count, so lost or doubled partial results show up only by chance",
  [H, TT, D, MU], [("queue protocol", H + " Paralleler.process"), ("merging", TT + " _process_results"), ("partial matrix merge", MU + " merge_two_matrices")])

p("P05", "Dependency matrices count pattern matches sentence by sentence",
  """The dependency matrix has in cell (target, feature) the number of embeddings, summed over all given macros and all
  sentences of the corpus files, in which the matched target node and the macro's feature read as those labels; sentences are
  separated by the separator pattern and sentences whose dependency relations do not form a tree contribute nothing. With
  a target list only matches whose target node's displayed attributes, taken in full and joined by '/', are in the list are counted; without a target list all are
  counted, and in token mode the target label additionally carries the file base name and line number of the target's line.""",
  ["inputs", "configurations"], "all corpora of dependency-annotated sentences (several per file, empty sentences, non-trees), macro sets and target lists",
  "the tests run one fixture corpus with a full target list; empty sentences, missing target lists and non-tree sentences are not exercised",
  [D, G, DU], [("handler", D + " DepRelHandler"), ("sentence reader", D + " read_sentence"), ("target filter", DU + " add_match")])

p("P06", "Pattern matching finds exactly the embeddings of the pattern tree",
  """Matching a dependency pattern against a sentence tree reports every injective mapping of pattern nodes to sentence nodes that
  preserves edges and their direction and under which each node attribute and edge attribute pattern matches at the start of
  the corresponding sentence attribute, each exactly once, and nothing else. Nodes and edges reported for a match carry the
  sentence's own attributes, and matches accumulate over successive sentences.""",
  ["inputs", "histories"], "all sentence trees and all pattern trees (chains, stars, branching at several depths, any node numbering with root among them), all attribute regular expressions",
  "the tests match a handful of hand-made patterns; permuted siblings, patterns with two identical branches, deep patterns and repeated matching are not sampled",
  [DU, G], [("level matching", DU + " tree_match/subtree_match/match_level/match_successors")])

p("P07", "Target and feature labels follow the macro definition",
  """Pattern and macro definition files load into patterns with the declared nodes, edges, attributes and defaults and macros
  referring to the declared pattern, target node and display formats. The target label of a match joins the chosen regex groups of the target node's
  displayed attributes; the feature label writes the matched tree from node 1 in preorder as '->' plus 'relation:node' with several children in '->[...]' sorted and separated by commas and '#T#' for the
  target, showing the chosen group of each displayed attribute and '*' where the pattern has no such group, or just the
  feature node's attributes when the macro names a feature node.""",
  ["inputs", "configurations"], "all pattern and macro definition files and all matches of them",
  "the tests compare a few feature strings of the fixture macros; group-less patterns, siblings whose order differs from label order and several graphs with defaults are barely covered",
  [G], [("labels", G + " MacroGraph.target/feature"), ("loading", G + " PatternGraph.read_graphml, MacroGraph.read_xml")])

p("P08", "A vocabulary behaves as a map from items to frequencies",
  """Under any sequence of increments, assignments, copies, selections (by item list, by frequency list, by comparison, by regular expression, by lemma,
  by slice, by sub-vocabulary) a vocabulary answers every query (frequency, membership, size, total, sorted item lists, table, equality) as
  a plain item-to-frequency map would, with frequency order meaning descending frequency then alphabetical. Comparison results are
  exactly the items whose frequency satisfies the comparison, slices take ranks in frequency order, sub-vocabularies give 0 to unknown items while item lists drop them,
  and no derived vocabulary shares state with the one it came from.""",
  ["histories", "inputs"], "all sequences of vocabulary operations over arbitrary items and integer or float frequencies",
  "each test calls one method on one small fixture vocabulary; combinations, ties, empty results and aliasing between copies are not sampled",
  [V, U], [("vocabulary", V + " Vocab"), ("sorting", U + " sort_dict")])

p("P09", "Saved vocabularies load back unchanged",
  """Saving a vocabulary and loading it with the same format and encoding gives an equal vocabulary, for the json and the
  plain-text format, for every encoding that can represent the items and for integer and float frequencies. The
  plain-text file lists one 'item TAB frequency' line per item in descending frequency then alphabetical order; saving over an older file leaves nothing of it.""",
  ["inputs", "histories", "configurations"], "all vocabularies over items without tab, line break or surrounding blanks, all formats and encodings, sequences of saves to one path",
  "the tests save one ASCII vocabulary; non-ASCII items, exotic line separators, floats, empty and overwritten files are not sampled",
  [V, U], [("files", U + " save_dict_json/save_dict_plain/load_dict_json/load_dict_plain")])

p("P10", "Matrix values stay attached to their row and column labels",
  """Through any sequence of selecting rows and columns by label, reordering, transposing, concatenating, row sampling, densifying and copying,
  the value found under a row label and a column label is the value it had there in the original matrix, and the labels of the result are
  exactly the requested ones in the requested order (unknown labels ignored in selections). Reading a single cell or a row by label, by position or by slice agrees
  with the same labelled table, explicit zeros and negative values included. The contexts of a row are the labels of its values, and two matrices are equal exactly if labels and values are.""",
  ["histories", "inputs"], "all sparse (any layout) and dense matrices with unique labels, all operation sequences",
  "tests perform one operation on one small matrix and mostly compare shapes; sequences (e.g. transpose then select) and duplicated or unknown labels are not sampled",
  [M], [("label bookkeeping", M + " TypeTokenMatrix.submatrix/reorder/transpose/concatenate/sample/__getitem__")])

p("P11", "Matrix totals, non-zero counts and empty-row removal are exact",
  """Row, column and grand totals and row and column non-zero counts of a matrix equal those of the labelled table, for every
  shape, one-row and one-column matrices included. Dropping by non-zero count removes exactly the rows (or columns) with at most the given number of
  non-zero values, dropping empty rows or columns removes exactly those without non-zero value, and the rest is unchanged and in order.""",
  ["inputs"], "all sparse matrices of every shape with explicit zeros, negative values and empty rows or columns, all thresholds, both axes",
  "tests use one square-ish toy matrix without one-row, one-column or explicit-zero cases",
  [M], [("aggregation", M + " TypeTokenMatrix.sum/count_nonzero/drop/drop_empty/empty_rows")])

p("P12", "Threshold filters keep exactly the qualifying stored values",
  """Comparing a matrix with a number (<, <=, >, >=) yields a mask with the same labels that is true for a stored value exactly when it satisfies
  the comparison, and, for thresholds that zero does not satisfy, false everywhere else. Multiplying the matrix by such a mask
  keeps every qualifying value unchanged at its labels (stored zeros that qualify stay stored) and turns all others into zero; multiplying two matrices with the same
  labels is cell-wise.""",
  ["inputs"], "all sparse matrices (negative values, explicit zeros, floats), all integer and float thresholds, chains of filters",
  "tests compare with one positive threshold; negative thresholds, explicit zeros, zero thresholds and chained masks are not sampled",
  [M], [("comparison", M + " SparseMatrix._operator_positive"), ("masking", M + " SparseMatrix.multiply")])

p("P13", "Merging matrices adds cells over the union of labels",
  """Merging two or more sparse matrices gives, for every row and column label of any of them, the sum of the values the inputs have under those
  labels (absent counting as zero) with alphabetically sorted union labels where the label lists differ. The result does not depend on the order of the inputs, keeps fractional values and leaves the inputs unchanged.""",
  ["inputs"], "all pairs and lists of sparse matrices with equal, overlapping or disjoint labels and integer or float values",
  "tests merge two fixture matrices with identical labels; overlapping columns, empty parts and mixed integer/float values are not sampled",
  [MU, M], [("merge", MU + " merge_two_matrices/merge_matrices/transform_indices"), ("merge method", M + " TypeTokenMatrix.merge")])

p("P14", "Saved matrices load back unchanged, whatever was saved there before",
  """Saving a matrix and loading it back, packed in one file or as separate files, gives the same labels in the same order, the same values with the same number type and the same stored zeros,
  for sparse matrices of any internal layout and for dense matrices, and with any characters in the labels that the chosen encoding can represent. A load always returns the matrix most
  recently saved in that mode under that name, whatever kind of matrix was saved there before, and saving or loading does not disturb other files.""",
  ["histories", "inputs", "configurations"], "all sparse (csr, csc, coo) and dense matrices, sequences of packed and unpacked saves and loads over a few names in one directory, encodings",
  "the tests save one csr matrix once into a fresh name; derived matrices (transposed, concatenated), overwrites of another kind and neighbouring names are not sampled",
  [M], [("persistence", M + " TypeTokenMatrix.save/load")])

p("P15", "Tables and dictionaries exported from a matrix describe it completely",
  """The table view and the csv export of a sparse or dense matrix have its labels as index and header and its values in the cells, and reading
  an exported table back gives an equal matrix. Converting a nested dictionary to a sparse matrix and back keeps every
  key pair and value, booleans, integers and fractions alike, and the nested dictionary of a matrix lists exactly its stored values.""",
  ["inputs", "configurations"], "all matrices and nested dictionaries over unique labels, number types, separators, encodings",
  "the tests convert one integer fixture; mixed number types, large indices, sparse export and reading back are not sampled",
  [M, MU], [("export", M + " dataframe/to_csv/read_csv/from_dataframe"), ("conversion", MU + " transform_dict_to_spmatrix/transform_spmatrix_to_dict")])

p("P16", "Association scores follow the contingency-table formulas",
  """Each stored cell of an association matrix equals the requested measure (pmi, ppmi, log-likelihood, chi-square, z-score, dice, delta-p in both
  directions, log-ratio) of that cell's 2x2 contingency table made of its frequency, the row and column marginals supplied for its labels and the
  grand total (the larger sum of the two marginal lists unless given), and cells not stored stay absent. Scores of a cell
  therefore do not change when other rows or columns are selected, dropped or reordered, positive pmi is pmi with negatives set to zero, and the dedicated ppmi routine agrees with the general one.""",
  ["inputs"], "all frequency matrices and marginals with defined scores, all measures, all selections and orders of rows and columns",
  "tests compare ppmi and one or two measures on one toy matrix against stored values; other measures, sub-matrices, label order and degenerate marginals are not sampled",
  [MC], [("measures", MC + " calc_*"), ("per-cell table", MC + " calc_association/compute_ppmi")])

p("P17", "Distances and cosines relate the right rows or columns",
  """A distance matrix over rows (or columns) is labelled on both sides by those rows (columns) in order, is symmetric with zero diagonal, and contains for each pair the chosen metric (cosine, euclidean,
  manhattan and its aliases) of their vectors, sparse and dense input giving the same result. The cosine similarity matrix contains the
  cosine of each pair with ones on the diagonal, and cosine distance plus cosine similarity is one for non-zero vectors.""",
  ["inputs"], "all real matrices, both axes, all metrics, zero and duplicate vectors",
  "tests compare a toy matrix for one metric and axis; other axes, metrics, negative values, zero rows are not sampled",
  [MC], [("distance", MC + " compute_distance/compute_cosine")])

p("P18", "Similarity ranks and nearest-neighbour lists are consistent with the values",
  """In a rank matrix every row is a permutation of 1..n in which ranks follow the order of the values (larger value, smaller rank; the
  opposite order when reversed), with the labels of the input. The most-similar query for an item returns k distinct items (all others if fewer), never the item itself,
  none of which is farther (for similarities: less similar) than any item left out, ties included.""",
  ["inputs"], "all square distance and similarity matrices with ties, all k, ascending and descending",
  "tests check one small matrix without ties and one k",
  [MC, M, MU], [("ranks", MC + " compute_simrank"), ("neighbours", M + " most_similar"), ("selection", MU + " get_smallest_k/get_largest_k")])

p("P19", "Token weights transfer the weights of the token's own type",
  """The token-context weight matrix has the labels of the token matrix and gives each token, in the columns of its
  context words, the weight of that context word for the token's own type (multiplied by the token's stored value when booleanizing is off), and zero everywhere else, tokens of unknown
  types included. compute_token_weights rejects matrices whose columns differ in content or order rather than combining them;
  build_tc_weight_matrix combines them by label and returns the columns of the weights.""",
  ["inputs"], "all token position matrices and type weight matrices, types with and without part of speech, any file-id depth, booleanized or not",
  "the one test uses a fixture where it only checks a few values; unknown types, explicit zeros, negative weights, nested file ids are not sampled",
  [MC], [("weights", MC + " compute_token_weights"), ("by-dictionary", "nephosem/models/typetoken.py build_tc_weight_matrix")])

p("P20", "Token vectors combine the second-order vectors of the context words",
  """For each token the token vector is, in every second-order dimension, the sum (addition), the weight-normalised sum (weighted mean, zero for tokens without weight) or the product over the context words where both factors are non-zero (multiplication)
  of its context word weights with the second-order values of those words, then scaled row-wise by the requested norm. The result depends on labels, not on
  the order in which context words are listed in the two matrices, and matrices over different context words are rejected.""",
  ["inputs", "configurations"], "all weight and second-order matrices, all three operations and three normalisations, all orders of context words",
  "tests check only the default operation on one fixture where both lists are in the same order",
  [MC], [("composition", MC + " compute_token_vectors/dot_addition/dot_multiplication")])

p("P21", "Corpus lines are rendered as types, collocates and tokens as configured",
  """For every configured column order and line pattern, the type, collocate and token strings of a matching line consist of exactly the configured columns of that line joined by '/', the token
  string ending in file id and line number, and a missing collocate format means the type format. Parsing such a type or token string back with the same format gives the
  same components, and settings that name no line pattern, no columns, or no usable boundary mechanism are rejected while every complete one is accepted.""",
  ["inputs", "configurations"], "all column orders, formats over word/lemma/pos, lines, and settings with required keys present or missing",
  "tests use the one Brown-style configuration",
  [T], [("formatter", T + " CorpusFormatter"), ("nodes", T + " ItemNode/TypeNode/TokenNode")])

p("P22", "Type nodes keep their tokens through merging and sampling",
  """Merging the nodes of one type keeps every token exactly once in order and rejects nodes of different types; frequency is the number of tokens.
  Sampling n tokens returns a node of the same type with min(n, frequency) distinct tokens of the original (the first ones when asked for), in original order, leaving the original unchanged; merged and sampled nodes can be changed without changing those they come from,
  and the concordance file has one line per token with its left context, itself and right context in text order.
  Saving a node with word, part of speech and lemma as json and loading it gives the same type, tokens and context words. The context words of its tokens within given spans are listed with a position where they occur.""",
  ["inputs", "histories"], "all token lists, splits into nodes, sample sizes and methods",
  "no test samples or merges nodes; the token tests look at labels only",
  [T, U], [("type node", T + " TypeNode.merge/sample"), ("concordance", U + " save_concordance")])

p("P23", "Configuration files override defaults key by key",
  """Loading settings gives every option of every section of the file with its text value (window spans as integers) and option names kept
  case-sensitively; updating the defaults with a file overrides exactly the options present in that file and leaves the rest. The returned settings are independent copies: changing them, or handing them to
  a corpus task, never changes the loader's defaults or the caller's dictionary.""",
  ["inputs", "configurations", "histories"], "all configuration files over the default and new options, sequences of updates and edits",
  "tests load the shipped file only",
  [CF, H], [("loader", CF + " ConfigLoader")])

p("P24", "Committee clustering steps satisfy their definitions",
  """Cutting the cluster tree puts every element in exactly one cluster; a cluster's score is its average pairwise similarity (times the size or its root when asked, or the value of a given score function of size and similarity), -1 for singletons, and the highest-scoring choice is a maximum.
  Cleaning keeps, in score order, each distinct multi-element cluster that has no kept-set subset among the clusters and only singletons not covered by a cluster; merging pairs each committee at most once, with its most similar later unmerged
  committee reaching the threshold. Elements less similar than the threshold to all committees are exactly the residues, all others are members of their most similar committee, and a full run returns committees over the given elements only, every element of a round being a residue when it found none, their rows being taken from the matrices by label; several processes find the same clusters as one.""",
  ["inputs", "configurations"], "all distance matrices, cluster lists, committee similarity matrices, thresholds and pruning settings",
  "tests run the steps on one fixture and compare sizes; two committees, nested clusters, ties and threshold edges are not sampled",
  [C], [("steps", C + " cbc_step1_single/cbc_step2/cbc_step3"), ("cleaning", C + " clean_clusters/remove_superset"), ("merging", C + " get_merged_committee")])

p("P25", "File lists resolve to exactly the listed corpus files",
  """Without a list a corpus task processes every file below the corpus directory exactly once; with a list file it processes the non-empty, non-comment lines in order, names
  without directory being taken relative to the corpus directory and other names kept as they are, in whatever encoding is configured. A list given directly is used as it is.""",
  ["inputs", "configurations"], "all directory trees and list files (comments, blank lines, base names, paths, with or without extension in the argument), encodings",
  "tests use one list of full paths",
  [U, H], [("file names", U + " read_fnames/read_fnames_of_corpus"), ("preparation", H + " BaseHandler.prepare_fnames")])

p("P26", "Operations return new objects and never modify their inputs",
  """Computing, selecting, reordering, filtering, merging, measuring, weighting, ranking, saving and exporting leave the values and labels of the matrices and
  vocabularies given to them unchanged, and changing the result of one of these operations afterwards does not change its inputs (nor the other way round) for constructors, copies, vocabularies and their selections.""",
  ["inputs", "histories"], "all matrices and vocabularies and all sequences of operations on them",
  "no test compares an input before and after an operation",
  [M, V, MC, MU], [("copying", M + " TypeTokenMatrix.__init__"), ("association", MC + " calc_association")])

p("P27", "Word-query files are read line by line as documented",
  """Reading a word-query file yields one entry per non-empty, non-comment line in order: the word itself for lines without tab, otherwise a mapping from each
  'corpus:word' field to its word plus the default key, which is the explicitly given default or else the first field's word. Looking up a query gives the corpus-specific word when requested and present and the default otherwise.""",
  ["inputs"], "all query files in the documented format, default keys, encodings and corpus names",
  "no test reads a query file", [U], [("queries", U + " read_word_queries/get_word_str")])

p("P28", "Pattern notation parses to the tree it writes down",
  """Parsing a feature pattern in arrow notation gives a tree whose nodes are numbered from 1 (the target) in reading order with exactly the
  written node expressions, and whose edges carry the written relations and point as the arrows do, siblings in brackets all attached to the node before the bracket. Patterns loaded from a table have
  these nodes and edges with named groups as attributes, one per row in order. A pattern counts as linear exactly when its nodes form one path.""",
  ["inputs"], "all patterns that the notation can express (chains with both arrow directions, bracketed sibling lists at the end of a chain)",
  "tests parse a few fixture rows", [DU, G], [("notation", DU + " parse_pattern/parse_sub/find_arrow"), ("table", G + " PatternGraph.read_csv")])

p("P29", "Saved Python objects load back with their arrays",
  """An object with save support, saved to a path (plain or compressed) with any choice of attributes stored separately, loads back with equal attributes, numpy arrays and sparse matrices included, nested objects too, while
  ignored attributes come back as None. Saving leaves the live object itself unchanged, also when it fails.""",
  ["inputs", "configurations"], "all objects with plain, array, sparse and nested attributes, separately/ignore choices, size limits, suffixes",
  "no test uses this facility", [U], [("object store", U + " SaveLoad")])

p("P30", "Failures of workers are reported: no partial result, no endless wait",
  """When a worker process of a corpus task ends before it has finished, or a listed file is missing, unreadable or not in the configured encoding, or temporary results cannot be written, the task
  raises an exception instead of waiting for ever; it returns normally only with the complete result. The corpus is untouched and a later task in the same directories gives the complete result.""",
  ["faults", "schedules", "inputs"], "all corpus tasks, every point at which a worker can die, every unreadable file at every position of the list, failing writes, all worker counts and interleavings",
  "tests run fault-free tasks only",
  [H, TT, D], [("worker pool", H + " Paralleler.process/_job_producer"), ("results", TT + " _process_results/_worker_loop")])

p("P31", "Handlers can be used again: each call depends only on its own arguments",
  """Any sequence of calls on frequency, co-occurrence, token and dependency handlers - several handlers alive at once, changing file lists, re-read templates, calls that failed in between - gives for each call the result
  a fresh handler would give for these files (vocabularies once given to a co-occurrence handler stay in force). Earlier results, the settings, vocabularies, file lists and templates passed in are not altered.""",
  ["histories", "inputs"], "all sequences of calls and re-configurations on any number of handlers",
  "tests call each handler once",
  [H, TT, D], [("handlers", TT + " build_item_freq/build_col_freq/retrieve_tokens"), ("dependency", D + " build_dependency/read_templates")])

p("P32", "Vectorizers give what their steps give one after another",
  """A type vectorizer's vocabulary, counts and scores are the corpus's type frequencies, its window co-occurrence counts (of the given vocabularies, or all types), and the measure's scores with that matrix's own margins.
  A token vectorizer gives, per concept, exactly the tokens of its variants with a context word that co-occurs with the variant above the frequency, PMI and LLR cutoffs; their vectors are the PMI-weighted sums of these words' PPMI rows over
  all columns of the frequency matrix, scaled to absolute sum one. The frequency matrix given is not altered.""",
  ["inputs", "configurations"], "all corpora, vocabularies, spans, measures, concepts with their variants and cutoffs",
  "one test builds a vocabulary (and fails on the pinned commit); no test makes a token vector with a vectorizer",
  [TT, MC], [("type vectors", TT + " TypeVectorizer.fit/vectorize"), ("token vectors", TT + " TokenVectorizer.retrieve_tokens/generate_vectors")])

p("P33", "Templates of nephosem.deprel.basic record exactly the embeddings",
  """Matching a dependency template of nephosem.deprel.basic (of two or more nodes) with a sentence adds one matched tree per injective embedding of the template - node and relation expressions matching from the start of the label, a missing artificial
  root counting as ROOT - in any node and edge order, and none for sentences that are no trees. Path templates whose target is an end record exactly the embeddings whose target node is the given target.""",
  ["inputs"], "all sentences (trees, cycles, incomplete ones) and template trees",
  "no test matches a template of this module", ["nephosem/deprel/basic.py"], [("trees", "nephosem/deprel/basic.py tree_match"), ("features", "nephosem/deprel/basic.py FeatureGraph.match_target_feature")])

p("P34", "Interrupted saves are never mistaken for complete ones",
  """When saving a matrix (packed or not), a vocabulary (json or plain) or an object with save support fails or its process ends at any point - a full disk, a file that cannot be created, labels that cannot be encoded - then loading the name afterwards
  gives the old content or the new content or fails, never parts of one or a mixture of both. A save that returns is complete, other files are untouched, and the next save under the name loads back as usual.""",
  ["crash points", "faults", "inputs"], "all matrices, vocabularies and objects, all earlier contents, every file size and file operation at which saving can stop",
  "no test interrupts a save",
  [M, V, U], [("matrices", M + " TypeTokenMatrix.save/load"), ("lists", U + " save_dict_json/save_dict_plain"), ("objects", U + " SaveLoad.save")])

p("P35", "Printed excerpts, descriptions and sorted lists show the true content",
  """The printed form of a matrix shows its shape, its first rows and columns (as many as asked) under their labels with their true values (four decimals, NaN for cells that are not stored) and dots where it is cut; its description the true
  shape, kind and density. A vocabulary shows all its items or the three most and least frequent ones with their frequencies; item lists sorted by frequency (ties alphabetically) or name, in either direction, are exactly sorted. Sentence graphs show their labels in the order of the token numbers.""",
  ["inputs"], "all matrices (labels that look like numbers included), vocabularies and sentences",
  "tests never look at printed forms",
  [M, V, U, G], [("matrices", M + " TypeTokenMatrix.print_matrix/describe"), ("vocabularies", V + " __repr__/describe"), ("sorting", U + " sort_dict/save_dict_plain")])

p("P36", "Programs running at the same time do not disturb each other",
  """A corpus task gives its usual result when other programs of the same user create handlers or run corpus tasks of any kind at any moment of it, also with the default or the same configured output and temporary directories,
  and so do these. Creating handlers and running tasks leaves all files of others in these directories, in the home directory and in its tmp directory (the log file among them) as they are.""",
  ["schedules", "histories", "configurations"], "all pairs and triples of corpus tasks, all moments at which another one starts, default and configured directories",
  "tests run one task at a time in directories of their own",
  [H, TT], [("directories", H + " Paralleler.__init__/subtmpdir, BaseHandler.__init__"), ("partial results", TT + " _process_results/_worker_loop")])

p("P37", "Clusterings give the same committees however they are run",
  """A committee clustering gives the same committees and residues, in the same order, with one process and with several, whatever the number of processors, alone or while other clusterings of the same user run; the results it stores in the home
  directory are complete and of one run each, and other files there stay. If one of its processes is killed or its files cannot be written it does not wait for ever: it raises, or stops with the complete results of earlier rounds and all
  elements of the failed round as residues, never with committees from a part of the clusters; the next clustering is complete again.""",
  ["schedules", "faults", "crash points", "configurations"], "all inputs and settings, numbers of processors, moments at which another clustering runs, a process is killed or a file operation fails",
  "no test clusters with several processes",
  [C], [("processes", C + " cbc_step1_multicore/cbc_step1_call"), ("rounds and stored results", C + " CBC.cluster")])

p("P38", "Messages reach console and log file complete; what is left out is reported",
  """Every message of the package's loggers appears once, with its arguments filled in, on the console (from the level of the logger on, marked with its level) and, from warnings on, in the current log file - ~/tmp/nephosem.log or the one changed to - in order;
  earlier log files keep what they had, and handlers of the user go on receiving theirs. Input that is left out is reported: each sentence that is no tree once with its file and lines, labels that a selection does not find with their number, types without weights with their names; nothing is reported when nothing is left out.""",
  ["histories", "inputs"], "all messages, levels, modules, sequences of changed log files and added handlers; all corpora, matrices and selections",
  "no test looks at messages",
  ["nephosem/logging.py", "nephosem/models/deprel.py"], [("console and file", "nephosem/logging.py DefaultFormatter/init_logging/change_log_file"), ("sentences", "nephosem/models/deprel.py update_dep_rel_*, nephosem/specutils/deputils.py tree_match"), ("selections", M + " submatrix")])

p("P39", "The same question asked another way gets the same answer",
  """Frequencies and co-occurrences stay the same when a corpus is divided at its separators, joined, read backwards with exchanged spans, or interspersed with lines that are no tokens; they add up over files, left and right windows and the contexts of the
  single tokens, double when the corpus does, follow a renaming of words, and turn around when types and collocates change roles. Dependency counts stay under division and shuffling of sentences and add up over files and macros.
  On the way from counts over association scores, token weights and token vectors to distances, saving and loading, reordering, splitting and joining, transposing twice, other sparse formats, tables, dictionaries and copies change no later result.""",
  ["inputs", "histories"], "all corpora and related corpora, all detours at all steps of a workflow",
  "no test compares two ways to a result",
  [TT, MC, M, D], [("corpora", TT + " update_one_file/update_one_match, " + H + " update_one_file"), ("dependencies", D + " build_dependency"), ("workflows", MC + " compute_association ... compute_distance, " + M + " TypeTokenMatrix")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

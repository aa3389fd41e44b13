#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "lumberjack/src/tree.rs"; M = "lumberjack/src/tree_modification.rs"; N = "lumberjack/src/node.rs"
S = "lumberjack/src/span.rs"; F = "lumberjack/src/features.rs"; U = "lumberjack/src/util.rs"; ED = "lumberjack/src/edge.rs"
EN = "lumberjack/src/io/encode.rs"; PT = "lumberjack/src/io/ptb.rs"; NG = "lumberjack/src/io/negra.rs"; CX = "lumberjack/src/io/conllx.rs"
CLI = "lumberjack-utils/src/bin/lumberjack-conversion.rs"; G = "lumberjack/src/io/ptb.pest"

P = []
def p(id, title, statement, over, quant, why, files, mech, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=a))

p("P01", "Any sequence of editing operations keeps a tree well formed",
  "Starting from any valid tree, any sequence of editing operations (inserting, appending, moving, removing and reattaching nodes, inserting unary nodes, projectivizing, collapsing and restoring unary chains, filtering, inserting intermediate nodes, reattaching terminals, re-tagging) leaves a valid tree. "
  "Valid means: one root, every other node has exactly one parent and is below the root, words occupy the positions 0..n-1 without gaps, every inner node has children and its span is exactly the set of words below it, and the tree reports itself projective exactly if no node's span has a gap. "
  "No operation panics or hangs when used within its documented preconditions.",
  ["inputs", "histories"], "every tree (also discontinuous, also with nodes created in any order), every operation, every argument within the documented preconditions, every sequence",
  "The tests apply a few operations to a handful of fixed, mostly continuous trees and rarely look at spans or projectivity afterwards; no test chains operations.",
  [T, M, S, N], [("spans, counters and single-parent structure kept by each edit", T + " insert_terminal, push_terminal, move_terminal, insert_unary_above, insert_unary_below, remove_node, reattach_node, reset_nt_spans, projectivity_change"), ("bulk edits", M + " TreeOps, UnaryChains, Projectivize")])
p("P02", "Each editing operation changes exactly what it documents",
  "Each single edit (insert, append, move, remove, reattach a node, insert a unary node above or below, add, reattach or remove a secondary edge) produces exactly the documented tree: all other nodes, words, labels, edge labels, secondary edges and their order stay as they were, and the documented value (index, removed node, old edge) is returned. "
  "It returns an error exactly in the documented situations, and then the tree is unchanged.",
  ["inputs"], "every tree, node, position and label",
  "The tests check a few edits on fixed trees and compare bracketed strings, which show neither spans nor edge labels nor secondary edges nor continuity counters.",
  [T, N, S], [("single edits", T + " insert_terminal, push_terminal, move_terminal, insert_unary_above, insert_unary_below, remove_node, reattach_node, add_secondary_edge, remove_secondary_edge")])
p("P03", "Projectivization removes all discontinuities and nothing else",
  "Projectivizing any discontinuous tree yields a projective tree with the same words in the same order and the same nodes, where every node keeps the label of its incoming edge; content in the gaps of a discontinuous node is moved below that node, as the largest constituents that do not contain it, and content outside the gaps stays where it was. "
  "The returned list names exactly the moved constituents with their former parent and edge, starting with the original ones; a projective tree is left untouched and reported as such. "
  "The result does not depend on hash order.",
  ["inputs"], "every tree, whatever the number and nesting of gaps and the creation order of nodes",
  "The tests projectivize a few trees from two fixed files and compare strings; the internal choice depends on hash order, which a test samples once per run.",
  [M, T, S], [("gap filling", M + " Projectivize::projectivize"), ("span maintenance while moving", T + " reattach_primary")])
p("P04", "Bracketed trees survive writing and reading",
  "Writing any projective tree in a bracketed format and reading it back in the same format, through strings or through the line-oriented writer and reader, gives a tree with the same structure, words, tags and node labels; the annotation of inner nodes is kept by the two formats that have annotations and the edge labels by the format that has edge labels, a missing edge label staying missing. "
  "Round brackets in words and tags come back as LBR and RBR, and writing the re-read tree gives the identical text. "
  "Writing a discontinuous tree is an error.",
  ["inputs"], "every projective tree whose labels, tags and words are non-empty and free of the format's own delimiters (whitespace, and '-', ':', '=' where they separate fields)",
  "The tests read and write fixed lines; labels, words and shapes come from one test file.",
  [PT, G], [("writer", PT + " tree_to_string, format_sub_tree, fmt_inner, fmt_term"), ("reader", PT + " string_to_tree, parse_value, process_label"), ("grammar", G)])
p("P05", "Bracket parsing is total and accepts exactly the bracket grammar",
  "Parsing any string as a bracketed tree returns either a well-formed tree or an error and never panics. "
  "It returns a tree exactly if the text is one complete bracketed tree (optional spaces and line breaks between tokens), and then the words, tags, labels, edge labels and annotations are exactly the ones in the text, in text order.",
  ["inputs"], "every string",
  "Tests parse a dozen well-formed strings and no malformed ones.",
  [PT, G], [("grammar and tree construction", PT + " string_to_tree, parse_value, process_preterminal, process_label"), ("grammar", G)])
p("P06", "The bracket reader delivers every tree of a file exactly once",
  "Reading a stream of bracketed trees yields the trees in order, one item per tree, skipping comment lines that start with '%'; a tree split over several lines is read in multi-line mode as if it were on one line. "
  "Malformed input (surplus or missing brackets, junk, a tree cut off at the end of input, a read error) is reported as an error item: never a panic, never silently dropped, and in single-line mode never affecting other lines.",
  ["inputs"], "every byte stream, every way of breaking trees into lines, with and without a final line break",
  "One test reads one well-formed multi-line tree.",
  [PT], [("line assembly", PT + " PTBReader::next, count_pars"), ("per-tree parsing", PT + " string_to_tree")])
p("P07", "Export-format trees survive writing and reading",
  "Writing any tree with an inner root node in Negra export format and reading it back gives an equal tree: same words, lemmas, tags, morphology, node labels and annotations, edge labels, discontinuous structure, secondary edges, sentence id and metadata, for fields of any length. "
  "Several trees written to one stream come back as the same sequence, unnumbered trees being numbered consecutively from 0; a tree without inner root, or with a secondary edge that starts at a word, is an error.",
  ["inputs"], "every tree whose fields are non-empty and free of whitespace and of the format's markers, with root label VROOT and at most one secondary edge per node",
  "Tests round-trip the trees of two files; field widths, gaps and secondary edges are whatever occurs there (no secondary edge does).",
  [NG], [("writer", NG + " NegraWriter::write_tree, pad, terminal_to_negra_line, nonterminal_to_negra_line, get_parent_edge"), ("reader", NG + " NegraReader, Builder")])
p("P08", "Export-format reading is total and yields only well-formed trees",
  "Reading any text in Negra export format never panics: each sentence is either returned as a well-formed tree or reported as an error. "
  "A returned tree has exactly the words, tags, labels, edges and parents written in the sentence; a sentence with missing fields, unknown, duplicate, cyclic or unreachable nodes, words after nodes, no words, mismatching ids, or no end is an error, and nodes may be listed in any order.",
  ["inputs"], "every text; every table of parent pointers",
  "Tests cover a few fixed well-formed and malformed sentences.",
  [NG], [("reader", NG + " NegraReader::next, Builder::process_line, process_edges, parse_optional_fields, try_into_tree")])
p("P09", "Tag-sequence encoding is lossless",
  "For every projective tree whose unary chains have been collapsed, encoding it as one label per word, on the absolute or the relative scale, and decoding the labels with the words gives the collapsed tree back: same structure, labels and unary-chain annotations. "
  "The labels stored as word features are the textual form of the same encoding, and encoding a discontinuous tree is an error.",
  ["inputs"], "every projective tree (any branching, any depth) with labels free of the delimiters '_', '+', '~' and other than the reserved DUMMY and NONE",
  "Tests encode the trees of one file and one hand-made tree.",
  [EN], [("encode", EN + " encode_absolute, encode_relative, annotate_absolute, annotate_relative, get_common"), ("decode", EN + " decode")])
p("P10", "Relative and absolute label sequences convert consistently",
  "Converting an absolute label sequence to relative and back is the identity, and the absolute sequence denoted by a relative one has the running sums of the offsets as its numbers of common ancestors, restarting at 1 at a root label. "
  "If a running sum falls below 1 the conversion reports it, and fixing replaces exactly the offending counts by 2 and continues from there; labels and leaf chains are always kept, and parsing the textual form of any label gives the label back while malformed labels are errors.",
  ["inputs"], "every sequence of labels and offsets (within machine-integer range; a root label of the relative scale contains no plus sign)",
  "Tests convert sequences from real trees and one broken sequence.",
  [EN], [("conversion", EN + " try_from_relative, RelativeToAbsoluteError::fix, From<AbsoluteEncoding>"), ("label text", EN + " AbsoluteAncestor/RelativeAncestor try_from, to_string")])
p("P11", "Any label sequence decodes to a well-formed tree",
  "Decoding any label sequence of the sentence's length, including ones no tree has and ones obtained by repairing relative labels, yields a well-formed tree over exactly the given words in the given order and never panics. "
  "Removing dummy nodes afterwards deletes every dummy-labelled node (the root only if it has a single child) and nothing else.",
  ["inputs"], "every sequence of (optional ancestor count and label, optional leaf chain) as long as the sentence",
  "Tests decode sequences of real trees and one broken sequence.",
  [EN, M], [("decode", EN + " decode"), ("dummy removal", EN + " remove_dummy_nodes")])
p("P12", "Unary chains collapse and restore losslessly",
  "Collapsing unary chains removes exactly the inner nodes with a single child and records their labels, bottom-up and separated by the delimiter, on the node below the chain; afterwards no inner node has a single child. "
  "Restoring gives back the original tree's structure, words, tags and labels, for any delimiter that shares no character with the labels.",
  ["inputs", "configurations"], "every tree (also discontinuous), any chain length and position, any delimiter",
  "Tests collapse five fixed trees with one delimiter.",
  [M], [("collapse and restore", M + " UnaryChains for Tree")])
p("P13", "CoNLL-X conversion keeps words and encoded trees",
  "Converting any tree to a CoNLL-X sentence gives one token per word in sentence order with its form, tag, lemma and features, whether the tree is consumed or not. "
  "A tree annotated with absolute or relative labels and written as CoNLL-X converts back to a tree with the same structure, words, tags and labels including unary chains; a sentence without tokens or with missing or malformed labels is an error, never a panic.",
  ["inputs"], "every tree with fields free of the format's delimiters; every sentence with arbitrary ancestor features",
  "Tests convert the trees of one file and one broken sentence.",
  [CX, EN], [("export", CX + " From<Tree>, From<&Tree>, From<&Terminal>"), ("import", CX + " try_from_conllx_with_absolute_encoding, try_from_conllx_with_relative_encoding")])
p("P14", "Filtering keeps exactly the matched inner nodes",
  "Filtering inner nodes by a predicate removes exactly the inner nodes the predicate rejects, except the root, which always stays. "
  "The children of a removed node belong to its nearest kept ancestor, and words, order, labels and the remaining dominance relations are unchanged.",
  ["inputs"], "every tree, every set of accepted labels",
  "One test filters one fixed tree.",
  [M, T], [("filter", M + " filter_nonterminals"), ("removal", T + " remove_nonterminal")])
p("P15", "Intermediate nodes cover exactly the selected runs of words",
  "Inserting intermediate nodes adds one new node, with the label the selector gives, above each maximal run of adjacent words directly attached to a selected parent; everything else, including words below unselected parents, keeps its place, and removing the new nodes gives the original tree. "
  "A tree that consists of a single word without parent is an error.",
  ["inputs"], "every tree and every selector",
  "Two tests insert into fixed trees.",
  [M], [("insertion", M + " insert_intermediate")])
p("P16", "Reattaching words moves exactly the matched words",
  "Reattaching words by a predicate makes every matched word a direct child of the attachment node and leaves every other word where it was. "
  "Exactly the inner nodes left without words are removed (never the attachment node), word order is unchanged, and the operation always terminates.",
  ["inputs"], "every tree, attachment node and predicate on words",
  "Two tests reattach words in fixed trees.",
  [M, T], [("reattachment", M + " reattach_terminals"), ("single move", T + " reattach_node")])
p("P17", "Ancestor projections give every word its closest match",
  "Projecting inner nodes, labels or ids onto words gives each word the closest ancestor the predicate accepts: as a list in sentence order that falls back to the root, as a feature with the ancestor's label, or as a feature with a number; words without an accepted ancestor get no feature. "
  "Two words get the same number exactly if they have the same closest accepted ancestor, and numbers are consecutive from 0; the parent-tag annotation gives every word its parent's label, and no projection changes anything else.",
  ["inputs"], "every tree, predicate and feature name",
  "Tests project in two fixed trees.",
  [T, M], [("projection", T + " project_nt_indices, map_climber_path, project_tag_set, project_ids"), ("parent tag", M + " annotate_parent_tag")])
p("P18", "Tags are assigned in sentence order",
  "Annotating a sequence of part-of-speech tags gives the i-th word of the sentence the i-th tag and changes nothing else. "
  "A sequence that is too short or too long is an error.",
  ["inputs"], "every tree, whatever the creation order of its words, and every tag sequence",
  "The test uses a tree whose words were created in sentence order.",
  [M], [("annotation", M + " annotate_pos")])
p("P19", "Tree equality is equality of labelled structure",
  "Two trees compare equal exactly if they have the same structure over the same words: same words, tags, lemmas, features, node labels, spans, parents and edge labels, independent of how they were built. "
  "Equality is reflexive and symmetric, and an absent feature set equals an empty one.",
  ["inputs"], "every pair of trees",
  "Every test relies on equality, none tests that different trees differ.",
  [T, N, ED, F], [("comparison", T + " PartialEq for Tree, subtree_eq, sort_indices"), ("node comparison", N + " PartialEq for NonTerminal, Terminal")])
p("P20", "Features parse, print and update like a sorted key-value map",
  "Parsing the text of any feature set gives the set back, printing lists the keys in order separated by '|' with ':' before a value, and empty parts are ignored (a set with a key that is empty and has no value has no text). "
  "Insertion, lookup and removal behave like a map, the last value for a key winning.",
  ["inputs", "histories"], "every feature text and every set of keys and values free of '|' and ':'",
  "One test parses one string.",
  [F], [("parsing, printing, map operations", F)])
p("P21", "Structure queries agree with the tree",
  "For any tree and node, the queries for parent, children, siblings, sibling relation, secondary parent and children, words below a node and the path to the root answer what the tree's edges say, each node exactly once. "
  "Label sets match exactly the listed labels, or exactly the others for negative sets.",
  ["inputs"], "every tree, also with secondary edges and discontinuous nodes, every pair of nodes",
  "Tests query a few fixed trees.",
  [T, U], [("queries", T + " parent, children, siblings, are_siblings, secondary_parent, secondary_children, descendent_terminals, terminals, nonterminals"), ("climbing, label sets", U)])
p("P22", "Span queries agree with the set of covered positions",
  "For any inner node, also of a discontinuous tree, its span reports bounds, number of covered positions, skipped positions, membership, coverage of another span, iteration and ordering exactly as the set of word positions below the node dictates.",
  ["inputs"], "every tree and every pair of nodes",
  "Tests use a few hand-made spans.",
  [S, N], [("span arithmetic", S + " contains, covers_span, n_indices, skips, bounds, from_vec, merge_spans, remove_indices, Ord, IntoIterator")])
p("P23", "The conversion program applies its operations in the documented way",
  "For any input text and any combination of options, the conversion program writes exactly the trees that applying the selected operations in their fixed order (dummy removal, projectivization with optional secondary edges, tags, reattachment, ids, filtering, insertion, parent tags, encoding) to each tree read gives, in input order, in the selected output format. "
  "Unreadable input, and an output that cannot be written, end the program with a failure status.",
  ["inputs", "configurations"], "every input text, input and output format and option combination",
  "One script run converts one file with one option.",
  [CLI], [("pipeline", CLI + " main"), ("format selection", CLI + " get_reader, get_writer")])
p("P24", "Sentences of an export file do not influence each other",
  "Reading a Negra export stream yields one tree per complete well-formed sentence and at least one error per malformed one, in order, ignoring text between sentences; each tree depends only on its own sentence, so a malformed sentence does not change the trees of the complete sentences after it. "
  "A start inside a sentence (which ends both), an end outside one and a sentence cut off at the end of input are errors, never silently dropped.",
  ["inputs", "histories"], "every sequence of sentences, well formed or not, and intervening lines",
  "Tests read files of well-formed sentences.",
  [NG], [("stream splitting", NG + " NegraReader::next")])

p("P25", "Trees are transferred completely or the failure is reported",
  "Writing trees in any format to an output that accepts the text in pieces of any size delivers exactly the text that is written in one piece. If the output fails at any point, the writer returns an error and what was delivered is a prefix of that text; it never reports success for text that was not delivered. "
  "Reading trees gives the same result whatever the pieces in which the input delivers the text, also if a piece ends inside a character.",
  ["inputs", "fault_sequences"], "every output and input stream, with short transfers, interruptions and failures at any byte",
  "Tests write to and read from memory, which never fails and never splits.",
  [NG, PT, CX], [("writing", NG + " NegraWriter::write_tree; " + PT + " PTBWriter::write_tree; " + CX + " write_tree"), ("reading", NG + " NegraReader; " + PT + " PTBReader")])
p("P26", "Setting an attribute changes that attribute only and returns the old value",
  "After any sequence of attribute changes on nodes and edges (label, form, lemma, feature sets, single features, labels of primary and secondary edges; through the node or through the word or inner node it holds) every attribute of every node and edge has the value set last, all others and the structure are unchanged, and each change returned the value before it. "
  "A word is shown as its tag and form, an inner node as its label, an edge as its label or \"--\".",
  ["inputs", "histories"], "every tree, every sequence of attribute changes and every text",
  "The tests set a few attributes once and look at that attribute only.",
  [N, ED, F], [("attributes of nodes", N + " Node, Terminal, NonTerminal setters and getters"), ("labels of edges", ED + " Edge::set_label, label"), ("single features", F + " insert, remove")])

NA = {}
if os.path.exists(os.path.join(V, "tools", "na.json")):
    NA = json.load(open(os.path.join(V, "tools", "na.json")))

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

import sys
sys.path.insert(0, V)
import jobs
checks = []
for x in P:
    i = x["id"]
    if i in jobs.PROPS and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique="symbolic execution of the compiled LLVM IR of the real code, SMT (Z3 bit-vectors), counterexamples replayed natively",
            level="model_checking",
            level_note="bounded: " + jobs.PROPS[i]["bounds"] + ". Every feasible path within the bound is explored and every assertion on it decided for all values; outside the bound nothing is claimed. Trusted: rustc's IR, the engine symex (its paths are replayed natively and its verdicts cross-checked with Z3), the oracle in harness/."))
na = [dict(property=x["id"], reason=NA.get(x["id"], "no check built yet")) for x in P if x["id"] not in [c["property"] for c in checks]]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
  hooks=dict(guard="cfg(lumberjack_verif)", enable="RUSTFLAGS='--cfg lumberjack_verif' (set by check.py for the harness build)", source_commits=["96a0fad"]),
  notes="See DESIGN.md. fix: commits are listed in known_findings.json."),
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")

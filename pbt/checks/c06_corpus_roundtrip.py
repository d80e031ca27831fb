"""Treebank formats: trees written to files are read back the same."""
import gzip
import io
import copy
import os
import re
import shutil
import sys
import tempfile
import xml.etree.ElementTree as ElementTree
from xml.sax.saxutils import quoteattr, escape as xmlescape
from contextlib import contextmanager, redirect_stderr
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop import treebank
from discodop.tree import Tree, ParentedTree
from discodop.treebank import (writetree, NegraCorpusReader,
		BracketCorpusReader, DiscBracketCorpusReader, TigerXMLCorpusReader,
		AlpinoCorpusReader, AlpinoCompactCorpusReader, FTBXMLCorpusReader,
		READERS)
import gens

NEED = ('bit', )
ASSUMPTIONS = ['words and labels contain no whitespace',
		'words do not look like #500..#999, nor contain %% or the reserved '
		'escapes #LRB# #RRB# #FRONTIER#',
		'export format: at most 500 phrasal nodes (limit of the format)',
		'alpino format: phrasal labels upper case, POS tags lower case']

WORDCHARS = '()[]{}/\\=#<>&"\'-_.,:;|^@$*+0123456789abZéß日\u0301😀'
reserved = re.compile(r'#LRB#|#RRB#|#FRONTIER#|%%|^#[5-9][0-9][0-9]$')
word = st.one_of(
		st.sampled_from(['(', ')', '((', '-LRB-', '0', '12', '1=', '0=a', '=',
			'a=b', '[', ']', '/', '#', 'walks', 'Mary', '#50', '#5000', '#499',
			'#1000', '#5a5', '&amp;', '<', '>', '"', '.', "''", 'None', '%',
			'#BOS', '#EOS', '--', '#500x', '#FORMAT', 'a)', '(b']),
		st.text(WORDCHARS, min_size=1, max_size=5)).filter(
			lambda x: not reserved.search(x))
label = st.one_of(st.sampled_from(['S', 'NP', 'VP', 'NP-SBJ', 'S|<NP,VP>',
		'$,', '$[', '-LRB-', '-NONE-', 'X^<Y>', 'NP=1', '--', '#500', '0', 'N/a/b']),
		st.text('[]{}/\\=#<>&"\'-_.,:;|^@$*+019abZé', min_size=1, max_size=3))
catlabel = st.sampled_from(['S', 'NP', 'VP', 'PP', 'TOP', 'A&B', '<', 'É'])
poslabel = st.sampled_from(['n', 'v', 'det', 'a&b', '"', 'é'])


@contextmanager
def scratch():
	path = tempfile.mkdtemp(prefix='corpus-', dir='.')
	try:
		yield path
	finally:
		shutil.rmtree(path)


@contextmanager
def quiet():
	with redirect_stderr(io.StringIO()):
		yield


def checkparents(tree):
	check(isinstance(tree, ParentedTree), 'tree class')
	check(tree.parent is None, 'root has parent')
	for a in tree.subtrees():
		for n, b in enumerate(a):
			if isinstance(b, Tree):
				check(b.parent is a and b.parent_index == n, 'parent of node')


@st.composite
def corpora(draw, key=st.integers(0, 99999).map(str), comment=None, maxsize=3,
		**kwds):
	"""Generate list of (key, spec, sent, comment) tuples."""
	keys = draw(st.lists(key, min_size=1, max_size=maxsize, unique=True))
	return [(k, ) + draw(gens.treesents(**kwds))
			+ (draw(comment) if comment is not None else None, ) for k in keys]


def classes(corpus):
	result = []
	for a in corpus:
		result.extend(gens.classify(a[1]))
	return result


commenttext = st.one_of(st.none(), st.sampled_from(
		['a comment', 'x=y', '#1', '(a b)', '# 500 <i>&', 'some "quotes"', '50 %', '% 5',
		'a %% b', '%%']))


@prop(st.tuples(corpora(maxleaves=7, word=word, phrasal=label, pos=label,
		root='ROOT', comment=commenttext, shuffle=True),
		st.sampled_from(['utf8', 'utf8', 'utf-16'])),
		quick=1500, rule='corpus with more than one word in a sentence')
def export_io(arg):
	"""export: trees, sentences, and comments that are written are read."""
	corpus, encoding = arg
	with scratch() as path:
		with open(path + '/a.export', 'w', encoding=encoding) as out:
			out.write('%% a comment\n#FORMAT 3\n')
			for key, spec, sent, cmt in corpus:
				tree = gens.mk(spec, ParentedTree)
				out.write(writetree(tree, sent, key, 'export', comment=cmt))
				same(gens.unmk(tree), spec, 'writing changed tree')
		reader = NegraCorpusReader(path + '/a.export', encoding=encoding)
		trees, sents = reader.trees(), reader.sents()
		items = dict(reader.itertrees())
		for key, spec, sent, cmt in corpus:
			# 'export' represents '(' in labels
			same(gens.unmk(trees[key]), gens.canonspec(spec), 'tree')
			same(sents[key], sent, 'sentence')
			same(gens.unmk(items[key].tree), gens.canonspec(spec), 'item.tree')
			same(items[key].sent, sent, 'item.sent')
			same(items[key].comment, cmt, 'comment')
			checkparents(trees[key])
		same(list(trees), [a[0] for a in corpus], 'keys')
	return classes(corpus)


@prop(st.integers(420, 500), quick=6, thorough=81, rule='all')
def export_many_nodes(arg):
	"""export: trees with up to 500 phrasal nodes, the limit of the format."""
	n = arg
	spec = ['NN', [0]]
	for a in range(1, n + 1):
		spec = ['X%d' % a, [spec, ['NN', [a]]]]
	spec = ['ROOT', [spec]]
	sent = ['w%d' % a for a in range(n + 1)]
	block = writetree(gens.mk(spec, ParentedTree), sent, '1', 'export')
	item = treebank.exporttree(block.splitlines())
	same(gens.canonspec(gens.unmk(item.tree)), spec, 'tree')
	same(item.sent, sent, 'sent')
	# secondary edges refer to the right nodes
	lines = block.splitlines()
	for m in range(2, len(lines), 37):
		lines[m] += '\tSB\t%d' % (500 + (7 * m) % n)
	item = treebank.exporttree(lines)
	same(writetree(item.tree, sent, '1', 'export').splitlines(), lines,
			'with secondary edges')
	return True


field = st.one_of(st.just('--'), st.sampled_from(
		['Nom.Sg', 'be', 'SB', 'OA', '3.Pl', 'a-b', 'x/y', '#', 'é']))


@st.composite
def exporttext(draw):
	"""A single tree in export format, written independently, with lemmas,
	morphology, functions, and secondary edges."""
	spec, sent = draw(gens.treesents(maxleaves=7, word=word, root='ROOT'))
	nodes = [a for a in gens.nodesof(spec)[1:]]
	phrasal = [n for n, a in enumerate(nodes) if not gens.ispre(a)]
	ids = dict(zip(phrasal, draw(st.permutations(
			range(500, 500 + len(phrasal))))))
	info = []
	for _ in nodes:
		sec = draw(st.lists(st.tuples(st.sampled_from(['SB', 'OA']),
				st.sampled_from(phrasal)), max_size=2)) if (
					phrasal and draw(st.integers(0, 3)) == 0) else []
		info.append((draw(st.booleans()), draw(field), draw(field), draw(field),
				sec))
	order = draw(st.permutations(phrasal))
	return spec, sent, info, [(a, ids[a]) for a in order]


def parsespec(case):
	"""Turn into text, and list of (spec node, fields)."""
	spec, sent, info, order = case
	nodes = gens.nodesof(spec)[1:]
	ids = dict(order)
	parent = {}
	for n, a in enumerate(nodes):
		for b in a[1]:
			if not isinstance(b, int):
				parent[[m for m, c in enumerate(nodes) if c is b][0]] = n
	lines = {}
	for n, a in enumerate(nodes):
		haslemma, lemma, morph, func, sec = info[n]
		first = sent[a[1][0]] if gens.ispre(a) else '#%d' % ids[n]
		fields = [first] + ([lemma] if haslemma else []) + [a[0], morph, func,
				str(ids[parent[n]]) if n in parent else '0']
		for x, y in sec:
			fields.extend((x, str(ids[y])))
		if n % 4 == 1:
			fields.append('%% #500 a comment')
		elif n % 4 == 3:
			fields.append('%%x %% y')
		lines[n] = '\t'.join(fields)
	pre = sorted((a[1][0], n) for n, a in enumerate(nodes) if gens.ispre(a))
	return (['#BOS 1 0 0 0 %% cmt'] + [lines[n] for _, n in pre]
			+ [lines[n] for n, _ in order] + ['#EOS 1'])


def fieldsof(tree):
	"""Collect fields of all nodes except the root, with secondary edges
	represented by position of target node."""
	pos = {a.source[0]: (tuple(sorted(a.leaves())), a.height(), a.label)
			for a in tree.subtrees()
			if a is not tree and isinstance(a[0], Tree)}
	result = []
	for a in tree.subtrees():
		if a is tree:
			continue
		src = a.source
		result.append((a.label, tuple(sorted(a.leaves())), src[1], src[2],
				src[3], src[4], sorted((x, pos['#' + y]) for x, y
					in zip(src[6::2], src[7::2]))))
	return result


@prop(exporttext(), quick=1500,
		rule='tree with more than one word and annotated fields')
def export_fields(arg):
	"""export: lemma, morphology, function, secondary edges are read from the
	right columns, and preserved when written."""
	spec, sent, info, order = arg
	lines = parsespec(arg)
	item = treebank.exporttree(lines)
	# canonical order
	for a in reversed(list(item.tree.subtrees(lambda x: len(x) > 1))):
		a.children.sort(key=Tree.leaves)
	same(gens.unmk(item.tree), gens.canonspec(spec), 'tree')
	same(item.sent, sent, 'sent')
	same(item.comment, 'cmt', 'comment')
	nodes = gens.nodesof(spec)[1:]

	def desc(n):
		node = gens.mk(nodes[n], Tree)
		return (tuple(sorted(node.leaves())), node.height(), node.label)
	want = sorted((a[0], tuple(sorted(gens.leavesof(a))),
			info[n][1] if info[n][0] else '--', a[0], info[n][2], info[n][3],
			sorted((x, desc(y)) for x, y in info[n][4]))
			for n, a in enumerate(nodes))
	got = fieldsof(item.tree)
	same(sorted(got), want, 'fields')
	# write and read again
	with quiet():
		text = writetree(item.tree, item.sent, '1', 'export', comment='x y')
	item2 = treebank.exporttree(text.splitlines())
	for a in reversed(list(item2.tree.subtrees(lambda x: len(x) > 1))):
		a.children.sort(key=Tree.leaves)
	same(gens.unmk(item2.tree), gens.canonspec(spec), 'tree written')
	same(item2.sent, sent, 'sent written')
	same(item2.comment, 'x y', 'comment written')

	def drop(x):  # lemmas of phrasal nodes are not written
		return sorted((a[:2] + (('--', ) if len(a[1]) > 1 or a[0] not in tags
				else a[2:3]) + a[3:]) for a in x)
	tags = {a[0] for a in nodes if gens.ispre(a)} - {
			a[0] for a in nodes if not gens.ispre(a)}
	same(drop(fieldsof(item2.tree)), drop(got), 'fields after writing')
	result = gens.classify(spec)
	if result and any(a[4] for a in info):
		result.append('secedges')
	return result


@prop(st.tuples(corpora(maxleaves=7, disc=False, word=word, phrasal=label,
		pos=label, root='ROOT'), st.sampled_from(['utf8', 'utf8', 'utf-16'])),
		quick=1200, rule='corpus with more than one word in a sentence')
def bracket_io(arg):
	"""bracket: trees and sentences that are written are read."""
	corpus, encoding = arg
	with scratch() as path:
		with open(path + '/a.mrg', 'w', encoding=encoding) as out:
			for key, spec, sent, _ in corpus:
				out.write(writetree(gens.mk(spec, ParentedTree), sent, key,
						'bracket'))
		reader = BracketCorpusReader(path + '/a.mrg', encoding=encoding)
		same([gens.unmk(a) for a in reader.trees().values()],
				[a[1] for a in corpus], 'trees')
		same(list(reader.sents().values()), [a[2] for a in corpus], 'sents')
		same(list(reader.trees()), list(range(1, len(corpus) + 1)), 'keys')
		for _, item in reader.itertrees():
			checkparents(item.tree)
	return classes(corpus)


@prop(st.tuples(corpora(maxleaves=7, word=word, phrasal=label, pos=label,
		root='ROOT', shuffle=True, comment=commenttext),
		st.sampled_from(['utf8', 'utf8', 'utf-16']), st.sampled_from(
			[None, '', 'a\tb', ' x', 'a  b'])),
		quick=1200, rule='corpus with more than one word in a sentence')
def discbracket_io(arg):
	"""discbracket: trees, sentences, and comments are read as written, in
	the given order of constituents."""
	corpus, encoding, cmttext = arg
	with scratch() as path:
		with open(path + '/a.dbr', 'w', encoding=encoding) as out:
			for key, spec, sent, cmt in corpus:
				out.write(writetree(gens.mk(spec, ParentedTree), sent, key,
						'discbracket', comment=cmt))
			if cmttext is not None:  # comment added by hand
				corpus = corpus + [corpus[0][:3] + (cmttext, )]
				_, spec, sent, _ = corpus[0]
				out.write('%s\t%s\n' % (writetree(gens.mk(spec, ParentedTree),
						sent, '0', 'discbracket').rstrip('\n'), cmttext))
		reader = DiscBracketCorpusReader(path + '/a.dbr', encoding=encoding)
		same([gens.unmk(a) for a in reader.trees().values()],
				[a[1] for a in corpus], 'trees')
		same(list(reader.sents().values()), [a[2] for a in corpus], 'sents')
		same(list(reader.trees()), list(range(1, len(corpus) + 1)), 'keys')
		items = [a for _, a in reader.itertrees()]
		same([a.comment for a in items], [a[3] for a in corpus], 'comments')
		for item in items:
			checkparents(item.tree)
	return classes(corpus)


annotation = st.sampled_from([None, '', '--', 'a', '3', '#1', 'é'])


@prop(st.tuples(gens.treesents(maxleaves=7, word=word, phrasal=label,
		pos=label, root='ROOT', shuffle=True), st.lists(st.none() | st.tuples(
		annotation, annotation, annotation), min_size=1, max_size=8),
		st.sampled_from([None, None, 'no', 'add', 'replace', 'between'])),
		quick=800, rule='tree with annotations on some nodes')
def export_annotations(arg):
	"""export: annotations of trees (which may be absent, or empty) are
	written to the corresponding columns."""
	(spec, sent), annot, morphology = arg
	tree = gens.mk(spec, ParentedTree)
	want = []
	for n, a in enumerate(tree.subtrees()):
		b = annot[n % len(annot)]
		if b:
			a.source = ['--', b[0], a.label, b[1], b[2], '0']
		lemma, morph, func = [c or '--' for c in b or ('', '', '')]
		if a is not tree:
			pre = isinstance(a[0], int)
			tag = a.label.replace('$[', '$(') if pre else a.label
			if pre and morph == '--':  # tag may consist of morphology
				if morphology == 'replace':
					morph = tag
				elif morphology == 'add':  # labels of the form TAG/MORPH
					m = re.match(r'(.[^/]*)/(.+)$', tag)
					if m:
						tag, morph = m.groups()
			want.append((tag.replace('$(', '$['), tuple(sorted(a.leaves())),
					lemma if pre else '--', tag, morph, func, []))
	text = writetree(tree, sent, '1', 'export', morphology=morphology)
	item = treebank.exporttree(text.splitlines())
	same(sorted(fieldsof(item.tree)), sorted(want), 'annotations')
	return any(annot[:len(want)]) and len(want) > 1


@prop(corpora(maxleaves=7, word=word, phrasal=catlabel, pos=poslabel,
		root='TOP', comment=commenttext, shuffle=True),
		quick=800, rule='corpus with more than one word in a sentence')
def alpino_io(arg):
	"""alpino XML: trees and sentences that are written are read."""
	corpus = arg
	with scratch() as path:
		os.mkdir(path + '/dir')
		annot = {}
		for m, (key, spec, sent, cmt) in enumerate(corpus):
			tree = gens.mk(spec, ParentedTree)
			for n, a in enumerate(tree.subtrees(), m):
				if n % 4 != 3:  # also a node without annotations
					a.source = ['--', ('', 'be', '--', 'x')[n // 2 % 4], '--',
							('--', 'Sg', '', None)[n // 4 % 4],
							('su', '', 'hd', '--')[n % 4], '']
			annot[key] = [[a.source[b] or '--' for b in (1, 3, 4)]
					if a.source else ['--', '--', None]
					for a in tree.subtrees()]
			text = writetree(tree, sent, key, 'alpino', comment=cmt)
			same([[a.get('lemma'), a.get('postag'), a.get('rel')]
					for a in ElementTree.fromstring(text).iter('node')],
					[b if isinstance(a[0], int) else [None, None, b[2]]
					for a, b in zip(tree.subtrees(), annot[key])],
					'annotations')
			with open('%s/dir/%s.xml' % (path, key), 'w', encoding='utf8'
					) as out:
				out.write(text)
			same(sorted((int(a.get('begin')), int(a.get('end')),
					a.get('cat') or '', a.get('pos') or '', a.get('word') or '')
					for a in ElementTree.fromstring(text).iter('node')),
					sorted((min(gens.leavesof(a)), max(gens.leavesof(a)) + 1)
						+ (('', a[0].lower(), sent[a[1][0]]) if gens.ispre(a)
						else (a[0].lower(), '', ''))
						for a in gens.nodesof(spec)), 'attributes of nodes')
		reader = AlpinoCorpusReader(path + '/dir/*.xml')
		trees, sents = reader.trees(), reader.sents()
		items = dict(reader.itertrees())
		same(sorted(trees), sorted('dir/' + a[0] for a in corpus), 'keys')
		for key, spec, sent, cmt in corpus:
			key1 = 'dir/' + key
			same(gens.unmk(trees[key1]), gens.canonspec(spec), 'tree')
			same(sents[key1], sent, 'sentence')
			checkparents(trees[key1])
			same(items[key1].comment, '%s|%s' % (key, cmt) if cmt else key,
					'comment')
			got = {(a.label, tuple(sorted(a.leaves())), height(gens.unmk(a))):
					list(a.source[1:5]) for a in trees[key1].subtrees()}
			for a, b in zip(gens.mk(spec, Tree).subtrees(), annot[key]):
				pre = isinstance(a[0], int)
				src = got[a.label, tuple(sorted(a.leaves())),
						height(gens.unmk(a))]
				same(src, [b[0] if pre else None, a.label if pre
						else a.label.lower(), b[1] if pre else None, b[2]],
						'annotation that is read')
	return classes(corpus)


@st.composite
def coindexed(draw):
	"""A tree with nodes that have an index, and empty nodes with the same
	index elsewhere in the tree; sequence of (rel, index) for each node."""
	spec, sent = draw(gens.treesents(maxleaves=6, word=word, phrasal=catlabel,
			pos=poslabel, root='TOP', shuffle=True))
	nodes = gens.nodesof(spec)
	rels = draw(st.lists(st.sampled_from(['hd', 'su', 'obj1', '--']),
			min_size=len(nodes), max_size=len(nodes)))
	ids = draw(st.permutations(range(len(nodes))))
	idx = draw(st.lists(st.integers(0, len(nodes) - 1), max_size=4, min_size=1,
			unique=True))
	phrasal = [n for n, a in enumerate(nodes) if not gens.ispre(a)]
	empty = draw(st.lists(st.tuples(st.sampled_from(idx),
			st.sampled_from(phrasal), st.sampled_from(['su', 'obj1', 'mod']),
			st.integers(0, 3), st.booleans()),
			min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=4))
	return spec, sent, rels, ids, idx, empty


@prop(coindexed(), quick=1000, rule='at least one co-indexed empty node')
def alpino_coindexed(arg):
	"""alpino XML: empty nodes with an index are not part of the tree, but
	become secondary edges of the constituent with that index; these are
	preserved in export format."""
	spec, sent, rels, ids, idx, empty = arg
	nodes = gens.nodesof(spec)
	num = {id(a): n for n, a in enumerate(nodes)}
	cnt = len(nodes)

	def visit(a):
		nonlocal cnt
		n = num[id(a)]
		leaves = gens.leavesof(a)
		attrs = dict(id=str(ids[n]), begin=str(min(leaves)),
				end=str(max(leaves) + 1), rel=rels[n])
		if n in idx:
			attrs['index'] = str(idx.index(n) + 1)
		children = []
		if gens.ispre(a):
			attrs.update(word=sent[a[1][0]], pt=a[0], lemma='l%d' % n,
					postag='m%d' % n)
		else:
			attrs['cat'] = a[0].lower()
			children = [visit(b) for b in a[1]]
			for m, par, rel, pos, wrap in empty:
				if par == n:
					x = '<node id="%d" begin="0" end="0" rel="%s" index="%d"/>' % (
							cnt, rel, idx.index(m) + 1)
					cnt += 1
					if wrap:  # constituent with nothing but an empty node
						x = ('<node id="%d" begin="0" end="0" rel="mod" '
								'cat="np">%s</node>' % (cnt, x))
						cnt += 1
					children.insert(pos, x)
		return '<node %s>%s</node>' % (' '.join('%s=%s' % (b, quoteattr(c))
				for b, c in attrs.items()), ''.join(children))
	text = ('<?xml version="1.0" encoding="UTF-8"?>\n<alpino_ds version="1.3">'
			'%s<sentence>%s</sentence></alpino_ds>' % (
			visit(spec), xmlescape(' '.join(sent))))
	with scratch() as path:
		os.mkdir(path + '/dir')
		with open(path + '/dir/1.xml', 'w', encoding='utf8') as out:
			out.write(text)
		(_, item), = AlpinoCorpusReader(path + '/dir/*.xml').itertrees()
	tree = item.tree

	def same1(tree, what):
		for a in reversed(list(tree.subtrees(lambda x: len(x) > 1))):
			a.children.sort(key=Tree.leaves)
		same(gens.unmk(tree)[1], gens.canonspec(spec)[1], what)
	same1(tree, 'tree')
	same(tree.label, 'TOP', 'root label')
	same(item.sent, sent, 'sentence')
	same(item.comment, None, 'comment')
	checkparents(tree)
	byid = {int(a.source[0][1:]) if isinstance(a[0], Tree) else -1 - a[0]: a
			for a in tree.subtrees()}
	want = []
	for n, a in enumerate(nodes):
		key = -1 - a[1][0] if gens.ispre(a) else ids[n] + 500
		check(key in byid, 'node id')
		src = list(byid[key].source)
		same(src[1:5], ['l%d' % n, a[0], 'm%d' % n, rels[n]] if gens.ispre(a)
				else [None, a[0].lower(), None, rels[n]], 'fields')
		if n > 0:
			par = [m for m, b in enumerate(nodes) if any(c is a for c in b[1])]
			same(src[5], ids[par[0]] + 500, 'parent id')
		sec = sorted((rel, ids[par] + 500) for m, par, rel, _, wrap in empty
				if m == n and not wrap)
		same(sorted(b for b in zip(src[6::2], src[7::2])
				if b[1] < 500 + len(nodes)), sec, 'secondary edges')
		same(len(src), 6 + 2 * sum(b[0] == n for b in empty),
				'number of fields')
		want.extend((desc(nodes[n]), rel, desc(nodes[par]))
				for m, par, rel, _, wrap in empty
				if m == n and not wrap and n and par)
	with quiet():
		text = writetree(tree, item.sent, '1', 'export')
	item = treebank.exporttree(text.splitlines())
	same1(item.tree, 'tree in export format')
	pos = {a.source[0]: a for a in item.tree.subtrees()
			if a.source and isinstance(a[0], Tree)}
	same(sorted((desc(gens.unmk(a)), rel, desc(gens.unmk(pos['#' + y])))
			for a in item.tree.subtrees() if a.source
			for rel, y in zip(a.source[6::2], a.source[7::2])),
			sorted(want), 'secondary edges in export format')
	return ['wrapped' if any(a[-1] for a in empty) else 'empty'
			] if empty else ()


def desc(a):
	"""Identify node by label, yield, height."""
	return (a[0], tuple(sorted(gens.leavesof(a))), height(a))


def height(a):
	return 1 if gens.ispre(a) else 1 + max(height(b) for b in a[1])


@prop(corpora(maxleaves=7, word=word, phrasal=catlabel, pos=poslabel,
		root='TOP', shuffle=True),
		quick=300, rule='corpus with more than one word in a sentence')
def alpinocompact_io(arg):
	"""Alpino compact corpus: trees and sentences that are written are read."""
	corpus = arg
	with scratch() as path:
		with gzip.open(path + '/a.data.dz', 'wb') as out:
			for key, spec, sent, _ in corpus:
				text = writetree(gens.mk(spec, ParentedTree), sent, key,
						'alpino').replace('<sentence>',
						'<sentence sentid="%s">' % key)
				out.write(b'<?xml version="1.0" encoding="UTF-8"?>\n'
						+ text.encode('utf8'))
		for name in ('/a.data.dz', '/a.index'):
			with open(path + '/a.index', 'w'):
				pass
			reader = AlpinoCompactCorpusReader(path + name)
			dirname = 'a' if name == '/a.index' else 'a.data.dz'
			trees, sents = reader.trees(), reader.sents()
			same(list(trees), ['%s/%s' % (dirname, a[0]) for a in corpus],
					'keys')
			same([gens.unmk(a) for a in trees.values()],
					[gens.canonspec(a[1]) for a in corpus], 'trees')
			same(list(sents.values()), [a[2] for a in corpus], 'sentences')
	return classes(corpus)


@prop(st.tuples(corpora(maxleaves=7, word=word | st.sampled_from(['5\xa0000',
		'a b', 'a  b']), phrasal=catlabel, pos=catlabel, root='VROOT',
		shuffle=True), st.booleans(), st.lists(field, min_size=60,
			max_size=60), st.lists(st.tuples(st.integers(0, 60),
			st.integers(0, 60), st.sampled_from(['SB', 'OA'])), max_size=4),
			st.sampled_from([None, None, 'S', 'VROOT', 'CS-x', 'a_b']),
			st.sampled_from(['', '', 'x_', '1_', 'a_b-'])),
		quick=600, rule='corpus with more than one word in a sentence')
def tiger_read(arg):
	"""Tiger XML: tree structure, labels, fields, and secondary edges (listed
	with the parent) are read."""
	corpus, haslemma, fields, secs, rootcat, prefix = arg
	corpus = [(prefix + a[0], ) + copy.deepcopy(a[1:]) for a in corpus]
	text = ['<?xml version="1.0" encoding="utf-8"?>', '<corpus><body>']
	expected, expectedsec = [], []
	for key, spec, sent, _ in corpus:
		nodes = gens.nodesof(spec)
		rootid = '500' if rootcat else 'VROOT'
		spec[0] = rootcat or 'VROOT'
		single = rootcat and len(nodes) == 2  # sentence is a single terminal
		if single:
			rootid = '1'
			nodes[0][0] = 'ROOT'
		phrasal = [a for a in nodes if not gens.ispre(a)]
		sec = [(phrasal[x % len(phrasal)], nodes[1 + y % (len(nodes) - 1)], rel)
				for x, y, rel in secs if not single]
		name, want = {}, {}
		for n, a in enumerate(nodes):
			name[id(a)] = 's%s_%s' % (key, rootid if n == 0 else
					a[1][0] + 1 if gens.ispre(a) else 500 + n)
			want[id(a)] = (fields[3 * n], fields[3 * n + 1], fields[3 * n + 2])
		text.append('<s id="s%s"><graph root="s%s_%s"><terminals>' % (
				key, key, rootid))
		pre = sorted((a for a in nodes if gens.ispre(a)),
				key=lambda a: a[1][0])
		for a in pre:
			lemma, morph, _ = want[id(a)]
			text.append('<t id=%s word=%s %spos=%s morph=%s />' % tuple(
					(quoteattr(x) if n != 2 else x) for n, x in enumerate((
					name[id(a)], sent[a[1][0]], 'lemma=%s ' % quoteattr(lemma)
						if haslemma else '', a[0], morph))))
		text.append('</terminals><nonterminals>')
		for a in nodes:
			if gens.ispre(a) or single:
				continue
			text.append('<nt id=%s cat=%s>' % (quoteattr(name[id(a)]),
					quoteattr(a[0])))
			for b in a[1]:
				text.append('<edge label=%s idref=%s />' % (
						quoteattr(want[id(b)][2]), quoteattr(name[id(b)])))
			for x, y, rel in sec:
				if x is a:
					text.append('<secedge label=%s idref=%s />' % (
							quoteattr(rel), quoteattr(name[id(y)])))
			text.append('</nt>')
		expectedsec.append(sorted((y[0], tuple(sorted(gens.leavesof(y))), rel,
				'0' if x is spec else name[id(x)].split('_')[-1])
				for x, y, rel in sec))
		text.append('</nonterminals></graph></s>')
		expected.append(sorted((a[0], tuple(sorted(gens.leavesof(a))),
				want[id(a)][0] if gens.ispre(a) and haslemma else '--',
				want[id(a)][1] if gens.ispre(a) else '--',
				'--' if single else want[id(a)][2]) for a in nodes[1:]))
	text.append('</body></corpus>')
	with scratch() as path:
		with open(path + '/a.xml', 'w', encoding='utf8') as out:
			out.write('\n'.join(text))
		reader = TigerXMLCorpusReader(path + '/a.xml')
		trees, sents = reader.trees(), reader.sents()
		same(list(trees), ['s' + a[0] for a in corpus], 'keys')
		same([gens.unmk(a) for a in trees.values()],
				[gens.canonspec(a[1]) for a in corpus], 'trees')
		# whitespace is not part of a word
		same(list(sents.values()), [['_'.join(w.split()) for w in a[2]]
				for a in corpus], 'sentences')
		same([sorted((a.label, tuple(sorted(a.leaves())), a.source[1],
				a.source[3], a.source[4]) for a in tree.subtrees()
				if a is not tree) for tree in trees.values()],
				expected, 'fields')
		same([sorted((a.label, tuple(sorted(a.leaves())), rel, pid)
				for a in tree.subtrees() if a is not tree
				for rel, pid in zip(a.source[6::2], a.source[7::2]))
				for tree in trees.values()], expectedsec, 'secondary edges')
		reader2 = TigerXMLCorpusReader(path + '/a.xml', functions='add')
		for (key, spec, sent, _), tree, want in zip(
				corpus, reader2.trees().values(), expected):
			same(sorted(a.label for a in tree.subtrees() if a is not tree),
					sorted(a[0] + ('' if a[4] == '--' else '-' + a[4])
						for a in want), 'labels with functions')
	return classes(corpus)


@prop(st.tuples(corpora(maxleaves=7, disc=False, word=word, phrasal=
		st.sampled_from(['NP', 'VN', 'PP', 'Srel', 'MWN', 'MWADV']),
		pos=st.sampled_from(['N', 'V', 'D', 'A']), root='SENT'),
		st.lists(field, min_size=60, max_size=60), st.booleans()), quick=600,
		rule='corpus with more than one word in a sentence')
def ftb_read(arg):
	"""FTB XML: tree structure, labels, and fields are read."""
	corpus, fields, extra = arg
	text = ['<?xml version="1.0" encoding="utf-8"?>', '<text>']
	expected, lemmas = [], []

	for key, spec, sent, _ in corpus:
		nodes = gens.nodesof(spec)
		info = {id(a): fields[3 * n:3 * n + 3] for n, a in enumerate(nodes)}

		def spaced(w):  # whitespace in words is not significant
			if int(key) % 3 == 0:
				return ' %s\n' % w
			elif int(key) % 3 == 1:
				return '%s\n  %s' % (w[:1], w[1:])
			return w

		def visit(a, part=False):
			lemma, morph, func = info[id(a)]
			if gens.ispre(a):
				text.append('<w %s=%s lemma=%s ee=%s fct=%s>%s</w>' % (
						'catint' if part else 'cat', quoteattr(a[0]),
						quoteattr(lemma), quoteattr(morph), quoteattr(func),
						xmlescape(spaced(sent[a[1][0]]))))
			elif a[0].startswith('MW') and all(gens.ispre(b) for b in a[1]):
				# compound, consisting of words
				text.append('<w compound="yes" cat=%s lemma=%s ee=%s fct=%s>' % (
						quoteattr(a[0][2:]), quoteattr(lemma),
						quoteattr(morph), quoteattr(func)))
				for b in a[1]:
					visit(b, True)
				text.append('</w>')
			else:
				text.append('<%s fct=%s%s>' % (a[0], quoteattr(func),
						' nb=%s author="a b" date="1900"' % quoteattr(key)
						if a[0] == 'SENT' else ''))
				for b in a[1]:
					visit(b)
					if extra:  # without words
						text.append('<PP fct="x"><NP></NP></PP>')
				text.append('</%s>' % a[0])
		visit(spec)
		expected.append([(a[0], info[id(a)][2]) for a in nodes])
		lemmas.append([tuple(info[id(a)][:2]) for a in nodes if gens.ispre(a)])
	text.append('</text>')
	with scratch() as path:
		with open(path + '/a.xml', 'w', encoding='utf8') as out:
			out.write('\n'.join(text))
		reader = FTBXMLCorpusReader(path + '/a.xml')
		trees, sents = reader.trees(), reader.sents()
		same(list(trees), ['a-' + a[0] for a in corpus], 'keys')
		same([gens.unmk(a) for a in trees.values()],
				[a[1] for a in corpus], 'trees')
		same(list(sents.values()), [a[2] for a in corpus], 'sentences')
		same([[(a.label, a.source[4]) for a in tree.subtrees()]
				for tree in trees.values()], expected, 'functions')
		same([[(a.source[1], a.source[3]) for a in tree.subtrees() if len(a) == 1
				and isinstance(a[0], int)] for tree in trees.values()], lemmas,
				'lemma and morphology of words')
		for (_, item), (key, _, _, _) in zip(reader.itertrees(), corpus):
			for a in ('nb=%r' % key, "author='a b'", "date='1900'"):
				check(a in item.comment, 'comment: %s', item.comment)
	return classes(corpus)


@prop(st.tuples(gens.specs(maxleaves=6, phrasal=catlabel, pos=poslabel,
		root='TOP', shuffle=True), st.lists(st.integers(1, 3), min_size=6,
		max_size=6), st.lists(st.integers(0, 15), min_size=30, max_size=30),
		st.sampled_from([0, 1, 2])), quick=300,
		rule='word node with several tokens')
def alpino_attributes(arg):
	"""alpino XML: words that span several tokens, and the alternatives for
	attributes (pt or pos, lemma or root, postag or frame)."""
	spec, spans, choice, cmts = arg
	spans = spans[:len(gens.leavesof(spec))]
	sent = ['w%d' % n for n in range(sum(spans))]
	start = [sum(spans[:n]) for n in range(len(spans))]
	ids = iter(range(100))
	text, want, fields = ['<alpino_ds version="1.3">'], [], []

	def visit(a):
		bits = choice[next(ids)]
		leaves = sorted(gens.leavesof(a))
		begin, end = start[leaves[0]], start[leaves[-1]] + spans[leaves[-1]]
		text.append('<node id="%d" begin="%d" end="%d" rel="r"' % (
				len(text), begin, end))
		if gens.ispre(a):
			words = sent[begin:end]
			text.append('word="%s" %s=%s' % (' '.join(words),
					'pt' if bits & 1 else 'pos', quoteattr(a[0])))
			text.append('lemma="a b" root="c"' if bits & 2 else 'root="c"')
			text.append('postag="N(x)" frame="f"' if bits & 4 else 'frame="f"')
			text.append('pos="xx"/>' if bits & 1 else '/>')
			fields.append(('_'.join(words), 'a_b' if bits & 2 else 'c', a[0],
					'N(x)' if bits & 4 else 'f', 'r'))
			return [a[0], list(range(begin, end))]
		text.append('cat=%s>' % quoteattr(a[0].lower()))
		result = [a[0].upper(), [visit(b) for b in a[1]]]
		text.append('</node>')
		return result
	want = gens.canonspec(visit(spec))
	text.append('<sentence>%s</sentence>' % ' '.join(sent))
	if cmts:
		text.append('<comments>%s</comments>' % ''.join('<comment>Q#%d|%s'
				'</comment>' % (n, n) for n in range(cmts)))
	text.append('</alpino_ds>')
	with scratch() as path:
		with open(path + '/1.xml', 'w', encoding='utf8') as out:
			out.write('<?xml version="1.0" encoding="UTF-8"?>\n'
					+ ' '.join(text))
		(_, item), = AlpinoCorpusReader(path + '/*.xml').itertrees()
	same(gens.unmk(item.tree), want, 'tree')
	same(item.sent, sent, 'sentence')
	same(item.comment, 'Q#0|0' if cmts else None, 'comment')
	same(sorted(tuple(a.source[:5]) for a in item.tree.subtrees()
			if isinstance(a[0], int)), sorted(fields), 'fields')
	return max(spans) > 1


@prop(corpora(maxleaves=7, word=st.sampled_from(gens.WORDS), shuffle=True),
		quick=400, rule='corpus with more than one word in a sentence')
def line_formats(arg):
	"""tokens and wordpos have one line per sentence, with words (and tags)
	in order; sentence IDs are prefixed when requested."""
	for key, spec, sent, _ in arg:
		tree = gens.mk(spec, ParentedTree)
		tags = {a[1][0]: a[0] for a in gens.nodesof(spec) if gens.ispre(a)}
		want = dict(tokens=' '.join(sent) + '\n',
				wordpos=' '.join('%s/%s' % (w, tags[n])
					for n, w in enumerate(sent)) + '\n')
		for fmt in want:
			same(writetree(tree, sent, key, fmt), want[fmt], fmt)
		for fmt in ('tokens', 'wordpos', 'bracket', 'discbracket'):
			same(writetree(tree, sent, key, fmt, sentid=True),
					key + '|' + writetree(tree, sent, key, fmt), 'sentid')
		raises(ValueError, writetree, tree, sent, key, 'nonexistent')
	return classes(arg)

"""Tree drawings show exactly the tree that is drawn."""
import re
from html import unescape as htmlunescape
from html.parser import HTMLParser
from xml.etree.ElementTree import fromstring
from collections import Counter
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, ImmutableTree, DrawTree
from discodop.tree import ANSICOLOR
from discodop.util import graphemelength
import gens

NEED = ('bit', )
ASSUMPTIONS = ['no newlines in words and labels',
		'words do not contain bracket escapes (these are shown unescaped)']

CELL = 3
shortlabel = st.sampled_from(['S', 'NP', 'VP', 'PP', 'AP', 'X', 'ADV', 'S.b'])
shortword = st.sampled_from(['a', 'b', 'cat', 'dog', 'in', 'o', 'été', '.', '日',
		'x&y', '<', '-'])
longword = st.text(st.sampled_from('abcdefghijk-&<é'), min_size=1, max_size=40
		).filter(lambda x: not x.startswith('-'))


def cells(line):
	"""Split line in grid cells of width 3 separated by a single character."""
	result = []
	width = 0
	cur = ''
	for c in line:
		cur += c
		if graphemelength(cur) == CELL + 1:
			result.append(cur[:-1])
			cur = ''
	if cur:
		result.append(cur)
	return [a.strip() for a in result]


def decode(text):
	"""Reconstruct tree from drawing; all labels at most 3 characters wide."""
	lines = text.rstrip('\n').split('\n')
	check(len(lines) % 2 == 1, 'number of lines')
	nodes = [cells(a) for a in lines[::2]]
	branches = [cells(a) for a in lines[1::2]]
	seen = set()

	def at(grid, row, col):
		return grid[row][col] if col < len(grid[row]) else ''

	def visit(row, col):
		"""Return spec for node at this position."""
		check((row, col) not in seen, 'node reached twice')
		seen.add((row, col))
		lab = at(nodes, row, col)
		check(lab and lab != '│', 'no label')
		mid = at(branches, row, col) if row < len(branches) else ''
		if mid in ('', ):
			return lab, col
		if mid == '│':
			cols = [col]
		else:
			sym = mid.strip('─')
			check(sym in ('┴', '┼', '┌', '┐'), 'no branch below: %r', mid)
			cols = [col] if sym != '┴' else []
			for step, corner in ((-1, '┌'), (1, '┐')):
				c = col
				if sym == corner:
					continue
				while True:
					c += step
					check(0 <= c < len(branches[row]), 'line without end')
					x = branches[row][c].strip('─')
					if x == corner:
						cols.append(c)
						break
					elif x == '┬':
						cols.append(c)
					else:
						check(x in ('', '│'), 'unexpected %r', x)
		children = []
		for c in sorted(cols):
			r = row + 1
			while at(nodes, r, c) == '│':
				check(at(branches, r, c) == '│', 'interrupted vertical line')
				r += 1
			children.append(visit(r, c))
		return [lab, [a for a, _ in children],
				[b for _, b in children]], col

	root = [n for n, a in enumerate(nodes[0]) if a]
	same(len(root), 1, 'nodes on first row')
	result, _ = visit(0, root[0])
	labels = {(r, c) for r, row in enumerate(nodes) for c, a in enumerate(row)
			if a and a != '│'}
	same(labels - seen, set(), 'labels not connected to the root')
	return result, nodes[-1]


def canon(x):
	"""(label, sorted multiset of children); drawing has its own order."""
	if isinstance(x, str):
		return (x, ())
	return (x[0], tuple(sorted(canon(a) for a in x[1])))


def withwords(spec, sent):
	if isinstance(spec, int):
		return ('...' if sent[spec] is None else sent[spec], ())
	return (spec[0], tuple(sorted(withwords(a, sent) for a in spec[1])))


def known(spec):
	"""Three or more (overlapping) discontinuous constituents: for some of
	these the layout of branches is ambiguous, or fails; see KNOWN."""
	return sum(gens.blocks(gens.leavesof(a)) > 1
			for a in gens.nodesof(spec)) >= 3


KNOWN = [
	['X', [['X', [['X', [['P', [0]], ['P', [4]]]], ['P', [2]]]],
		['X', [['P', [1]], ['U', [['P', [3]]]]]]]],
	['X', [['X', [['P', [0]], ['P', [5]]]], ['X', [['X', [['P', [1]],
		['U', [['P', [4]]]]]], ['P', [2]]]], ['P', [3]]]]]


@prop(st.sampled_from(KNOWN), quick=2, thorough=2)
def layout_many_crossing(arg):
	"""Trees with three or more crossing discontinuous constituents."""
	sent = ['abcdefg'[a] for a in range(len(gens.leavesof(arg)))]
	text = DrawTree(gens.mk(arg, Tree), sent).text(unicodelines=True)
	got, _ = decode(text)
	same(canon(got), withwords(arg, sent), 'tree in drawing:\n%s', text)


@prop(gens.treesents(maxleaves=9, phrasal=shortlabel, pos=shortlabel,
		word=shortword, shuffle=True), quick=2500,
		rule='tree with at least two words and a non-trivial structure')
def text_decodes(arg):
	"""The tree can be recovered from the lines of the text drawing; words
	are in sentence order on the last row."""
	spec, sent = arg
	if known(spec):
		return ()
	tree = gens.mk(spec, Tree)
	drawing = DrawTree(tree, sent)
	text = drawing.text(unicodelines=True)
	same(str(drawing), text, 'str()')
	got, last = decode(text)
	same(canon(got), withwords(spec, sent), 'tree in drawing:\n%s', text)
	same([a for a in last if a], sent, 'words in drawing')
	same(gens.unmk(tree), spec, 'drawing modifies tree')
	plain = drawing.text()
	same(re.sub(r'[ _|]+', ' ', plain),
			re.sub(r'[ ─-╿]+', ' ', text), 'ASCII lines instead of Unicode')
	html = drawing.text(unicodelines=True, html=True, funcsep='-')
	same(htmlunescape(re.sub('</?(?:font|span)[^>]*>', '', html)), text,
			'html instead of text')
	ansi = drawing.text(unicodelines=True, ansi=True, funcsep='-')
	same(re.sub('\x1b\\[[0-9;]*m', '', ansi), text, 'ANSI instead of text')
	same(DrawTree(gens.mk(spec, ParentedTree), sent).text(unicodelines=True),
			text, 'other tree class')
	return gens.classify(spec)


def grid(drawing, spec, sent):
	"""Check coordinates, edges."""
	coords, edges, nodes = drawing.coords, drawing.edges, drawing.nodes
	same(set(coords), set(nodes), 'coordinates for all nodes')
	same(len(set(coords.values())), len(coords), 'overlapping nodes')
	want = Counter(a[0] for a in gens.nodesof(spec)) + Counter(
			'...' if a is None else a for a in sent)
	same(Counter(a.label if isinstance(a, Tree) else a
			for a in nodes.values()), want, 'nodes')
	roots = set(nodes) - set(edges)
	same(len(roots), 1, 'roots')
	same(coords[min(roots)][0], 0, 'row of root')
	kids = {}
	for child, parent in edges.items():
		kids.setdefault(parent, []).append(child)
		check(coords[child][0] > coords[parent][0], 'child not below parent')

	def visit(n):
		if n not in kids:
			return (nodes[n], ())
		return (nodes[n].label, tuple(sorted(visit(a) for a in kids[n])))
	same(visit(min(roots)), withwords(spec, sent), 'edges')
	for n, a in kids.items():
		cols = [coords[b][1] for b in a]
		check(min(cols) <= coords[n][1] <= max(cols),
				'parent not above children')
	term = sorted((coords[n], nodes[n]) for n in nodes if n not in kids)
	same(len({a[0][0] for a in term}), 1, 'rows of terminals')
	same([a[1] for a in term], ['...' if a is None else a for a in sent],
			'order of terminals')


@prop(gens.treesents(maxleaves=9, phrasal=st.sampled_from(
		['S', 'NP-SBJ', 'VP', 'S|<NP,VP>', 'NP^<VP>', 'VERYLONGLABEL-ABC-DEFG',
		'A_B', 'X$']), pos=st.sampled_from(['N', 'V-x', 'PRELS[fin]', 'ADJA~']),
		word=st.one_of(shortword, longword, st.none()), shuffle=True),
		quick=1500, rule='tree with at least two words and phrases')
def formats(arg):
	"""SVG, TikZ, text and HTML contain every label and word once, with the
	edges of the tree; no nodes overlap."""
	spec, sent = arg
	if known(spec):
		return ()
	tree = gens.mk(spec, Tree)
	drawing = DrawTree(tree, sent)
	grid(drawing, spec, sent)
	want = Counter(a[0] for a in gens.nodesof(spec)) + Counter(
			'...' if a is None else a for a in sent)
	numedges = sum(want.values()) - 1
	for sep in (None, '-'):
		svg = drawing.svg(funcsep=sep)
		got = Counter(htmlunescape(re.sub('<[^>]*>', '', a)) for a in
				re.findall('<text [^>]*>(.*?)</text>', svg))
		same(got, want, 'labels in SVG')
		xs = re.findall('<text x="([^"]*)" y="([^"]*)"', svg)
		same(len(set(xs)), len(xs), 'overlapping SVG labels')
		# there are as many vertical lines as edges
		lines = re.findall('stroke:black; stroke-width:1; fill:none;" '
				'points="([^",]*),([^" ]*) ([^",]*),([^" ]*)"', svg)
		root = fromstring(svg)
		check(all(float(root.get(a).rstrip('em')) > 0
				for a in ('width', 'height')), 'size of drawing is zero')
		x1, y1, w, h = map(float, root.get('viewBox').split())
		for x, y in [a[n:n + 2] for a in lines for n in (0, 2)] + xs:
			check(x1 <= float(x) <= x1 + w and y1 <= float(y) <= y1 + h,
					'part of drawing at (%s, %s) outside of SVG', x, y)
		inner = len(gens.nodesof(spec))
		same(len(lines), numedges + 2 * inner, 'lines in SVG')
	svgtext = {}
	for x, y, lab in re.findall(
			'<text x="([^"]*)" y="([^"]*)"[^>]*>(.*?)</text>', svg):
		svgtext[float(x)] = lab
	for tikz in (drawing.tikzmatrix(), drawing.tikznode()):
		ids = re.findall(r'(?:\\node|node) \(n([0-9]+)\)', tikz)
		same(sorted(map(int, ids)), sorted(drawing.nodes), 'TikZ nodes')
		draws = re.findall(r'\\draw \(n([0-9]+)\) -- .*? -\| \(n([0-9]+)\);',
				tikz)
		same(sorted((int(b), int(a)) for a, b in draws),
				sorted(drawing.edges.items()), 'TikZ edges')
		for w in sent:
			check(('...' if w is None else w) in tikz, '%r not in TikZ', w)
	pos = dict((int(n), (int(x), int(y))) for x, y, n in re.findall(
			r'\(([0-9]+), ([0-9]+)\) node \(n([0-9]+)\)', drawing.tikznode()))
	bottom = max(a for a, _ in drawing.coords.values())
	same(pos, {n: (col, bottom - row)
			for n, (row, col) in drawing.coords.items()}, 'TikZ positions')
	for kwds in (dict(), dict(html=True), dict(unicodelines=True),
			dict(maxwidth=None), dict(funcsep='-'), dict(maxwidth=8),
			dict(unicodelines=True, maxwidth=6)):
		text = drawing.text(**kwds)
		if kwds.get('html'):
			text = htmlunescape(re.sub('</?(?:font|span)[^>]*>', '', text))
		chars = Counter(re.sub('[ \n_|─-╿]', '', text))
		same(chars, Counter(re.sub('[ \n_|─-╿]', '', ''.join(
				a * b for a, b in want.items()))), 'characters in text')
		check('│' not in text.rstrip('\n').split('\n')[-1],
				'line below words:\n%s', text)
		if kwds.get('maxwidth', 0) is None:
			for a in want:
				check(a in text, '%r not in drawing', a)
	abbr = DrawTree(tree, sent, abbr=True)
	same(Counter(a.label for a in abbr.nodes.values() if isinstance(a, Tree)),
			Counter(a[0] if len(a[0]) <= 5 else a[0][:4] + '\u2026'
				for a in gens.nodesof(spec)), 'abbreviated labels')
	same(gens.unmk(tree), spec, 'drawing modifies tree')
	return gens.classify(spec)


@prop(st.tuples(gens.treesents(maxleaves=7, word=shortword),
		st.integers(0, 20)), quick=600,
		rule='tree with at least two words; a part of it highlighted')
def highlight(arg):
	"""Only highlighted nodes are coloured; the text is the same."""
	(spec, sent), k = arg
	if known(spec):
		return ()
	tree = gens.mk(spec, Tree)
	# nodes are highlighted by equality; avoid equal ones
	subtrees = list(tree.subtrees())
	x = subtrees[k % len(subtrees)]
	leaf = x.leaves()[0]
	drawing = DrawTree(tree, sent, highlight=[x, leaf])
	base = DrawTree(tree, sent)
	same(drawing.text(), base.text(), 'text')
	ansi = drawing.text(ansi=True)
	same(re.sub('\x1b\\[[0-9;]*m', '', ansi), base.text(), 'ANSI text')
	got = Counter(re.findall('\x1b\\[[0-9;]*m([^\x1b]*?)\x1b', ansi))
	got = Counter({a.strip(): b for a, b in got.items()})
	same(got, Counter([a.label for a in subtrees if a == x])
			+ Counter([sent[leaf]]), 'coloured labels')
	svg = drawing.svg()
	got = Counter(htmlunescape(a) for a in re.findall(
			'fill: (?:blue|red); ">([^<]*)</tspan>', svg))
	same(got, Counter([a.label for a in subtrees if a == x])
			+ Counter([sent[leaf]]), 'coloured labels in SVG')
	for tikz in (drawing.tikzmatrix(), drawing.tikznode()):
		for n, color in re.findall(
				r'node \(n([0-9]+)\) \{ \\textcolor\{(\w+)\}', tikz):
			node = drawing.nodes[int(n)]
			same(color, ('blue' if node == x else 'black')
					if isinstance(node, Tree) else
					('red' if node == sent[leaf]
						and color != 'black' else 'black'), 'colour in TikZ')
		same(Counter(re.findall(r'textcolor\{(red|blue)\}', tikz)),
				Counter(blue=sum(a == x for a in subtrees), red=1),
				'coloured nodes in TikZ')
	return gens.classify(spec)


BRACKETS = {'-LRB-': '(', '-RRB-': ')', '-LCB-': '{', '-RCB-': '}',
		'-LSB-': '[', '-RSB-': ']', '#LRB#': '(', '#RRB#': ')',
		'a\\/b': 'a/b', ':-RRB-': ':)'}


@prop(st.tuples(gens.treesents(maxleaves=7, phrasal=shortlabel, pos=shortlabel,
		word=st.sampled_from(['a', 'bc', None] + sorted(BRACKETS))),
		st.integers(5, 90), st.integers(1, 9)), quick=400,
		rule='an escaped bracket; a word and an empty terminal')
def terminals(arg):
	"""Escaped brackets are shown unescaped; terminals without a word are
	shown as ... without a colour; SVG can be scaled horizontally."""
	(spec, sent), hscale, hmult = arg
	if known(spec):
		return ()
	tree = gens.mk(spec, Tree)
	drawing = DrawTree(tree, sent)
	shown = [None if a is None else BRACKETS.get(a, a) for a in sent]
	got, _ = decode(drawing.text(unicodelines=True))
	same(canon(got), withwords(spec, shown), 'tree in drawing')
	found = Counter(re.findall(r'\x1b\[%d;1m\s*([^\s\x1b]+)\s*\x1b'
			% ANSICOLOR['red'], drawing.text(ansi=True)))
	same(found, Counter(a for a in shown if a is not None), 'coloured words')
	if not gens.isdisc(spec):
		words = gens.mk(gens.canonspec(spec), Tree)
		for pos in list(words.treepositions('leaves')):
			words[pos] = sent[words[pos]]
		same(decode(DrawTree(words).text(unicodelines=True))[0],
				decode(DrawTree(gens.mk(gens.canonspec(spec), Tree), sent).text(
					unicodelines=True))[0], 'words as leaves')
	svgs = []
	for svg in (drawing.svg(), drawing.svg(hscale=hscale, hmult=hmult)):
		root = fromstring(svg)
		texts = [a for a in root if a.tag.endswith('text')]
		colours = Counter(
				(a.text, b) for c in texts for a in c
				for b in [a.get('style').split()[1].strip(';')])
		same(colours, Counter(('...', 'black') if a is None else (a, 'red')
				for a in shown) + Counter((a[0], 'blue')
				for a in gens.nodesof(spec)), 'text and colours in SVG')
		svgs.append(([(float(a.get('x')), float(a.get('y'))) for a in texts],
				[tuple(tuple(map(float, b.split(',')))
					for b in a.get('points').split()) for a in root
					if a.tag.endswith('polyline')], root))
	for (x, y), (x1, y1), (row, col) in zip(
			svgs[0][0], svgs[1][0], drawing.coords.values()):
		same((x, x1), (20 + 40 * col, 20 + hscale * col), 'columns')
		same((y, y1), (20 + 25 * row, 20 + 25 * row), 'rows')
	same([[((x - 20) * hscale / 40 + 20, y) for x, y in a] for a in svgs[0][1]],
			[[(x, y) for x, y in a] for a in svgs[1][1]], 'scaled lines')
	root = svgs[1][2]
	cols = max(b for _, b in drawing.coords.values())
	same(root.get('width'), '%dem' % (max(cols, 1) * hmult), 'width')
	same(root.get('height'), fromstring(drawing.svg()).get('height'), 'height')
	return (['bracket'] * any(a in BRACKETS for a in sent)
			+ ['empty'] * (None in sent and len(set(sent)) > 1))


@st.composite
def withsecedges(draw):
	"""Tree, plus ids and secondary edges for some of the phrases."""
	spec, sent = draw(gens.treesents(maxleaves=7, phrasal=['S', 'NP', 'VP'],
			pos=['N', 'V'], word=st.sampled_from('abc')))
	phrases = [a for a in gens.nodesof(spec)]
	ids = []
	for n, _ in enumerate(phrases):
		ids.append(500 + n if draw(st.integers(0, 9)) else None)
	edges = [draw(st.lists(st.tuples(st.sampled_from(['SB', 'OA', 'HD']),
			st.integers(500, 501 + len(phrases))).filter(
				lambda a: a[1] != ids[n]), max_size=3))
			if draw(st.booleans()) and ids[n] else []
			for n, _ in enumerate(phrases)]
	return spec, sent, ids, edges


@prop(withsecedges(), quick=500, rule='a secondary edge that can be shown; '
		'node with more than one; target that has its own')
def secedges(arg):
	"""With secedge=True, a node with secondary edges is shown with their
	labels and targets (numbered from 500), e.g., NP[SB:1,OA:2]; the target
	with its number, e.g., S=1."""
	spec, sent, ids, edges = arg
	if known(spec):
		return ()
	tree = gens.mk(spec, Tree)
	nodes = list(tree.subtrees())
	same([a.label for a in nodes], [a[0] for a in gens.nodesof(spec)])
	for node, n, e in zip(nodes, ids, edges):
		if n is not None:
			node.source = ['#%d' % n, '--', node.label, '--', '--', '0'] + [
					str(b) for a in e for b in a]
	targets = {b for e in edges for a, b in e if b in ids}
	same(DrawTree(tree, sent).text(maxwidth=None),
			DrawTree(gens.mk(spec, Tree), sent).text(maxwidth=None),
			'secondary edges are not shown by default')
	drawing = DrawTree(tree, sent, secedge=True)
	want = []
	for node, n, e in zip(nodes, ids, edges):
		a = ','.join('%s:%d' % (b, c - 500) for b, c in e if c in ids)
		a = '[%s]' % a if a else ''
		b = '=%d' % (n - 500) if n in targets else ''
		want.append(node.label + a + b)
	svg = [''.join(a.itertext()) for a in fromstring(drawing.svg())
			if a.tag.endswith('text')]
	same(Counter(svg), Counter(want) + Counter(sent), 'labels in SVG')
	text = drawing.text(maxwidth=None)
	for a, b in Counter(want).items():
		check(text.count(a) >= b, '%r not in drawing:\n%s', a, text)
	both = any(n in targets and any(c in ids for _, c in e)
			for n, e in zip(ids, edges))
	return (['edge'] * bool(targets) + ['multiple'] * any(
			sum(c in ids for _, c in e) > 1 for e in edges) + ['both'] * both)


@prop(gens.specs(maxleaves=6, preterm=False), quick=500,
		rule='tree with at least two words')
def without_sentence(arg):
	"""Without a sentence the indices are shown; invalid input is refused
	with ValueError."""
	if known(arg):
		return ()
	tree = gens.mk(arg, Tree)
	n = len(gens.leavesof(arg))
	a, b = DrawTree(tree), DrawTree(tree, [str(a) for a in range(n)])
	same(a.text(), b.text(), 'indices as words')
	same(DrawTree(str(tree), [str(a) for a in range(n)]).text(), b.text(),
			'tree as string')
	raises(ValueError, DrawTree, tree, ['a'] * (n - 1))
	bad = gens.mk(arg, Tree)
	bad.append(0)
	raises(ValueError, DrawTree, bad, ['a'] * n)
	bad = gens.mk(arg, Tree)
	bad.append(Tree('X', []))
	raises(ValueError, DrawTree, bad, ['a'] * n)
	bad = gens.mk(arg, Tree)
	bad.append('a')
	raises(ValueError, DrawTree, bad, ['a'] * n)
	return n > 1


@st.composite
def mixedtrees(draw):
	"""Trees with words (and integers) as leaves in any position, and nodes
	without children; as nested lists."""
	def node(depth):
		label = draw(shortlabel)
		kind = draw(st.integers(0, 5))
		if depth == 0 or kind == 0:
			return [label, draw(st.lists(leaf, max_size=2))]
		return [label, [draw(leaf) if draw(st.integers(0, 3)) == 0
				else node(depth - 1)
				for _ in range(draw(st.integers(1, 3)))]]
	leaf = st.one_of(shortword, shortword, st.integers(0, 9))
	return node(draw(st.integers(0, 3)))


@prop(mixedtrees(), quick=800, rule='an empty node or word with siblings')
def words_as_leaves(arg):
	"""Without a sentence, trees may have words as leaves, as well as nodes
	without children (shown as ...); drawn from left to right."""
	words = []

	def make(a):
		if not isinstance(a, list):
			return a
		return Tree(a[0], [make(b) for b in a[1]])

	def canon1(a):
		if not isinstance(a, list):
			words.append(str(a))
			return (str(a), ())
		if not a[1]:
			words.append('...')
			return (a[0], (('...', ()), ))
		return (a[0], tuple(sorted([canon1(b) for b in a[1]])))
	tree, copy = make(arg), make(arg)
	want = canon1(arg)
	leaves = tree.leaves()
	if all(tree.subtrees()) and all(isinstance(a, int) for a in leaves):
		return ()
	text = DrawTree(tree).text(unicodelines=True)
	got, last = decode(text)
	same(canon(got), want, 'tree in drawing:\n%s', text)
	same([a for a in last if a], words, 'order of words')
	same(tree, copy, 'drawing modifies tree')
	return ['empty'] * ('...' in words) + ['words'] * (len(words) > 1)


@prop(st.tuples(gens.treesents(maxleaves=8), st.integers(0, 2 ** 30 - 1),
		st.booleans()), quick=1000, rule='a label on several lines, '
		'with other nodes or lines next to it')
def wrapped(arg):
	"""A label on several lines adds a line to its row; vertical lines in this
	row continue, everything else is the same as with a shorter label."""
	(spec, sent), wrap, unicodelines = arg
	nodes = gens.nodesof(spec)
	if known(spec) or len(nodes) > 26 or len(sent) > 26:
		return ()
	names = {id(a): chr(65 + n) for n, a in enumerate(nodes)}
	long = {a for n, a in enumerate(
			[names[id(b)] for b in nodes]
			+ [chr(97 + b) for b in range(len(sent))]) if wrap >> n % 30 & 1}

	def draw(suffix):
		def label(a):
			return a * 8 + a * suffix if a in long else a

		def relabel(a):
			return a if isinstance(a, int) else [label(names[id(a)]),
					[relabel(b) for b in a[1]]]
		return DrawTree(gens.mk(relabel(spec), Tree),
				[label(chr(97 + n)) for n in range(len(sent))]).text(
				maxwidth=8, unicodelines=unicodelines).split('\n')
	want = []
	tags = set()
	for line in draw(0):
		want.append(line)
		found = re.findall('[A-Za-z]+', line)
		if any(len(a) > 1 for a in found):
			extra = re.sub('[A-Za-z]+', lambda m: m.group()[:4].center(8)
					if len(m.group()) > 1 else ' ' if m.group().islower()
					else '\u2502' if unicodelines else '|', line)
			want.append(extra)
			if any(a in extra for a in '\u2502|'):
				tags.add('line')
			elif len(found) > 1:
				tags.add('nodes')
	same([a.rstrip() for a in draw(4)], [a.rstrip() for a in want],
			'drawing with wrapped labels')
	return tags


plain = st.text(alphabet='ABCDEXYZ', min_size=1, max_size=4)


@prop(st.tuples(plain, st.lists(plain, min_size=1, max_size=4),
		st.lists(plain, max_size=3)), quick=300,
		rule='label with two siblings or a parent')
def texbinarized(arg):
	"""Labels of binarized constituents: siblings in a subscript, parents in a
	superscript; no part is lost."""
	cat, sibs, parents = arg
	label = '%s|<%s>' % (cat, ','.join(sibs))
	if parents:
		label += '^<%s>' % ','.join(parents)
	tree = Tree('X', [Tree(label, [Tree('P', [0])])])
	want = r'$ \textsf{%s}_\textsf{%s}%s $' % (cat, ','.join(sibs),
			r'^\textsf{%s}' % ','.join(parents) if parents else '')
	for tikz in (DrawTree(tree, ['w']).tikzmatrix(),
			DrawTree(tree, ['w']).tikznode()):
		check('{%s}' % want in tikz, '%s not in %s', want, tikz)
	return ['parents'] * bool(parents) + ['siblings'] * (len(sibs) > 1)


MARKUP = ['S', 'NP-SBJ', 'NP-A&B', '-LRB-', '-NONE-', 'VP-', 'N-<x>', 'X_1',
		'AP/sg', 'AP-HD/pl', '100%#', 'S"{a}']


def texdecode(text):
	"""Interpret (text mode) LaTeX."""
	result = ''
	while text:
		m = re.match(r'\\textbackslash\{\}|\\textasciitilde\{\}'
				r'|\\textasciicircum\{\}|\$[<>]\$|\\[#$%&_{}~^]|[^\\#$%&~_^]',
				text)
		check(m is not None, 'not escaped for LaTeX: %r', text)
		tok = m.group()
		result += {'\\textbackslash{}': '\\', '\\textasciitilde{}': '~',
				'\\textasciicircum{}': '^'}.get(tok, tok[1]
				if tok[0] == '\\' or len(tok) == 3 else tok)
		text = text[len(tok):]
	return result


def splitlabel(label, sep):
	"""Category and function according to documentation."""
	if sep is None or sep not in label or label in PTBPUNC:
		return label, ''
	cat, func = label.split(sep, 1)
	return cat, sep + func


PTBPUNC = ('-LRB-', '-RRB-', '-LCB-', '-RCB-', '-LSB-', '-RSB-', '-NONE-')


class Markup(HTMLParser):
	"""Collect text of outer elements and attributes."""
	def __init__(self):
		super().__init__()
		self.stack, self.found = [], []
		self.text = ''

	def handle_starttag(self, tag, attrs):
		self.stack.append((tag, dict(attrs), []))

	def handle_endtag(self, tag):
		tag1, attrs, text = self.stack.pop()
		check(tag == tag1, 'element %s closed as %s', tag1, tag)
		self.found.append((tag, attrs, ''.join(text)))

	def handle_data(self, data):
		self.text += data
		for a in self.stack:
			a[2].append(data)


def spans(leaves):
	result, leaves = [], sorted(leaves)
	for n, a in enumerate(leaves):
		if n and leaves[n - 1] == a - 1:
			result[-1][1] = a
		else:
			result.append([a, a])
	return ','.join('%d' % a if a == b else '%d-%d' % (a, b)
			for a, b in result)


@prop(st.tuples(gens.treesents(maxleaves=7, phrasal=MARKUP, pos=MARKUP,
		word=st.sampled_from(['a', 'x&y', '50%', '<b>', '{', '\\x', 'a_b',
			'#1', '$', '"q"', '-', '~', '^'])),
		st.sampled_from((None, '-')), st.sampled_from((None, '/')),
		st.sampled_from((None, 8, 16)), st.integers(0, 63), st.integers(0, 63)),
		quick=800, rule='tree with at least two words and phrases')
def markup(arg):
	"""HTML, ANSI, SVG and TikZ show exactly the labels and words, with
	special characters escaped, and give the right parts a colour."""
	(spec, sent), sep, msep, width, hl, hlfunc = arg
	if known(spec):
		return ()
	tree = gens.mk(spec, Tree)
	drawing = DrawTree(tree, sent, highlight=list(tree.subtrees())
			+ list(range(len(sent))))
	if (set(drawing.highlight) != set(drawing.nodes)
			or any(graphemelength(a) > 8 for a in sent)):
		return ()
	inner = [a for a in drawing.nodes if isinstance(drawing.nodes[a], Tree)]
	plain = DrawTree(tree, sent).text(maxwidth=width)
	ansi = drawing.text(ansi=True, funcsep=sep, maxwidth=width)
	same(re.sub('\x1b\\[[0-9;]*m', '', ansi), plain, 'ANSI instead of text')
	html = Markup()
	html.feed(drawing.text(html=True, funcsep=sep, maxwidth=width))
	same(html.text, plain, 'HTML instead of text')
	same(html.stack, [], 'unclosed elements')
	# highlight part of the nodes and function tags
	subtrees = list(tree.subtrees())
	hls = [a for n, a in enumerate(subtrees) if hl >> n % 6 & 1]
	hlfuncs = [a for n, a in enumerate(subtrees) if hlfunc >> n % 6 & 1]
	part = DrawTree(tree, sent, highlight=hls, highlightfunc=hlfuncs)
	same(part.text(funcsep=sep, maxwidth=width), plain, 'text')
	ansi = part.text(ansi=True, funcsep=sep, maxwidth=width)
	same(re.sub('\x1b\\[[0-9;]*m', '', ansi), plain, 'ANSI instead of text')
	html = Markup()
	html.feed(part.text(html=True, funcsep=sep, maxwidth=width))
	same(html.text, plain, 'HTML instead of text')
	same(html.stack, [], 'unclosed elements')
	colours = dict(nodecolor='red', leafcolor='yellow', funccolor='green')
	ansi = part.text(ansi=True, funcsep=sep, maxwidth=None, **colours)
	hasfunc = [a for a in subtrees if sep and sep in a.label
			and a.label not in PTBPUNC]
	same(Counter(a.strip() for a in re.findall(
			'\x1b\\[%d;1m([^\x1b]+)' % ANSICOLOR['green'], ansi)
			if a.strip()), Counter(a.label.rsplit(sep, 1)[1] for a in hasfunc
			if a in (hlfuncs or hls or subtrees) and not a.label.endswith(sep)),
			'coloured functions')
	same(Counter(a.strip() for a in re.findall(
			'\x1b\\[%d;1m([^\x1b]+)' % ANSICOLOR['red'], ansi)), Counter(b for b in (a.label.rsplit(sep, 1)[0]
				if a in hasfunc else a.label for a in subtrees
				if a in (hls or subtrees)) if b), 'coloured labels')
	wide = DrawTree(tree, sent).text(maxwidth=None)
	html = Markup()
	html.feed(drawing.text(html=True, funcsep=sep, morphsep=msep,
			nodeprops='t', maxwidth=None))
	same(html.text, wide, 'HTML with properties')
	got = {}
	for tag, attrs, text in html.found:
		if tag == 'span':
			same(set(attrs), {'class', 'data-id', 'data-s'}, 'attributes')
			got.setdefault(attrs['data-id'], []).append(
					(attrs['class'], attrs['data-s'], text.strip()))
	same(set(got), {'t_%d' % a for a in inner}, 'ids of nodes')
	for n in inner:
		node = drawing.nodes[n]
		label = node.label
		spec1 = '%s %s' % (label, spans(node.leaves()))
		parts = got['t_%d' % n]
		same({a[1] for a in parts}, {spec1}, 'span of node')
		same(parts[-1], ('p' if isinstance(node[0], int) else 'n', spec1,
				label), 'main part of node')
		same([a[0] for a in parts[:-1]], [a for a, b in
				(('f', sep and sep in label and label not in PTBPUNC),
				('m', msep and msep in label)) if b], 'parts of %s', label)
	svg = drawing.svg(funcsep=sep)
	elements = list(fromstring(svg))
	texts = [a for a in elements if a.tag.endswith('text')]
	same([''.join(a.itertext()) for a in texts],
			[drawing.nodes[n].label if n in inner else drawing.nodes[n]
				for n in drawing.coords], 'text in SVG')
	place = {n: (float(a.get('x')), float(a.get('y')))
			for n, a in zip(drawing.coords, texts)}
	lines = Counter(tuple(tuple(map(float, b.split(',')))
			for b in a.get('points').split()) for a in elements
			if a.tag.endswith('polyline') and 'black' in a.get('style'))
	want = Counter()
	for n in inner:
		x, y = place[n]
		kids = [place[a] for a in drawing.edges if drawing.edges[a] == n]
		same(Counter((drawing.nodes[a].label if a in inner
				else drawing.nodes[a]) for a in drawing.edges
				if drawing.edges[a] == n),
				Counter(a.label if isinstance(a, Tree) else sent[a]
					for a in drawing.nodes[n]), 'children')
		mid = [a for a in lines if len(a) == 2 and a[0][1] == a[1][1]
				and {a[0][0], a[1][0]} == {min(kids)[0], max(kids)[0]}
				and y < a[0][1] < min(b for _, b in kids)]
		check(mid, 'no horizontal line for node %s', drawing.nodes[n])
		mid = min(mid, key=lambda a: a[0][1])
		want[mid] += 1
		want[(x, mid[0][1]), (x, mid[0][1] - 4)] += 1
		for a, b in kids:
			want[(a, b - 12), (a, mid[0][1])] += 1
	same(lines, want, 'lines in SVG')
	for n, a in zip(drawing.coords, texts):
		tspans = [(b.get('style').split()[1].strip(';'), b.text or '')
				for b in a]
		if n in inner:
			cat, func = splitlabel(drawing.nodes[n].label, sep)
			same(tspans[0], ('blue', cat), 'category in SVG')
			same([b for _, b in tspans[1:]], [func[1:]] if func else [],
					'function in SVG')
		else:
			same(tspans, [('red', drawing.nodes[n])], 'word in SVG')
	for tikz in (drawing.tikzmatrix(funcsep=sep),
			drawing.tikznode(funcsep=sep)):
		found = {int(a): b for a, b in re.findall(
				r'node \(n([0-9]+)\) \{ (.*?) \}(?=;|\n)', tikz)}
		same(set(found), set(drawing.nodes), 'nodes in TikZ')
		for n, code in found.items():
			if n in inner:
				cat, func = splitlabel(drawing.nodes[n].label, sep)
				m = re.match(r'\\textcolor\{blue\}\{(.*?)\}'
						r'(?:-\\textcolor\{green\}\{(.*)\})?$', code)
				check(m is not None, 'code for node: %r', code)
				same(texdecode(m.group(1)), cat, 'category in TikZ')
				same(texdecode(m.group(2) or ''), func[1:], 'function in TikZ')
			else:
				m = re.match(r'\\textcolor\{red\}\{(.*)\}$', code)
				check(m is not None, 'code for word: %r', code)
				same(texdecode(m.group(1)), drawing.nodes[n], 'word in TikZ')
	if not gens.isdisc(spec) and gens.canonspec(spec) == spec:
		qtree = drawing.tikzqtree()
		same([texdecode(a) for a in re.findall(
				r'(?<=[ \n])\{(.*?)\}(?= \]| [{\[]|\n)',
				qtree[qtree.index('\\Tree'):])], sent, 'words in qtree')
		same([texdecode(a) for a in re.findall(r'\[\.(\S+)(?=\s)',
				qtree[qtree.index('\\Tree'):])],
				[a.label for a in tree.subtrees()], 'labels in qtree')
	return gens.classify(spec)

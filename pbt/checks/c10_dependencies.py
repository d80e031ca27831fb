"""Dependency conversion of head-marked trees."""
import re
from html import unescape
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, DrawDependencies, HEAD
from discodop import treebank
from discodop.treebank import dependencies, deplen, writetree, FIELDS, FUNC
import gens

NEED = ('bit', )
ASSUMPTIONS = ['every phrasal node has a child marked as head']
funcs = st.sampled_from(['--', '', 'SB', 'OA', 'MO-X', 'HD', 'A&B'])


@st.composite
def headmarked(draw):
	"""(spec, sent, index of head child of each phrasal node, functions)."""
	spec, sent = draw(gens.treesents(root='ROOT', maxleaves=9, shuffle=True,
			word=st.sampled_from(('a', 'b', 'x&y', '<b>', '"', 'longerword', '.'))))
	nodes = gens.nodesof(spec)
	heads = [0 if gens.ispre(a) else draw(st.integers(0, len(a[1]) - 1))
			for a in nodes]
	return spec, sent, heads, [draw(st.none() | funcs) for _ in nodes]


def build(case):
	spec, sent, heads, functions = case
	tree = gens.mk(spec, ParentedTree)
	for n, (a, head, func) in enumerate(zip(
			list(tree.subtrees()), heads, functions)):
		if isinstance(a[0], Tree):
			a[head].type = HEAD
		if func is not None:
			a.source = ['--'] * len(FIELDS)
			a.source[FUNC] = func
			if (n + head) % 3 == 0:  # secondary edge
				a.source.extend(['XX', '500'])
	return tree


def reference(case):
	"""Dictionary mapping dependents to (label, head)."""
	spec, sent, heads, functions = case
	nodes = gens.nodesof(spec)
	head = {id(a): b for a, b in zip(nodes, heads)}
	func = {id(a): b for a, b in zip(nodes, functions)}

	def lex(a):
		while not gens.ispre(a):
			a = a[1][head[id(a)]]
		return a[1][0] + 1
	result = {}
	for a in nodes:
		if gens.ispre(a):
			continue
		for n, b in enumerate(a[1]):
			if a is spec:
				result[lex(b)] = ('root', 0)
			elif n != head[id(a)]:
				f = func[id(b)]
				result[lex(b)] = (f if f not in (None, '', '--') else '-',
						lex(a))
	return result


@prop(headmarked(), quick=2500, rule='three or more words')
def conversion(arg):
	"""Every word depends exactly once, on the lexical head of the constituent
	it heads a child of, or the root; labels are functions; the graph is a
	forest below the root; CoNLL and MST output have the same content."""
	spec, sent, heads, functions = arg
	tree = build(arg)
	want = reference(arg)
	deps = dependencies(tree)
	same([a for a, _, _ in deps], list(range(1, len(sent) + 1)), 'dependents')
	same({a: (b, c) for a, b, c in deps}, want, 'dependencies')
	same(gens.unmk(tree), spec, 'tree was modified')
	for n in range(1, len(sent) + 1):  # follow heads to root
		seen = set()
		while n:
			check(n not in seen, 'cycle')
			seen.add(n)
			n = want[n][1]
	tags = {a[1][0]: a[0] for a in gens.nodesof(spec) if gens.ispre(a)}
	conll = writetree(tree, sent, '1', 'conll')
	check(conll.endswith('\n\n'), 'blank line')
	rows = [a.split('\t') for a in conll.rstrip('\n').split('\n')]
	same([(a[0], a[1], a[3], a[4], a[6], a[7]) for a in rows],
			[(str(n + 1), w, tags[n], tags[n], str(want[n + 1][1]),
				want[n + 1][0]) for n, w in enumerate(sent)], 'conll')
	check(all(len(a) == 10 for a in rows), 'ten columns')
	mst = writetree(tree, sent, '1', 'mst')
	same(mst, '%s\n%s\n%s\n%s\n\n' % ('\t'.join(sent),
			'\t'.join(tags[n] for n in range(len(sent))),
			'\t'.join(want[n + 1][0] for n in range(len(sent))),
			'\t'.join(str(want[n + 1][1]) for n in range(len(sent)))), 'mst')
	total = [abs(n - h) for n, (_, h) in want.items() if h]
	same(deplen(deps), (sum(total), len(total)), 'deplen')
	result = gens.classify(spec)
	if len(spec[1]) > 1:
		result.append('multiroot')
	return result if len(sent) > 2 else []


@prop(headmarked(), quick=800, rule='three or more words')
def drawing(arg):
	"""Dependencies written in CoNLL format are read back for drawing, and
	the drawing has every word, tag, arc and label."""
	spec, sent, heads, functions = arg
	tree = build(arg)
	deps = dependencies(tree)
	dep = DrawDependencies.fromconll(writetree(tree, sent, '1', 'conll'))
	same(dep.sent, sent, 'words')
	same(dep.pos, [a for _, a in sorted(tree.pos())], 'tags')
	same([tuple(a) for a in dep.deps], deps, 'dependencies')
	# fine-grained tags are preferred, if available
	rows = [a.split('\t') for a in writetree(tree, sent, '1', 'conll'
			).splitlines() if a]
	for n, a in enumerate(rows):
		a[4] = ('FINE%d' % n, '--', '-')[(n + len(rows)) % 3]
	fine = DrawDependencies.fromconll('\n'.join(
			'\t'.join(a) for a in rows) + '\n\n')
	same(fine.pos, [a[4] if a[4].strip('-') else a[3] for a in rows],
			'fine-grained tags')
	same((fine.sent, list(fine.deps)), (sent, list(dep.deps)), 'same words')
	svg = dep.svg()

	def found(pattern):
		return [a[:-1] + (unescape(a[-1]), ) for a in re.findall(pattern, svg)]
	same(re.sub(r'&(?:amp|lt|gt|quot|#x27);', '', svg).count('&'), 0,
			'unescaped ampersand')
	same(found(r'class="word w(\d+)"[^>]*>([^<]*)</'),
			[('0', 'ROOT')] + [(str(n), w) for n, w in enumerate(sent, 1)],
			'words')
	same([b for _, b in found(r'class="tag w(\d+)"[^>]*>([^<]*)</')],
			dep.pos, 'tags')
	same(re.findall(r"class='edge w(\d+) w(\d+)'", svg),
			[(str(h), str(n)) for n, _, h in deps], 'arcs')
	same(found(r'class="dependency w(\d+) w(\d+)"[^>]*>([^<]*)</'),
			[(str(h), str(n), f) for n, f, h in deps], 'labels')
	xpos = {int(a): int(b) for a, b in re.findall(
			r'class="word w(\d+)" x=(\d+)', svg)}
	same(list(xpos.values()), sorted(set(xpos.values())),
			'words from left to right')
	width, height = map(int, re.search(
			r'<svg [^>]*width=(\d+) height=(\d+)', svg).groups())
	for x, y in re.findall(r'<text [^>]*x=(\d+) y=(-?\d+)', svg):
		check(int(x) < width and 0 <= int(y) <= height,
				'text at %s, %s outside of drawing', x, y)
	tops = {}
	for h, n, path in re.findall(r"class='edge w(\d+) w(\d+)' d='([^']*)'",
			svg):
		h, n = int(h), int(n)
		start, _, _, top, _, _, end, _ = map(int, re.findall('-?[0-9]+', path))
		check(0 <= start - xpos[h] <= 20 and abs(end - xpos[n]) <= 2,
				'arc from %d to %d starts at %d and ends at %d; %r',
				h, n, start, end, xpos)
		tops[min(n, h), max(n, h)] = top
		check(top >= -1, 'arc from %d to %d outside of drawing', h, n)
	for a, b in tops:
		for c, d in tops:
			if (a, b) != (c, d) and a <= c and d <= b:
				check(tops[a, b] < tops[c, d],
						'arc %r is drawn below arc %r', (a, b), (c, d))
	return gens.classify(spec) if len(sent) > 2 else []

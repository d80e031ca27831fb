"""Head rules."""
import os
import shutil
import tempfile
from contextlib import contextmanager
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop import heads
from discodop.heads import (applyheadrules, getheadpos, readheadrules,
		headfinder, readmodifierrules, saveheads, headstats)
from discodop.tree import Tree, ParentedTree, HEAD, COMPLEMENT, MODIFIER
from discodop.treebank import FIELDS, FUNC, READERS, writetree
from discodop.treetransforms import binarize, unbinarize
from discodop.punctuation import PUNCTTAGS, PUNCTUATION
import gens

# modifier rules use a function from treebanktransforms, which needs containers
NEED = ('bit', 'containers')

LABELS = ('NP', 'VP', 'PP', 'Srel', 'CC', 'CONJP', 'NP[x]')
POS = ('NN', 'VB', 'CC', '$,', '.', 'PUNCT', 'nn', 'Adv', ',')
ruleheads = st.sampled_from(['NP', 'VP', 'PP', 'SREL', 'CC', 'NN', 'VB', 'ADV',
		'$,', 'XX'])
direction = st.sampled_from(['left', 'right', 'leftdis', 'rightdis',
		'left-to-right', 'right-to-left', 'LEFT', 'Right'])


@contextmanager
def scratch():
	path = tempfile.mkdtemp(prefix='heads-', dir='.')
	try:
		yield path
	finally:
		shutil.rmtree(path)


@st.composite
def rules(draw):
	"""Lines of rule file: (label, direction, [heads])."""
	result = []
	for _ in range(draw(st.integers(0, 8))):
		label = draw(st.sampled_from(['S', 'NP', 'VP', 'PP', 'Srel', 'srel',
				'ROOT', 'np', 'N%', 'PP']))
		seen = {a[0].upper() for a in result}
		if seen and draw(st.integers(0, 5)) == 0:
			result.append((label, 'like', [draw(st.sampled_from(
					sorted(seen)))]))
		else:
			result.append((label, draw(direction), draw(st.lists(ruleheads,
					max_size=4))))
	return result


def expandrules(lines):
	result = {}
	for label, d, args in lines:
		if d == 'like':
			result.setdefault(label.upper(), []).extend(
					list(result[args[0].upper()]))
		else:
			result.setdefault(label.upper(), []).append((d.upper(), args))
	return result


def basic(label):
	return label.split('[')[0].upper()


def ispunct(label):
	return label in PUNCTTAGS


def refhead(label, children, table):
	"""Index of head given labels of children, per documentation."""
	n = len(children)
	order = list(range(n))
	head = None
	for d, args in table.get(label.upper(), []):
		order = list(range(n)) if d.startswith('LEFT') else list(
				range(n - 1, -1, -1))
		if d.endswith('DIS'):
			cand = [i for i in order if basic(children[i]) in args]
			head = cand[0] if cand else None
		else:
			cand = [(args.index(basic(children[i])), k, i)
					for k, i in enumerate(order) if basic(children[i]) in args]
			head = min(cand)[2] if cand else None
		if head is not None:
			break
	if head is None:
		for i in order:
			if not ispunct(children[i]):
				return i
		return order[0]
	if head >= 2 and children[head - 1] in ('CC', 'CONJP'):
		for i in range(head - 2, -1, -1):
			if not ispunct(children[i]) and children[i] not in PUNCTUATION:
				return i
	return head


@st.composite
def cases(draw):
	spec = draw(gens.specs(phrasal=LABELS, pos=POS, root='ROOT', maxleaves=9,
			shuffle=True, maxarity=6))
	marks = [draw(st.sampled_from([None] * 7 + ['HD', 'SB-HD', 'hd', 'SB', '--',
			'type'])) for _ in gens.nodesof(spec)]
	lines = draw(rules())
	if draw(st.booleans()):  # coordination of constituents with the same label
		for a in gens.nodesof(spec):
			if len(a[1]) > 2 and draw(st.booleans()):
				k = draw(st.integers(2, len(a[1]) - 1))
				label = draw(st.sampled_from(('NP', 'NN')))
				a[1][k][0] = a[1][draw(st.integers(0, k - 2))][0] = label
				a[1][k - 1][0] = draw(st.sampled_from(('CC', 'CONJP', 'CC', ',')))
				if a[0].isalpha() and draw(st.booleans()):
					lines.append((a[0], draw(st.sampled_from(('right', 'left',
							'rightdis'))), ['VB', label]))
	return spec, lines, marks


def refheads(case):
	spec, lines, marks = case
	table = expandrules(lines)
	nodes = gens.nodesof(spec)
	mark = {id(a): b for a, b in zip(nodes, marks)}
	result = []
	for a in nodes:
		if gens.ispre(a):
			result.append(None)
			continue
		given = [n for n, b in enumerate(a[1]) if mark[id(b)] == 'type'
				] or [n for n, b in enumerate(a[1])
				if 'HD' in (mark[id(b)] or '').upper().split('-')]
		result.append(given[0] if given else refhead(
				a[0], [b[0] for b in a[1]], table))
	return result


def rulefile(lines, path):
	with open(path, 'w', encoding='utf8') as out:
		out.write('% comment left X\n\n')
		for n, (a, b, c) in enumerate(lines):
			out.write('%s%s%s%s %s%s' % (' ' * (n % 5 == 3), a,
					'\t' if n % 3 == 0 else ' ', b,
					' '.join(c), (' \n\n', '\n', '  \t\n% np left nn\n',
					'\r\n', '\n%s left nn\n', '\n  %vp  right nn vb\n',
					'\nPP\n', '\n np \n')[n % 8]))


def build(case):
	spec, _, marks = case
	tree = gens.mk(spec, ParentedTree)
	for a, b in zip(list(tree.subtrees()), marks):
		if b == 'type':
			a.type = HEAD
		elif b is not None:
			a.source = ['--'] * len(FIELDS)
			a.source[FUNC] = b
	return tree


@prop(cases(), quick=4000, rule='rules apply in a tree with several words')
def head_assignment(arg):
	"""Every constituent gets the head that the documented interpretation of
	the head rules selects; explicitly marked heads take precedence."""
	spec, lines, marks = arg
	with scratch() as path:
		rulefile(lines, path + '/x.headrules')
		table = readheadrules(path + '/x.headrules')
	same({a: [(x, y) for x, y in b] for a, b in table.items()},
			expandrules(lines), 'rules read from file')
	want = refheads(arg)
	tree = build(arg)
	nodes = list(tree.subtrees())
	for node, head in zip(nodes, want):
		if head is not None:
			check(headfinder(node, table) is node[head], 'headfinder: %s: '
					'expected %d', node, head)
	for node in nodes:  # partial annotation
		x = node
		while x is not None and isinstance(x[0], Tree):
			x = next((a for a in x if a.type == HEAD), None)
		check(getheadpos(node) is x, 'getheadpos of partially annotated tree')
	applyheadrules(tree, table)
	same(gens.unmk(tree), spec, 'tree was modified')
	for node, head in zip(nodes, want):
		if head is not None:
			check(node[head].type == HEAD, 'head not marked: %s: expected %d',
					node, head)
			same([n for n, a in enumerate(node) if a.type == HEAD
					and marks[[m for m, b in enumerate(nodes) if b is a][0]]
					!= 'type' and n != head], [], 'spurious heads')
	# lexical heads
	idx = {id(a): b for a, b in zip(nodes, want)}
	for node in nodes:
		x = node
		while isinstance(x[0], Tree):
			typed = [a for a in x if a.type == HEAD]
			x = typed[0]
		check(getheadpos(node) is x, 'getheadpos')
	labels = {a[0].upper() for a in gens.nodesof(spec) if len(a[1]) > 1}
	result = []
	if labels & set(expandrules(lines)):
		result.append('rules')
		result.extend(gens.classify(spec))
	if any(a is not None for a in marks):
		result.append('marked')
	return result if 'rules' in result else []


@prop(cases(), quick=500, rule='several words')
def reader_heads(arg):
	"""Corpus reader with head rules marks the same heads."""
	spec, lines, _ = arg
	nodes = gens.nodesof(spec)
	sent = ['w'] * len(gens.leavesof(spec))
	with scratch() as path:
		rulefile(lines or [('S', 'left', ['X'])], path + '/x.headrules')
		with open(path + '/a.dbr', 'w') as out:
			out.write(writetree(gens.mk(spec, ParentedTree), sent, '1',
					'discbracket'))
		tree, = READERS['discbracket'](path + '/a.dbr', headrules=path
				+ '/x.headrules').trees().values()
	want = refheads((spec, lines, [None] * len(nodes)))
	same([[n for n, b in enumerate(a) if isinstance(b, Tree)
			and b.type == HEAD] for a in tree.subtrees()],
			[[] if b is None else [b] for b in want], 'heads')
	return len(sent) > 2


@st.composite
def modifiers(draw):
	mods = ['NP', 'VP', 'PP', 'Srel', '*-MOD', 'NP-MOD', 'NN', 'ADV-*', '*-OA',
			'PP-*']
	table = draw(st.dictionaries(st.sampled_from(['S', 'NP', 'VP', 'srel', '*',
			'ROOT']), st.lists(st.sampled_from(mods), min_size=1, max_size=3),
			max_size=4))
	spec = draw(gens.specs(phrasal=('NP', 'VP', 'PP', 'Srel', 'S', 'S-X',
			'NP-Y'), pos=('NN', 'VB', 'Adv'), root='ROOT', maxleaves=8))
	funcs = [draw(st.sampled_from(['--', 'MOD', 'OA', 'MOD-X', 'mod', 'MODX', 'O',
			'X-MOD']))
			for _ in gens.nodesof(spec)]
	return spec, table, funcs, draw(rules())


@prop(modifiers(), quick=1200, rule='modifier rules match')
def modifier_marking(arg):
	"""Non-head children are marked as complement or modifier according to
	the rules (in any case), function tags, and repetition of labels."""
	spec, table, funcs, lines = arg
	with scratch() as path:
		with open(path + '/x.modifierrules', 'w') as out:
			out.write('% comment\n')
			for a in table:
				sep = ' \t '[len(table[a]) % 2:][:len(a) % 2 + 1]
				out.write('%s%s%s\n' % (a, sep, '  '.join(table[a])))
		modrules = readmodifierrules(path + '/x.modifierrules')
		with open(path + '/y.modifierrules', 'w') as out:
			out.write('NP X\nnp Y\n')
		raises(ValueError, readmodifierrules, path + '/y.modifierrules')
	table = {a.upper(): [b.upper() for b in table[a]] for a in table}
	same(modrules, table, 'modifier rules')
	tree = gens.mk(spec, ParentedTree)
	for a, b in zip(list(tree.subtrees()), funcs):
		a.source = ['--'] * len(FIELDS)
		a.source[FUNC] = b
	applyheadrules(tree, expandrules(lines), modrules)
	heads_ = refheads((spec, lines, [None] * len(funcs)))
	result = set()
	for a, head in zip(list(tree.subtrees()), heads_):
		if head is None:
			continue
		prev = None
		for n, b in enumerate(a):
			if n == head:
				check(b.type == HEAD, 'head')
				continue
			want = COMPLEMENT
			for mod in table.get(a.label.split('-')[0].upper(), []
					) + table.get('*', []):
				cat, _, func = mod.partition('-')
				if cat in ('*', b.label.split('-')[0].upper()) and (
						func in ('', '*')
						or func == b.source[FUNC].split('-')[0].upper()):
					want = MODIFIER
					result.add('rule')
			if b.label == prev:
				want = MODIFIER
				result.add('repeated')
			same(b.type, want, 'type of %s below %s', b, a)
			prev = b.label
	return result


@prop(st.tuples(gens.specs(phrasal=('S', 'NP', 'A*', 'VP_2', '$tail$'),
		root='ROOT', maxleaves=9, maxarity=6, unary=True),
		st.lists(st.integers(0, 5), min_size=40, max_size=40),
		st.sampled_from(['', '*', '$tail$']), st.integers(0, 3)), quick=1000,
		rule='some node with three or more children')
def saved_heads(arg):
	"""Heads of constituents with more than two children are recovered from a
	head-outward binarization with a final unary."""
	spec, heads_, tailmarker, h = arg
	tree = gens.mk(spec, ParentedTree)
	want = {}
	for a, b in zip(list(tree.subtrees()), heads_):
		if isinstance(a[0], Tree):
			a[b % len(a)].type = HEAD
			if len(a) > 2:
				want[a.label, tuple(sorted(a.leaves())), a.height()] = (
						b % len(a))
	binarize(tree, factor='right', horzmarkov=h, headoutward=True,
			rightmostunary=True, tailmarker=tailmarker)
	tree2 = ParentedTree.parse(str(tree), parse_leaf=int)  # without types
	saveheads(tree2, tailmarker)
	unbinarize(tree2, expandunary=False)
	got = {}
	for a in tree2.subtrees():
		if isinstance(a[0], Tree) and len(a) > 2:
			got[a.label, tuple(sorted(a.leaves())), a.height()] = [
					n for n, b in enumerate(a) if b.type == HEAD]
	same(got, {a: [b] for a, b in want.items()}, 'heads')
	return bool(want)


@prop(st.lists(cases(), min_size=1, max_size=3), quick=300,
		rule='several words')
def statistics(arg):
	"""headstats counts the heads of constituents, their position from left
	and right, and the children of headless constituents."""
	want = {}
	for spec, lines, marks in arg:
		for a, h in zip(gens.nodesof(spec), refheads((spec, lines,
				[None] * len(marks)))):
			if len(a[1]) > 1:
				n = len(a[1])
				for x in (('h', a[0], a[1][h][0]), ('1', a[0], h),
						('2', a[0], n - 1 - h)):
					want[x] = want.get(x, 0) + 1
	trees = [gens.mk(a[0], ParentedTree) for a in arg]
	_, unknown, _, _ = headstats(trees)
	plain = {}
	for spec, _, _ in arg:
		for a in gens.nodesof(spec):
			for b in a[1] if len(a[1]) > 1 else ():
				plain[a[0], b[0]] = plain.get((a[0], b[0]), 0) + 1
	same({(a, b): c for a, x in unknown.items() for b, c in x.items()}, plain,
			'unknown')
	for tree, (_, lines, _) in zip(trees, arg):
		applyheadrules(tree, expandrules(lines))
	heads_, unknown, pos1, pos2 = headstats(trees)
	check(not any(unknown.values()), 'no unknown heads')
	got = {}
	for name, x in (('h', heads_), ('1', pos1), ('2', pos2)):
		for a in x:
			for b, c in x[a].items():
				got[name, a, b] = c
	same(got, want, 'counts')
	return len(want) > 3

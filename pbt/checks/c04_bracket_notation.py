"""Bracket notations: what is written is what is read; malformed is refused."""
import re
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import (Tree, ParentedTree, ImmutableTree,
		brackettree, discbrackettree, writebrackettree, writediscbrackettree,
		escape, unescape, ptbescape, ptbunescape, frontier)
import gens

NEED = ('bit', )
ASSUMPTIONS = ['words and labels contain no whitespace',
		'words do not contain the escape sequences #LRB# #RRB# #FRONTIER#, '
		'which are reserved',
		'in the bracket format, every word is dominated by its own preterminal '
		'node']

WORDCHARS = '()[]{}/\\=#<>&"\'-_.,:;|^@%$*+0123456789abZé日\u0301😀'
LABELCHARS = '[]{}/\\=#<>&"\'-_.,:;|^@%$*+0123456789abZé日'
reserved = re.compile('#LRB#|#RRB#|#FRONTIER#')
word = st.one_of(
		st.sampled_from(['(', ')', '((', '-LRB-', '0', '12', '1=', '0=a', '=',
			'a=b', '[', ']', '{', '}', '/', '\\/', '#', 'walks', 'Mary', '-LCB-',
			'#500', 'a)b', '(a', '.', "''", 'None', '()', '#LRB', 'LRB#',
			'))', 'x(', '#)', '*']),
		st.text(WORDCHARS, min_size=1, max_size=5)).filter(
			lambda x: not reserved.search(x))
label = st.one_of(st.sampled_from(['S', 'NP', 'VP', 'NP-SBJ', 'S|<NP,VP>',
		'$,', '-LRB-', '-NONE-', 'NP|<>', 'X^<Y>', '1', '23', '0=a', 'N=1']),
		st.text(LABELCHARS, min_size=1, max_size=4))




@prop(st.tuples(st.booleans().flatmap(lambda preterm: gens.specs(maxleaves=8,
			phrasal=label, pos=label, preterm=preterm)),
		st.lists(st.one_of(word, word, word, st.none()),
			min_size=8, max_size=8), st.booleans()),
		quick=3000, rule='more than one word, or a word that needs escaping')
def discbracket_roundtrip(arg):
	"""discbracket: read(write(tree, sent)) == (tree, sent)."""
	spec, words, pretty = arg
	n = len(gens.leavesof(spec))
	sent = words[:n]
	for cls in (Tree, ParentedTree, ImmutableTree):
		tree = gens.mk(spec, cls)
		text = writediscbrackettree(tree, sent, pretty=pretty)
		check(text.endswith('\n'), 'no newline')
		check(pretty or '\n' not in text[:-1], 'newline in tree')
		for func in (discbrackettree, brackettree):
			tree2, sent2 = func(text)
			same(gens.unmk(tree2), spec, '%s: tree of %r', func.__name__, text)
			same(sent2, sent, '%s: sentence of %r', func.__name__, text)
			check(isinstance(tree2, ParentedTree), 'result class')
		same(gens.unmk(tree), spec, 'writing changes tree')
	tree2, sent2 = brackettree(
			writediscbrackettree(tree, sent).replace('))', ') )'))
	same((gens.unmk(tree2), sent2), (spec, sent), 'with superfluous spaces')
	result = gens.classify(spec)
	if any(a and set('()=') & set(a) for a in sent):
		result.append('escaped')
	if None in sent:
		result.append('nullword')
	return result


@prop(st.tuples(gens.specs(maxleaves=8, disc=False, phrasal=label, pos=label),
		st.lists(st.one_of(word, word, word, st.none()),
			min_size=8, max_size=8), st.sampled_from(['', ' ', '\n  ', '\t'])),
		quick=3000, rule='more than one word, or a word that needs escaping')
def bracket_roundtrip(arg):
	"""bracket: read(write(tree, sent)) == (tree, sent) for continuous trees;
	whitespace between brackets is not significant."""
	spec, words, ws = arg
	n = len(gens.leavesof(spec))
	sent = words[:n]
	for cls in (Tree, ParentedTree, ImmutableTree):
		tree = gens.mk(spec, cls)
		text = writebrackettree(tree, sent)
		check(text.endswith('\n') and '\n' not in text[:-1], 'newline')
		tree2, sent2 = brackettree(text, detectdisc=False)
		same(gens.unmk(tree2), spec, 'tree of %r', text)
		same(sent2, sent, 'sentence of %r', text)
		check(isinstance(tree2, ParentedTree), 'result class')
	if not all(a is not None and re.match('[0-9]+=', a) for a in sent):
		tree2, sent2 = brackettree(text)
		same((gens.unmk(tree2), sent2), (spec, sent),
				'auto detected format of %r', text)
	text2 = re.sub(r'\)(?=\))', ')' + ws, text.replace(' (', ws + ' ('))
	tree2, sent2 = brackettree(text2, detectdisc=False)
	same((gens.unmk(tree2), sent2), (spec, sent),
			'with extra whitespace: %r', text2)
	result = gens.classify(spec)
	if any(a and set('()=') & set(a) for a in sent):
		result.append('escaped')
	if None in sent:
		result.append('nullword')
	return result


@prop(word, quick=2000, rule='word containing a character to be escaped')
def escaping(arg):
	"""Escaping is reversible and removes the brackets."""
	x = escape(arg)
	check('(' not in x and ')' not in x, 'brackets in %r', x)
	same(unescape(x), arg, 'unescape(escape())')
	if not set('()') & set(arg):
		same(x, arg, 'escape without brackets')
	same(x.replace('#LRB#', '(').replace('#RRB#', ')'), arg, 'escape()')
	same((escape(None), unescape(''), unescape('#FRONTIER#')),
			('', None, None), 'null words')
	y = ptbescape(arg)
	check('(' not in y and ')' not in y, 'brackets in %r', y)
	if not re.search(r'-[LR][RCS]B-|\\/', arg):
		same(ptbunescape(y), arg, 'ptbunescape(ptbescape())')
		same(ptbunescape(x), arg, 'ptbunescape(escape())')
	if not re.search(r'[()/]|[LR][RCS]B', arg):
		for a in ('-LSB-', '-RCB-'):  # only separate brackets are replaced
			same(ptbunescape(a + arg), a + arg if arg else
					{'-LSB-': '[', '-RCB-': '}'}[a], 'part of a word')
	same([ptbescape(a) for a in '(){}[]/'] + [ptbescape(None)],
			['-LRB-', '-RRB-', '-LCB-', '-RCB-', '-LSB-', '-RSB-', '\\/', ''],
			'ptbescape')
	same([ptbunescape(a) for a in ('', None, '#FRONTIER#')], [None] * 3,
			'ptbunescape of null words')
	return set('()[]{}/') & set(arg) and ['escaped']


def refparse(text):
	"""Reference parser for '(label children ...)'; returns None if invalid."""
	pos = 0
	n = len(text)
	stack = [['', []]]
	while pos < n:
		c = text[pos]
		if c.isspace():
			pos += 1
			continue
		if c == '(':
			if len(stack) == 1 and stack[0][1]:
				return None
			pos += 1
			while pos < n and text[pos].isspace():
				pos += 1
			start = pos
			while pos < n and not (text[pos].isspace() or text[pos] in '()'):
				pos += 1
			stack.append([text[start:pos], []])
		elif c == ')':
			if len(stack) == 1:
				return None
			node = stack.pop()
			stack[-1][1].append(node)
			pos += 1
		else:
			start = pos
			while pos < n and not (text[pos].isspace() or text[pos] in '()'):
				pos += 1
			if len(stack) == 1:
				return None
			stack[-1][1].append(text[start:pos])
	if len(stack) > 1 or len(stack[0][1]) != 1:
		return None
	return stack[0][1][0]


@st.composite
def nearly(draw):
	"""Text of a tree with a few edits."""
	spec, sent = draw(gens.treesents(maxleaves=5))
	text = list(writediscbrackettree(gens.mk(spec, Tree), sent).strip()
			if draw(st.booleans()) else str(gens.mk(spec, Tree)))
	for _ in range(draw(st.integers(0, 3))):
		pos = draw(st.integers(0, max(0, len(text) - 1)))
		op = draw(st.integers(0, 3))
		if op == 0 and text:
			del text[pos]
		elif op == 1:
			text.insert(pos, draw(st.sampled_from('()) (= 0a\n')))
		elif op == 2:
			text.append(draw(st.sampled_from(['(', ')', ' a', ' (A b)', ' '])))
		elif text:
			text[pos] = draw(st.sampled_from('() =0a'))
	return ''.join(text)


@prop(st.one_of(nearly(), st.text('() ab0=\n', max_size=12)), quick=5000,
		rule='text with a bracket and a label')
def malformed(arg):
	"""Any text is parsed as the notation says, or refused with ValueError."""
	want = refparse(arg)

	def conv(tree):
		return [tree.label, [conv(a) if isinstance(a, Tree) else a
				for a in tree]]
	if want is None:
		for func in (lambda: Tree.parse(arg, parse_leaf=str),
				lambda: ParentedTree.parse(arg),
				lambda: brackettree(arg), lambda: discbrackettree(arg),
				lambda: brackettree(arg, detectdisc=False)):
			raises(ValueError, func)
		result = ['refused']
	else:
		same(conv(Tree.parse(arg, parse_leaf=str)), want, 'parse')
		same(conv(ParentedTree.parse(arg, parse_leaf=str.upper,
				parse_label=lambda x: x.lower() + '!')),
				mapspec(want),
				'parse with functions')
		for func in (brackettree, discbrackettree,
				lambda x: brackettree(x, detectdisc=False)):
			try:
				tree, sent = func(arg)
			except ValueError:
				pass
			else:
				check(isinstance(tree, Tree) and isinstance(sent, list),
						'result type')
				for a in tree.leaves():
					check(isinstance(a, int) and 0 <= a < len(sent), 'leaf')
		result = ['accepted']
	return result if re.search(r'\( *[a-zA-Z]', arg) else ()


def mapspec(spec):
	if isinstance(spec, str):
		return spec.upper()
	return [spec[0].lower() + '!', [mapspec(a) for a in spec[1]]]


@prop(gens.treesents(maxleaves=7, word=st.one_of(word, st.none())),
		quick=500, rule='more than one word')
def frontier_display(arg):
	"""The colored frontier shows every word (or tag of a gap) in order."""
	spec, sent = arg
	tree = gens.mk(spec, Tree)
	got = re.sub('\x1b\\[[0-9;]*m', '', frontier(tree, sent))
	tags = {a[1][0]: a[0] for a in gens.nodesof(spec) if gens.ispre(a)}
	same(got, ' '.join(tags[n] if w is None else w
			for n, w in enumerate(sent)), 'frontier')
	return len(sent) > 1


@prop(st.tuples(gens.specs(maxleaves=8, phrasal=('S', 'NP-SBJ', 'X|<A,B>'),
		pos=('DT', '$,', 'N')), st.sampled_from([70, 30, 15, 5, 1]),
		st.sampled_from([0, 0, 3]), st.sampled_from(['()', '[]', '<>']),
		st.booleans(), st.lists(st.one_of(st.none(), st.sampled_from(('a', 'é',
			'-LRB-', '10', "'", 'many words'))), max_size=8)),
		quick=800, rule='tree is printed on several lines')
def printing(arg):
	"""Pretty printing puts constituents that fit on one line, and
	others on indented lines; the result is read back as the same tree."""
	spec, margin, indent, brackets, frozen, words = arg
	tree = gens.mk(spec, Tree)
	if len(words) >= len(tree.leaves()):  # leaves may also be strings
		frozen = False
		words = {a: words[a] for a in tree.leaves()}
		for node in tree.subtrees():
			node[:] = [a if isinstance(a, Tree) else words[a] for a in node]
	else:
		words = {a: '%d' % a for a in tree.leaves()}
	if frozen:
		tree = tree.freeze()

	def flat(a):
		return words[a] or '' if isinstance(a, int) else '%s%s %s%s' % (brackets[0],
				a[0], ' '.join(map(flat, a[1])), brackets[1])

	def pretty(a, ind):
		if isinstance(a, int) or len(flat(a)) + ind < margin:
			return flat(a)
		return '%s%s%s%s' % (brackets[0], a[0], ''.join('\n%s%s' % (
				' ' * (ind + 2), pretty(b, ind + 2)) for b in a[1]),
				brackets[1])
	text = tree.pprint(margin=margin, indent=indent, brackets=brackets)
	same(text, pretty(spec, indent), 'pprint')
	if '<' not in brackets and isinstance(tree.leaves()[0], int):
		text = text.replace(brackets[0], '(').replace(brackets[1], ')')
		same(gens.unmk(Tree.parse(text)), spec, 'restored')
		same(gens.unmk(ParentedTree.parse(text.replace('\n', '\t'))), spec,
				'restored')
	brackets = '()'
	same(str(tree), flat(spec), 'str')
	same(eval(repr(tree), {'Tree': Tree,  # pylint: disable=eval-used
			'ImmutableTree': type(tree)}), tree, 'repr')
	return '\n' in text


QUOTED = st.text(alphabet='ab ()é=', max_size=5)


@st.composite
def quoted(draw, depth=0):
	return (draw(QUOTED), [draw(QUOTED) if depth > 2 or draw(st.booleans())
			else draw(quoted(depth + 1))
			for _ in range(draw(st.integers(0, 3)))])


@prop(st.tuples(quoted(), st.sampled_from([' ', '  ', '\n'])), quick=500,
		rule='tree with at least two nodes')
def patterns(arg):
	"""With patterns, labels and leaves may consist of any characters."""
	spec, space = arg

	def render(a):
		return "'%s'" % a if isinstance(a, str) else '("%s"%s)' % (a[0],
				''.join(space + render(b) for b in a[1]))

	def conv(a):
		return (a.label, [conv(b) if isinstance(b, Tree) else b for b in a])
	tree = Tree.parse(render(spec), label_pattern='"[^"]*"',
			leaf_pattern="'[^']*'", parse_label=lambda x: x[1:-1],
			parse_leaf=lambda x: x[1:-1])
	same(conv(tree), spec, 'tree')
	tree = Tree.parse(render(spec), label_pattern='"[^"]*"',
			leaf_pattern="'[^']*'", parse_leaf=None)

	def quotes(a):
		return ('"%s"' % a[0], [("'%s'" % b) if isinstance(b, str)
				else quotes(b) for b in a[1]])
	same(conv(tree), quotes(spec), 'tree with quotes')
	return any(isinstance(a, tuple) for a in spec[1])

"""incrementaltreereader: find all trees in a stream of lines."""
import re
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, brackettree
from discodop.treebank import incrementaltreereader, writetree
import gens

NEED = ('bit', )
ASSUMPTIONS = ['after the first tree in bracket notation, other formats are '
		'not expected in the same stream',
		'text between trees has no unbalanced or nested parentheses']

word = st.sampled_from(gens.WORDS + ('(', ')', '((', '.', 'é', '1', '0=a', '-',
		'-LRB-', '#', '#EOS', '<b>', '&', '%%'[:1]))
text = st.lists(st.sampled_from(['foo', 'bar', '|', '12', '#', 'x=y', '"', '%',
		'é', '--', '0=a', '#BOSS', '[a]', '<a>', '(bar)', '(x y)', '(12 a b)']),
		min_size=1, max_size=3
		).map(' '.join)
ALP = dict(pos=('n', 'v', 'det'), phrasal=('S', 'NP', 'VP'), root='TOP')


def norm(tree):
	return gens.canonspec(gens.unmk(tree))


@st.composite
def broken(draw, string):
	"""Insert line breaks or spaces before opening brackets."""
	parts = string.split(' (')
	result = parts[0]
	for a in parts[1:]:
		result += draw(st.sampled_from([' ', ' ', '\n', '\n\t', '  ', '\n  ',
				'\n\n'])) + '(' + a
	return result


@st.composite
def streams(draw, fmts=('bracket', 'discbracket', 'export', 'alpino', 'mixed')):
	"""Generate text of stream, and the expected events."""
	fmt = draw(st.sampled_from(fmts))
	n = draw(st.integers(1, 4))
	data, events = [], []
	usetext = draw(st.booleans())
	for a in range(n):
		cur = fmt
		if fmt == 'mixed':
			cur = draw(st.sampled_from(['export', 'alpino']))
			if a == n - 1 and n > 1:
				cur = draw(st.sampled_from(['bracket', 'discbracket']))
		while usetext and draw(st.booleans()):
			line = draw(text)
			data.append(line + '\n')
			events.append(line)
		if draw(st.integers(0, 4)) == 0:
			data.append('\n')
		spec, sent = draw(gens.treesents(word=word, maxleaves=6, **dict(
				dict(root='ROOT') if cur != 'alpino' else ALP,
				disc=cur != 'bracket')))
		if cur in ('bracket', 'discbracket'):
			if isinstance(spec[1][0], int):
				spec = ['ROOT', [spec]]
			if all(re.match(r'[0-9]+=', a) for a in sent):
				sent[0] = 'the'  # would be ambiguous
			string = draw(broken(writetree(gens.mk(spec, ParentedTree), sent,
					'1', cur).rstrip('\n')))
			rest = draw(text) if usetext and draw(st.booleans()) else ''
			prefix = draw(st.sampled_from(['', '', ' ', '\t', '\n']))
			sep = draw(st.sampled_from([' ', '\n', '\n', '\n\n', '\t']))
			if usetext and draw(st.integers(0, 2)) == 0:
				# text before tree on the same line
				line = draw(text)
				prefix = line + draw(st.sampled_from([' ', '\t', '  ']))
				events.append(line)
			data.append(prefix + string + ('\t' + rest if rest else '') + sep)
			comment = None
			events.append((spec, sent))
			if rest:
				events.append(rest)
		else:
			comment = draw(st.none() | text.filter(lambda x: '%' not in x))
			string = writetree(gens.mk(spec, ParentedTree), sent, str(a), cur,
					comment=comment)
			if cur == 'alpino':
				comment = '%d|%s' % (a, comment) if comment else str(a)
				if draw(st.booleans()):
					data.append('<?xml version="1.0" encoding="UTF-8"?>\n')
			elif draw(st.booleans()):
				data.append('%% a comment\n#FORMAT 4\n')
				for name in draw(st.lists(st.sampled_from(
						('ORIGIN', 'EDITOR', 'WORDTAG')), max_size=2)):
					data.append('#BOT %s\n%s#EOT %s\n' % (name, ''.join(
							'%d\t%s\n' % b for b in enumerate(draw(st.lists(
							st.sampled_from(['NN', '$(\tother (all)', '(a (b c))',
								'refcorp.200.clean', '']), max_size=3)))), name))
			if data and not data[-1].endswith('\n'):
				data.append('\n')
			data.append(string)
			events.append((gens.canonspec(spec), sent))
			if comment:
				events.append(comment)
	return fmt, ''.join(data), events


def flatten(events):
	result = []
	for a in events:
		if isinstance(a, str):
			result.extend(a.split())
		else:
			result.append((gens.canonspec(a[0]), a[1]))
	return result


@prop(streams(), quick=2500, rule='stream with several trees, or with text')
def all_trees_found(arg):
	"""All trees in a stream are found, in order, with sentence and comment;
	with othertext=True, all other text is passed along in order."""
	fmt, data, events = arg
	# other text
	for lines in ([a + '\n' for a in data.split('\n')],
			iter(data.splitlines(True)), [data] if fmt in (
			'bracket', 'discbracket') else data.splitlines(True)):
		got, trees = [], []
		for tree, sent, rest in incrementaltreereader(lines, othertext=True):
			if tree is not None:
				check(isinstance(tree, ParentedTree), 'tree class')
				got.append((gens.unmk(tree), sent))
				trees.append((norm(tree), sent))
				check(rest is None or '\n' not in rest.strip(),
						'text after tree is not limited to its line: %r', rest)
			if rest:
				got.append(rest)
		want = [a for a in flatten(events) if not isinstance(a, str)]
		same(trees, want, 'trees in order')
		same(flatten(got), flatten(events), 'trees and text in order')
	# ignoring other text; line endings are optional when lines are complete
	trees = [(norm(tree), sent) for tree, sent, _
			in incrementaltreereader(data.splitlines(True))]
	same(trees, want, 'trees')
	trees = [(norm(tree), sent) for tree, sent, _
			in incrementaltreereader(data.splitlines())]
	same(trees, want, 'trees without line endings')
	trees = [(norm(tree), sent) for tree, sent, _
			in incrementaltreereader(data.splitlines(True), strict=True)]
	same(trees, want, 'strict')
	result = []
	if len(want) > 1 or len(want) < len(events):
		result.append(fmt)
		if len(want) > 1:
			result.append('several')
		if len(want) < len(events):
			result.append('text')
	return result


@prop(st.tuples(streams(('bracket', 'discbracket', 'export')),
		st.integers(0, 10 ** 6)), quick=600, rule='stream becomes malformed')
def strict_refuses(arg):
	"""strict=True: a closing bracket or end of sentence marker without
	corresponding start, or nested sentence markers, raise ValueError."""
	(fmt, data, events), idx = arg
	trees = [a for a in flatten(events) if not isinstance(a, str)]
	if fmt == 'export':
		data = data.replace('(', '*').replace(')', '*')
		trees = [(a, [x.replace('(', '*').replace(')', '*') for x in b])
				for a, b in trees]
		lines = data.splitlines(True)
		bos = [n for n, a in enumerate(lines) if a.startswith('#BOS ')]
		eos = [n for n, a in enumerate(lines) if a.startswith('#EOS ')]
		if idx % 2 or len(eos) < 2:
			del lines[bos[idx // 2 % len(bos)]]
		else:
			del lines[eos[idx // 2 % (len(eos) - 1)]]
		raises(ValueError, lambda: list(
				incrementaltreereader(lines, strict=True)))
		# by default malformed data is skipped; other trees are unaffected
		got = [(norm(a), b) for a, b, _ in incrementaltreereader(lines) if b]
		if len(lines) and sum(a.startswith('#BOS ') for a in lines) < len(bos):
			same(got, trees[:idx // 2 % len(bos)]
					+ trees[idx // 2 % len(bos) + 1:], 'missing #BOS')
		else:
			n = idx // 2 % (len(eos) - 1)
			same(got[:n], trees[:n], 'missing #EOS')
			same(got[-(len(trees) - n - 2) or len(got):], trees[n + 2:],
					'missing #EOS')
	else:
		# extra closing bracket after a tree
		ends = [m.end() for m in re.finditer(r'\)(?=\s|$)', data)
				if data[:m.end()].count('(') == data[:m.end()].count(')')]
		pos = ends[idx % len(ends)]
		data = data[:pos] + ')' + data[pos:]
		raises(ValueError, lambda: list(
				incrementaltreereader(data.splitlines(True), strict=True)))
		# by default the bracket is skipped
		same([(norm(a), b) for a, b, _ in incrementaltreereader(
				data.splitlines(True))], trees, 'extra bracket')
	return [fmt]


@prop(streams(('bracket', 'discbracket')), quick=500, rule='all')
def lazy(arg):
	"""Trees are produced incrementally: each tree is available by the time
	the next complete tree has been seen."""
	fmt, data, events = arg
	want = [a for a in flatten(events) if not isinstance(a, str)]
	lines = data.splitlines(True) + ['(S (NP a) (VP b))\n'] * 2
	read = [0]

	def feed():
		for a in lines:
			read[0] += 1
			yield a
		check(False, 'consumed all input')
	it = incrementaltreereader(feed())
	for a in want:
		tree, sent, _ = next(it)
		same((norm(tree), sent), a, 'tree')
	check(read[0] <= len(lines), 'all read')
	return len(want) > 1


@prop(st.tuples(word.filter(lambda x: not x.startswith(('#EOS', '0=', '('))
			and ')' not in x and '(' not in x),
		st.sampled_from(gens.POS)), quick=30, rule='all')
def single_preterminal(arg):
	"""(DT the) is only recognized as a tree with robust=False."""
	token, tag = arg
	data = ['(%s %s)\n' % (tag, token)]
	same(list(incrementaltreereader(data)), [], 'robust')
	got = [(gens.unmk(a), b) for a, b, _ in
			incrementaltreereader(data, robust=False)]
	same(got, [([tag, [0]], [token])], 'robust=False')
	return True

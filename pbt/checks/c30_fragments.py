"""Tree fragments are extracted and counted exactly."""
import ast
import io
import os
import re
import shutil
import sys
import tempfile
from collections import Counter
from contextlib import redirect_stdout, redirect_stderr
from hypothesis import strategies as st
import gens
from core import prop, check, same
from fragref import Table, common, occurrences, allfragments

NEED = ('bit', 'containers', '_fragments')
WORDS = ('a', 'b', '2:2', '\xe9=')


@st.composite
def treebanks(draw, minsize=1, maxsize=7, disc=None, maxleaves=7, words=WORDS,
		**kwds):
	"""List of (spec, sent): unbinarized trees in which things recur."""
	disc = draw(st.booleans()) if disc is None else disc
	kw = dict(disc=disc, maxleaves=maxleaves, word=st.sampled_from(words),
			phrasal=('S', 'A'), pos=('x', 'y'))
	kw.update(kwds)
	result = [draw(gens.treesents(**kw))
			for _ in range(draw(st.integers(minsize, maxsize)))]
	for _ in range(draw(st.integers(0, 2))):
		spec, sent = draw(st.sampled_from(result))
		n = draw(st.integers(0, len(sent) - 1))
		sent = sent[:]
		sent[n] = draw(st.sampled_from(words))
		result.append((spec, sent))
	return result[:maxsize]


def binarized(items, h=999):
	"""Binarized trees (as specifications), sentences."""
	from discodop.tree import ParentedTree
	from discodop.treetransforms import binarize
	trees = [binarize(gens.mk(gens.canonspec(spec), ParentedTree), dot=True,
			horzmarkov=h) for spec, _ in items]
	return trees, [sent for _, sent in items]


def tables(trees, sents):
	return [Table(gens.unmk(a), b) for a, b in zip(trees, sents)]


def maximal(tabs, others=None, pairs=None):
	"""Reference: bitsets of recurring fragments, for each tree."""
	result = []
	for n, a in enumerate(tabs):
		found = set()
		for m, b in enumerate(tabs if others is None else others):
			if (others is not None or m > n) and (
					pairs is None or pairs(n, m)):
				found |= common(a, b)
		result.append(found)
	return result


def strings(tabs, found, disc):
	"""Map strings of fragments to an occurrence of them."""
	result = {}
	for n, frags in enumerate(found):
		for root, nodes in frags:
			result.setdefault(tabs[n].string(nodes, root, disc),
					(n, root, nodes))
	return result


def occ(tabs, frag, others=None):
	n, root, nodes = frag
	return occurrences(tabs[n], root, nodes, tabs if others is None
			else others)


def classes(tabs, frags):
	result = []
	if any(len(nodes) > 1 for _, _, nodes in frags.values()):
		result.append('larger than one production')
		if any(len(set(a.leaves[0])) and any(len(p) == 3 and len(p[2]) > 1
				for p in a.prod) for a in tabs):
			result.append('discontinuous')
		if any(len(a) > 64 for a in tabs):
			result.append('more than 64 nodes')
	return result


# --- interface used for grammars ---------------------------------------------

@prop(st.tuples(treebanks(), st.booleans(), st.integers(0, 4),
		st.sampled_from((0, 1, 2, 3, 999)), st.sampled_from((999, 1, 0))), 700,
		rule='a fragment of at least two productions recurs')
def recurring(arg):
	"""Recurring fragments, plus all those up to a given depth, with exact
	frequencies / the trees they occur in."""
	from discodop.fragments import recurringfragments
	items, indices, maxdepth, maxfrontier, h = arg
	disc = any(gens.isdisc(a) for a, _ in items)
	trees, sents = binarized(items, h)
	tabs = tables(trees, sents)
	before = [str(a) for a in trees]
	got = recurringfragments(trees, sents, numproc=1, disc=disc or indices,
			indices=indices, maxdepth=maxdepth, maxfrontier=maxfrontier)
	same([str(a) for a in trees], before, 'trees modified')
	frags = strings(tabs, maximal(tabs), disc or indices)
	want = dict(frags)
	if maxdepth:
		for a, b in strings(tabs, [allfragments(a, maxdepth, maxfrontier)
				for a in tabs], disc or indices).items():
			want.setdefault(a, b)
	same(set(got), set(want), 'fragments')
	for a, b in want.items():
		places = occ(tabs, b)
		if indices:
			same(list(got[a]), [n for n, _ in places], 'indices of %s', a)
		else:
			same(got[a], len(places), 'frequency of %s', a)
	return classes(tabs, frags)


@prop(st.tuples(treebanks(maxsize=4, maxleaves=6), st.integers(1, 5),
		st.sampled_from((0, 1, 2, 3, 999))), 400,
		rule='fragments of depth 3')
def depth(arg):
	"""All fragments up to a given depth and number of substitution sites,
	with the trees in which they occur."""
	from discodop.fragments import allfragments as func
	items, maxdepth, maxfrontier = arg
	trees, sents = binarized(items)
	tabs = tables(trees, sents)
	got = func(trees, sents, maxdepth, maxfrontier)
	want = {}
	for n, a in enumerate(tabs):
		for root, nodes in allfragments(a, maxdepth, maxfrontier):
			want.setdefault(a.string(nodes, root), []).append(n)
	same({a: list(b) for a, b in got.items()}, want)
	return ('yes', ) if maxdepth >= 3 and any(
			len(a) > 4 for a in tabs) else ()


# --- core functions --------------------------------------------------------------

@st.composite
def twobanks(draw):
	disc = draw(st.booleans())
	big = draw(st.integers(0, 5)) == 5
	kw = dict(disc=disc and not big, maxsize=4)
	result = [draw(treebanks(**kw)), draw(treebanks(**kw))]
	if big:
		result[draw(st.integers(0, 1))].append(draw(gens.treesents(
				minleaves=30, maxleaves=70, disc=False,
				word=st.sampled_from(('a', 'b')), phrasal=('S', 'A'),
				pos=('x', 'y'))))
	return result


def getbanks(arg):
	from discodop._fragments import getctrees
	banks = [binarized(a) for a in arg]
	tabs = [tables(*a) for a in banks]
	return banks, tabs, getctrees(zip(*banks[0]),
			zip(*banks[1]) if len(banks) == 2 else None)


@prop(st.tuples(twobanks(), st.booleans()), 400,
		rule='a fragment of at least two productions is shared')
def across(arg):
	"""Fragments shared by two treebanks, their frequencies in either."""
	from discodop._fragments import (extractfragments, exactcounts,
			exactcountsslice)
	items, disc = arg
	disc = disc or any(gens.isdisc(a) for b in items for a, _ in b)
	banks, (tabs1, tabs2), x = getbanks(items)
	maxnodes = max(x['trees1'].maxnodes, x['trees2'].maxnodes)
	same(maxnodes, max(len(a) for a in tabs1 + tabs2), 'maxnodes')
	found = maximal(tabs1, tabs2)
	frags = strings(tabs1, found, disc)
	approx = extractfragments(x['trees1'], 0, 0, x['vocab'], x['trees2'],
			disc=disc, approx=True)
	want = Counter(a.string(nodes, root, disc)
			for a, b in zip(tabs1, found) for root, nodes in b)
	same(approx, dict(want), 'approximate frequencies')
	got = extractfragments(x['trees1'], 0, 0, x['vocab'], x['trees2'],
			disc=disc, approx=False)
	same(set(got), set(frags), 'fragments')
	keys = list(got)
	bitsets = [got[a] for a in keys]
	for bank, tabs in ((x['trees1'], tabs1), (x['trees2'], tabs2)):
		places = [occ(tabs1, frags[a], tabs) for a in keys]
		for func in (exactcounts, exactcountsslice):
			name = func.__name__
			same(list(func(bitsets, x['trees1'], bank, indices=0,
					maxnodes=maxnodes)), [len(a) for a in places],
					'%s: frequencies', name)
			same([list(a) for a in func(bitsets, x['trees1'], bank,
					indices=1, maxnodes=maxnodes)],
					[[n for n, _ in a] for a in places],
					'%s: tree indices', name)
			result = func(bitsets, x['trees1'], bank, indices=2,
					maxnodes=maxnodes)
			for (a, b), c, key in zip(result, places, keys):
				same(list(a), [n for n, _ in c], '%s: trees, nodes', name)
				same(sorted(bank.extract(n, x['vocab'], disc=True, node=m)
						for n, m in zip(a, b)),
						sorted(subtree(tabs[n], j) for n, j in c),
						'%s: subtrees with occurrences of %s', name, key)
	return classes(tabs1 + tabs2, frags)


def subtree(tab, n):
	"""Discbracket notation of the subtree at n."""
	if tab.kids[n]:
		return '(%s %s)' % (tab.label[n], ' '.join(
				subtree(tab, a) for a in tab.kids[n]))
	return '(%s %d=%s)' % (tab.label[n], tab.leaves[n][0], tab.word[n])


@prop(st.tuples(st.lists(treebanks(maxsize=7, disc=False), min_size=1,
		max_size=2), st.lists(st.integers(0, 8), max_size=2),
		st.sampled_from(('all', 'adjacent', 'twoterms')), st.booleans()), 500,
		rule='a fragment of at least two productions recurs')
def selection(arg):
	"""Slices, adjacent trees, fragments with two terminals."""
	from discodop._fragments import extractfragments
	items, cuts, mode, disc = arg
	_, banks, x = getbanks(items)
	tabs = banks[0]
	cuts = sorted({0, len(tabs)} | {min(a, len(tabs)) for a in cuts})
	found = selected(mode, *banks)
	want = Counter(a.string(nodes, root, disc)
			for a, b in zip(tabs, found) for root, nodes in b)
	got = Counter()
	kw = {'adjacent': dict(adjacent=True), 'twoterms': dict(twoterms='^x$'),
			'all': {}}[mode]
	for a, b in zip(cuts, cuts[1:]):
		got.update(extractfragments(x['trees1'], a, b, x['vocab'],
				x['trees2'], disc=disc, approx=True, **kw))
	same(dict(got), dict(want), mode)
	return [mode, '%d treebanks' % len(banks)] if any(len(nodes) > 1
			for a in found for _, nodes in a) else ()


def selected(mode, tabs, others=None):
	"""Reference: fragments for a given subset of pairs of trees."""
	second = tabs if others is None else others
	if mode == 'all':
		return maximal(tabs, others)
	elif mode == 'adjacent':
		return maximal(tabs, others, lambda n, m: m == n + 1)

	def pairs(n, m):
		"""Pair of trees shares a content word and another word"""
		words = Counter(p for p in tabs[n].prod if len(p) == 2)
		shared = set(words) & {p for p in second[m].prod if len(p) == 2}
		return any(p[0] == 'x' for p in shared) and sum(
				words[p] for p in shared) > 1

	return [{(root, nodes) for root, nodes in frags
			if sum(not tab.kids[a] for a in nodes) >= 2}
			for tab, frags in zip(tabs, maximal(tabs, others, pairs))]


@st.composite
def queries(draw):
	"""Treebank, and fragments cut from it, and other trees."""
	items = draw(treebanks(maxsize=5))
	cuts = draw(st.lists(st.tuples(st.integers(0, 10), st.integers(0, 30),
			st.lists(st.booleans(), max_size=12), st.booleans()),
			min_size=1, max_size=5))
	return items, cuts, draw(st.integers(0, 4)), draw(st.integers(0, 5)), draw(
			st.integers(1, 6))


def cutout(tab, root, choices, words):
	"""Fragment of tab: (nodes, root)."""
	choices = list(choices)
	nodes = set()

	def visit(n):
		nodes.add(n)
		for a in tab.kids[n]:
			if not choices or choices.pop():
				visit(a)
	visit(root)
	return frozenset(nodes), root


@prop(queries(), 500, rule='a fragment with a frontier non-terminal occurs')
def complete(arg):
	"""Looking up given fragments: frequency, trees, nodes; in part of the
	treebank; up to a maximum."""
	from discodop._fragments import (getctrees, completebitsets, exactcounts,
			exactcountsslice)
	from discodop.tree import discbrackettree
	from discodop.treetransforms import binarize, handledisc
	items, cuts, start, end, maxresults = arg
	trees, sents = binarized(items)
	tabs = tables(trees, sents)
	frags = []
	for n, root, choices, _ in cuts:
		n %= len(tabs)
		nodes, root = cutout(tabs[n], root % len(tabs[n]), choices, False)
		frags.append((n, root, nodes))
	strs = [tabs[n].string(nodes, root) for n, root, nodes in frags]
	q = []
	for a in strs:
		tree, sent = discbrackettree(a)
		q.append((binarize(handledisc(tree), dot=True),
				[b or None for b in sent]))
	x = getctrees(q, zip(trees, sents))
	maxnodes = max(x['trees1'].maxnodes, x['trees2'].maxnodes)
	got, bitsets = completebitsets(x['trees1'], x['vocab'], maxnodes,
			disc=True)
	same(got, strs, 'fragments as strings')
	places = [occ(tabs, a) for a in frags]
	for func in (exactcounts, exactcountsslice):
		same(list(func(bitsets, x['trees1'], x['trees2'], indices=0,
				maxnodes=maxnodes)), [len(a) for a in places],
				'frequencies; %s', func.__name__)
		same([list(a) for a in func(bitsets, x['trees1'], x['trees2'],
				indices=1, maxnodes=maxnodes)],
				[[n for n, _ in a] for a in places], 'indices; %s',
				func.__name__)
	start, end = min(start, len(tabs) - 1), min(end, len(tabs))
	part = [[(n, m) for n, m in a if start <= n < (end or len(tabs))]
			for a in places]
	same([list(a) for a in exactcountsslice(bitsets, x['trees1'],
			x['trees2'], indices=1, maxnodes=maxnodes, start=start, end=end)],
			[[n for n, _ in a] for a in part], 'indices in slice %d--%d',
			start, end)
	for bitset, a in zip(bitsets, part):
		same([list(a) for a in exactcountsslice([bitset], x['trees1'],
				x['trees2'], indices=1, maxnodes=maxnodes, start=start,
				end=end, maxresults=maxresults)],
				[[n for n, _ in a][:maxresults]], 'limited to %d', maxresults)
	return ('yes', ) if any('=)' in a or '= ' in a for a in strs) else ()


@prop(st.tuples(treebanks(maxsize=3, minsize=2, disc=False),
		st.integers(300, 700)), 8, thorough=60,
		rule='more than 1024 occurrences of a fragment')
def many(arg):
	"""Treebanks that do not fit in the initial allocation."""
	from discodop._fragments import (extractfragments, exactcounts,
			exactcountsslice)
	items, reps = arg
	_, (tabs, ), x = getbanks([items])
	banks, _, y = getbanks([items * reps])
	keys = extractfragments(x['trees1'], 0, 0, x['vocab'], approx=False,
			disc=True)
	frags = strings(tabs, maximal(tabs), True)
	same(set(keys), set(frags), 'fragments')
	from discodop._fragments import getctrees
	x = getctrees(zip(*binarized(items)), zip(*banks[0]))
	keys = extractfragments(x['trees1'], 0, 0, x['vocab'], approx=False,
			disc=True)
	places = [[m + n * len(tabs) for n in range(reps) for m, _ in
			occ(tabs, frags[a])] for a in keys]
	for func in (exactcounts, exactcountsslice):
		same(list(func(list(keys.values()), x['trees1'], x['trees2'],
				indices=0)), [len(a) for a in places], func.__name__)
		same([list(a) for a in func(list(keys.values()), x['trees1'],
				x['trees2'], indices=1)], places, func.__name__)
		same([list(a[0]) for a in func(list(keys.values()), x['trees1'],
				x['trees2'], indices=2)], places, func.__name__)
	trees, sents = banks[0]
	for n in range(0, len(trees), 97):
		same(x['trees2'].extract(n, x['vocab'], disc=True),
				subtree(tabs[n % len(tabs)], 0), 'tree %d', n)
		same(x['trees2'].extractsent(n, x['vocab']), sents[n], 'sentence')
	return ('yes', ) if any(len(a) > 1024 for a in places) else ()


# --- command ------------------------------------------------------------------------

def words(item):
	return st.text(alphabet='ab0=:.\xe9', min_size=1, max_size=3)


@st.composite
def cli(draw):
	fmt = draw(st.sampled_from(('bracket', 'export', 'discbracket')))
	two = draw(st.integers(0, 2))
	kw = dict(disc=fmt != 'bracket' and draw(st.booleans()), minsize=2,
			maxsize=6, maxarity=4, words=('a', 'b', '2:2', '\xe9', '0=x', '"'))
	if fmt == 'export':
		kw['root'] = 'ROOT'
	banks = [draw(treebanks(**kw))]
	if two:
		banks.append(draw(treebanks(**kw)))
	if draw(st.integers(0, 4)) == 4:
		draw(st.sampled_from(banks)).append(draw(gens.treesents(
				minleaves=30, maxleaves=45, disc=False, root='ROOT',
				word=st.sampled_from(('a', 'b')), phrasal=('S', 'A'),
				pos=('x', 'y'))))
	opts = {}
	for a in ('indices', 'nofreq', 'relfreq', 'approx', 'debin', 'alt'):
		if draw(st.integers(0, 4)) == 4:
			opts[a] = True
	if draw(st.integers(0, 7)) == 7:
		opts['twoterms'] = '^x$'
	elif draw(st.integers(0, 7)) == 7:
		opts['adjacent'] = True
	if draw(st.integers(0, 3)) == 3:
		opts['cover'] = draw(st.sampled_from(('1', '2', '3', '2,1', '3,0')))
	elif two and draw(st.booleans()) and not {'twoterms', 'adjacent'} & set(opts):
		opts['complete'] = True
	if draw(st.integers(0, 3)) == 3:
		opts['numtrees'] = draw(st.integers(1, 6))
	if draw(st.integers(0, 11)) == 11:
		opts['numproc'] = draw(st.integers(2, 3))
	if draw(st.booleans()):
		opts['o'] = True
	if opts.get('complete'):
		for a in ('nofreq', 'approx'):
			opts.pop(a, None)
	if opts.get('nofreq') or opts.get('approx'):
		for a in ('indices', 'relfreq'):
			opts.pop(a, None)
	if opts.get('indices'):
		opts.pop('relfreq', None)
	batch = two == 2 and 'cover' not in opts and 'numproc' not in opts
	return fmt, banks, opts, batch


def run(args):
	from discodop import fragments
	out = io.TextIOWrapper(io.BytesIO(), encoding='utf8')
	fragments.PARAMS.clear()
	with redirect_stdout(out), redirect_stderr(io.StringIO()):
		fragments.main(args + ['--quiet'])
	out.flush()
	return out.buffer.getvalue().decode('utf8')


@prop(cli(), 350, rule='a fragment of at least two productions')
def command(arg):
	"""The command writes the fragments and frequencies it should."""
	from discodop.tree import Tree, ParentedTree
	from discodop.treebank import writetree
	from discodop.treetransforms import unbinarize
	fmt, items, opts, batch = arg
	path = tempfile.mkdtemp(prefix='frag-', dir='.')
	try:
		for n, bank in enumerate(items):
			with open('%s/t%d' % (path, n), 'w', encoding='utf8') as out:
				for m, (spec, sent) in enumerate(bank, 1):
					out.write(writetree(gens.mk(gens.canonspec(spec),
							ParentedTree), sent, str(m), fmt))
		args = ['%s/t%d' % (path, n) for n in range(len(items))]
		args += ['--fmt=' + fmt] if fmt != 'bracket' else []
		for a, b in opts.items():
			if a != 'o':
				args.append('--%s%s' % (a, '' if b is True else '=%s' % b))
		if batch:
			args.append('--batch=' + path)
			same(run(args), '', 'standard output')
			with open(path + '/t0_t1', encoding='utf8') as inp:
				got = inp.read()
		elif 'o' in opts:
			same(run(args + ['-o', path + '/out']), '', 'standard output')
			with open(path + '/out', encoding='utf8') as inp:
				got = inp.read()
		else:
			got = run(args)
	finally:
		shutil.rmtree(path)
	items = [a[:opts.get('numtrees')] for a in items]
	disc = fmt != 'bracket'
	banks = [tables(*binarized(a)) for a in items]
	tabs, others = banks[0], banks[1] if len(banks) == 2 else None
	if opts.get('complete'):
		found = [[(0, frozenset(range(len(a))))] for a in tabs]
		keys = [(a.string(range(len(a)), 0, disc), (n, ) + found[n][0])
				for n, a in enumerate(tabs)]
	else:
		found = selected('twoterms' if 'twoterms' in opts else
				'adjacent' if 'adjacent' in opts else 'all', *banks)
		keys = strings(tabs, found, disc).items()
	where = others if opts.get('complete') or batch else tabs
	want = []
	for a, b in keys:
		places = occ(tabs, b, where)
		if opts.get('approx'):
			freq = sum(tabs[n].string(nodes, root, disc) == a
					for n, frags in enumerate(found)
					for root, nodes in frags)
		elif opts.get('indices'):
			freq = [n for n, _ in places]
		else:
			freq = len(places)
		if opts.get('relfreq') or opts.get('nofreq') or freq:
			want.append((a, freq))
	if opts.get('cover'):
		b, c = opts['cover'].partition(',')[::2]
		have = dict(want)
		for a, b in strings(tabs, [allfragments(a, int(b), int(c or 999))
				for a in tabs], disc).items():
			if a not in have:
				places = occ(tabs, b)
				want.append((a, [n for n, _ in places]
						if opts.get('indices') else len(places)))
	total = Counter()
	for a, b in want:
		if opts.get('relfreq'):
			total[a[1:a.index(' ')]] += b
	lines = []
	for a, b in want:
		label = a[1:a.index(' ')]
		if opts.get('indices') and opts.get('adjacent'):
			b = [n for n in b if n - 1 in b or n + 1 in b]
		if opts.get('debin'):
			if re.search(r'\|<[^ ]* (?:\)|[0-9]+=[ )])', a[1:]):
				lines.append(None)
				continue
			a = debin(a, disc)
		if opts.get('alt'):
			a = alt(a)
		lines.append(a if opts.get('nofreq') else '%s\t%d/%d' % (
				a, b, total[label]) if opts.get('relfreq')
				else '%s\t%s' % (a, b))
	if opts.get('debin'):
		# a frontier node introduced by binarization cannot be debinarized
		same(len(got.splitlines()), len(lines), 'number of lines')
		rest = Counter(a for a in lines if a is not None) - Counter(
				got.splitlines())
		same(rest, Counter(), 'missing fragments')
	else:
		same(sorted(got.splitlines()), sorted(lines))
	return [fmt] + sorted(opts) if any(len(nodes) > 1 for b in found
			for _, nodes in b) else ()


def debin(frag, disc):
	"""Remove binarization nodes, unless the root is one."""
	# a non-root node that is itself expanded is replaced by its children
	def parse(s, i):
		assert s[i] == '(', (s, i)
		j = i + 1
		while s[j] != ' ':
			j += 1
		label, kids = s[i + 1:j], []
		i = j + 1
		while s[i] != ')':
			if s[i] == '(':
				kid, i = parse(s, i)
				kids.append(kid)
			elif s[i] == ' ':
				i += 1
			else:
				j = i
				while s[j] not in ' )':
					j += 1
				kids.append(s[i:j])
				i = j
		return (label, kids), i + 1

	def render(node):
		label, kids = node
		result = []
		for a in kids:
			result.append(a if isinstance(a, str) else render(a))
		return '(%s %s)' % (label, ' '.join(result))

	def expand(node):
		label, kids = node
		result = []
		for a in kids:
			if isinstance(a, str):
				result.append(a)
				continue
			a = expand(a)
			if '|<' in a[0] and not all(isinstance(b, str) for b in a[1]):
				result.extend(a[1])
			else:
				result.append(a)
		return label, result
	return render(expand(parse(frag, 0)[0]))


def alt(frag):
	frag = frag.replace('"', "''")
	frag = re.sub(r'\(([^ ()]+) ([^ ()]+)\)', r'(\1 "\2")', frag)
	return re.sub(r'\(([^ ()]+) \)', r'\1', frag)

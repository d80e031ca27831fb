"""Grammars in text format: writing, merging, statistics."""
import contextlib
import gzip
import io
import os
import re
import shutil
import tempfile
from collections import Counter
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, brackettree, escape
from discodop.grammar import (writegrammar, sumrules, sumlex, sumfrags, merge,
		stripweight, splitweight, convertweight, grammarinfo, grammarstats,
		addindices, defaultparse, treebankgrammar, sortgrammar, flatten)
from discodop.treetransforms import addfanoutmarkers
import gens

NEED = ('bit', )
ASSUMPTIONS = ['words and labels have no whitespace, weights are positive',
		'weights are written with 6 significant digits (as documented by %g)',
		'labels are not numbers']
WORD = st.sampled_from(('the', 'a', 'dog', '(', ')', 'é', '.', '*', '1/2',
		'-LRB-', '$', '42', "''", '=', 'x=y'))
PHRASAL = ('S', 'NP', 'VP', 'S-e', '-', 'e', '.', 'X|<a,b>', '$,', 'NP^S')
SPECS = dict(word=WORD, phrasal=PHRASAL, pos=('A', 'B', '.', '$(', '-'),
		maxleaves=7, maxarity=4, shuffle=True)
weights = (st.integers(1, 9) | st.integers(1, 99999) | st.sampled_from(
		[1000000, 25000000, 10 ** 12, 0.5, 0.25, 0.001, 1e-7, 2.5e-05, 1.5]))


def close(a, b):
	return abs(a - b) <= 1e-5 * max(abs(a), abs(b))


def sameweights(got, want, msg):
	same(sorted(got), sorted(want), msg)
	for a in want:
		check(close(got[a], want[a]), '%s: weight of %r: %r, expected %r', msg,
				a, got[a], want[a])


@st.composite
def grammars(draw, disc=True):
	"""Grammar from random trees with random weights."""
	items = draw(st.lists(gens.treesents(**dict(SPECS, disc=disc,
			shuffle=disc)), min_size=1, max_size=3))
	trees = [addfanoutmarkers(gens.mk(a, Tree)) for a, _ in items]
	g = treebankgrammar(trees, [b for _, b in items])
	if draw(st.booleans()):
		g = [(rule, draw(weights)) for rule, _ in g]
	return g


def readrules(text, bitpar):
	"""Independent reader; list of (rule, weight)."""
	check(text == '' or text.endswith('\n'), 'no newline at end')
	result = []
	for line in text.split('\n')[:-1]:
		fields = line.split('\t')
		if bitpar:
			result.append((tuple(fields[1:]), float(fields[0])))
		else:
			yf = tuple(tuple(map(int, a)) for a in fields[-2].split(','))
			result.append(((tuple(fields[:-2]), yf), float(fields[-1])))
	return result


def readlex(text):
	result = []
	for line in text.split('\n')[:-1]:
		fields = line.split('\t')
		check(len(fields) > 1, 'no tags: %r', line)
		result.append((fields[0], [(a.split(' ')[0], float(a.split(' ')[1]))
				for a in fields[1:]]))
	return result


@prop(st.tuples(grammars(), st.booleans()), quick=1200,
		rule='discontinuous rule and word with several tags')
def written(arg):
	"""The text has all rules with their weights in the same order; the lexicon
	has one line per word."""
	g, bitpar = arg
	rules, lex = writegrammar(g, bitpar=bitpar)
	got = readrules(rules, bitpar)
	want = [(r if bitpar else (r, yf), w) for (r, yf), w in g
			if r[1] != 'Epsilon']
	same([a for a, _ in got], [a for a, _ in want], 'rules')
	check(all(close(a, b) for (_, a), (_, b) in zip(got, want)),
			'weights: %s %s', got, want)
	got = readlex(lex)
	words = [a for a, _ in got]
	same(len(words), len(set(words)), 'word occurs more than once')
	lexical = [(r[0], yf[0].replace('#LRB#', '(').replace('#RRB#', ')'), w)
			for (r, yf), w in g if r[1] == 'Epsilon']
	same(words, list(dict.fromkeys(b for _, b, _ in lexical)), 'words')
	for word, tags in got:
		want = [(a, w) for a, b, w in lexical if b == word]
		same([a for a, _ in tags], [a for a, _ in want], 'tags of %s', word)
		check(all(close(a, b) for (_, a), (_, b) in zip(tags, want)),
				'weights: %s %s', tags, want)
	return (any(len(yf) > 1 for (_, yf), _ in g)
			and any(len(a) > 1 for _, a in got))


def summed(grammars, bitpar):
	rules, lex = Counter(), Counter()
	for g in grammars:
		for (r, yf), w in g:
			w = float('%g' % w)
			if r[1] == 'Epsilon':
				lex[yf[0].replace('#LRB#', '(').replace('#RRB#', ')'),
						r[0]] += w
			else:
				rules[r if bitpar else (r, yf)] += w
	for a in (rules, lex):
		for b in a:
			a[b] /= len(grammars)
	return rules, lex


@prop(st.tuples(st.lists(grammars() | grammars(disc=False), min_size=2,
		max_size=3), st.booleans(), st.booleans(), st.booleans(),
		st.integers(0, 3).map(lambda x: x == 3)), quick=800,
		rule='at least two grammars share a rule')
def merged(arg):
	"""Merging gives the mean of weights of each rule and each word-tag pair."""
	grammars, bitpar, compress, order, twice = arg
	if order:  # files sorted by LHS
		grammars = [sortgrammar(g) for g in grammars]
	else:  # files sorted completely
		grammars = [sorted(g, key=lambda a: (a[0][1][0] if a[0][0][1] ==
				'Epsilon' else '', a[0][0], a[0][1])) for g in grammars]
	tmp = tempfile.mkdtemp(prefix='merge-', dir='.')
	ext = '.gz' if compress else ''
	try:
		names = {'rules': [], 'lex': []}
		for n, g in enumerate(grammars):
			rules, lex = writegrammar(g, bitpar=bitpar)
			# lexicon must be sorted on words as they appear in the file
			lex = ''.join(sorted(lex.splitlines(True),
					key=lambda x: x.split('\t')[0]))
			for kind, data in (('rules', rules), ('lex', lex)):
				name = os.path.join(tmp, '%d.%s%s' % (n, kind, ext))
				with (gzip.open if compress else open)(name, 'wb') as out:
					out.write(data.encode('utf8'))
				names[kind].append(name)
		if twice:  # counts double
			for kind in names:
				names[kind].append(names[kind][0])
			grammars.append(grammars[0])
		out1 = os.path.join(tmp, 'out.rules' + ext)
		out2 = os.path.join(tmp, 'out.lex' + ext)
		merge(names['rules'], out1, sumrules, stripweight)
		merge(names['lex'], out2, sumlex, lambda x: x.split(None, 1)[0])
		opener = gzip.open if compress else open
		with opener(out1, 'rt', encoding='utf8') as inp:
			rules = readrules(inp.read(), bitpar)
		with opener(out2, 'rt', encoding='utf8') as inp:
			lex = readlex(inp.read())
	finally:
		shutil.rmtree(tmp)
	want1, want2 = summed(grammars, bitpar)
	if len({a[0] if bitpar else a[0][0] for a, _ in rules}) < 0:
		return False
	same(len(rules), len(dict(rules)), 'duplicate rules: %s', rules)
	sameweights(dict(rules), want1, 'rules')
	same(len(lex), len(dict(lex)), 'duplicate words: %s', lex)
	for _, tags in lex:
		same(len(tags), len(dict(tags)), 'duplicate tags')
	sameweights({(w, t): x for w, tags in lex for t, x in tags}, want2,
			'lexicon')
	return sum(map(len, grammars)) > len(want1) + len(want2)


@prop(st.tuples(st.lists(st.dictionaries(st.sampled_from(['(S (NP ) (VP ))',
		'(NP a)', '(NP (DT the) (NN ))', '(S (A 0=x) (B 1=))', '(S|<a> b)']),
		weights, max_size=5), min_size=1, max_size=3), st.booleans()),
		quick=600, rule='shared fragments')
def fragments(arg):
	"""Merged fragment files have the mean of weights."""
	files, frac = arg
	lines = [''.join('%s\t%g%s\n' % (a, f[a], '/4' if frac else '')
			for a in sorted(f)) for f in files]
	tmp = tempfile.mkdtemp(prefix='merge-', dir='.')
	try:
		names = []
		for n, a in enumerate(lines):
			names.append(os.path.join(tmp, str(n)))
			with open(names[-1], 'w') as out:
				out.write(a)
		name = os.path.join(tmp, 'out')
		merge(names, name, sumfrags, lambda x: x.rsplit('\t', 1)[0])
		with open(name) as inp:
			got = [a.rstrip('\n').rsplit('\t', 1) for a in inp]
	finally:
		shutil.rmtree(tmp)
	want = Counter()
	for f in files:
		for a in f:
			want[a] += float('%g' % f[a]) / (4 if frac else 1) / len(files)
	same(len(got), len(dict(got)), 'duplicates')
	sameweights({a: float(b) for a, b in got}, want, 'fragments')
	return sum(map(len, files)) > len(want)


@prop(st.tuples(st.integers(1, 10 ** 9), st.integers(1, 10 ** 6),
		st.floats(1e-300, 1e300)), quick=1000, rule='always')
def numbers(arg):
	"""Weights in all notations are converted exactly."""
	a, b, c = arg
	for func, frac in ((convertweight, a / b), (splitweight, (a, b))):
		same(func('%d/%d' % (a, b)), frac, 'fraction')
		same(func('%d' % a), a, 'integer')
		same(func(repr(c)), c, 'float')
		same(func(c.hex()), c, 'hexadecimal')
	for rule in ('S\tNP\tVP\t01', 'S_2\tA\t0,0', '.\t$,\t-\t010'):
		for w in ('%d' % a, '%g' % c, '%d/%d' % (a, b), c.hex()):
			same(stripweight('%s\t%s\n' % (rule, w)), rule, 'PLCFRS rule')
	for rule in ('S\tNP\tVP', 'S\tNP\t.', 'S-e\te', '.\t$,\t-'):
		for w in ('%d' % a, '%g' % c):
			same(stripweight('%s\t%s\n' % (w, rule)), rule, 'bitpar rule')
	return True


@prop(st.tuples(grammars(), st.booleans(), st.booleans(), st.booleans()),
		quick=500, rule='discontinuous rule')
def statistics(arg):
	"""Statistics on a grammar are those of its rules."""
	g, bitpar, compress, fractions = arg
	phrasal = [a for a in g if a[0][0][1] != 'Epsilon']
	info = grammarinfo(g, dump='complexity.txt')
	with open('complexity.txt', encoding='utf8') as inp:
		dist = [tuple(map(int, a.split('\t'))) for a in inp]
	os.unlink('complexity.txt')
	nums = dict(clauses=len(g), lex=len(g) - len(phrasal), phr=len(phrasal),
			pos=len({r[0] for (r, _), _ in g if r[1] == 'Epsilon'}))
	check('clauses: %(clauses)d  lexical clauses: %(lex)d non-lexical clauses: '
			'%(phr)d\n' % nums in info, 'clauses: %s\n%s', nums, info)
	check('of which preterminals: %(pos)d\n' % nums in info, 'preterminals')
	fanouts = [len(yf) for (_, yf), _ in g]
	check('max fan-out: %d in ' % max(fanouts) in info, 'fan-out:\n%s', info)
	check(' mean: %g\n' % (sum(fanouts) / len(g)) in info, 'mean fan-out')
	check('max variables: %d in ' % max(sum(map(len, yf))
			for (_, yf), _ in phrasal) in info, 'variables')
	pc = [1 if r[1] == 'Epsilon' else len(yf) + sum(map(len, yf))
			for (r, yf), _ in g]
	check('max parsing complexity: %d in ' % max(pc) in info, 'complexity')
	pcset = [1 if r[1] == 'Epsilon' else len(yf) + sum(map(len, yf))
			for (r, yf), _ in set_(g)]
	same(sorted(dist), sorted((a, pcset.count(a)) for a in set(pcset)),
			'distribution of parsing complexity')
	check(info.endswith(' mean %g' % (sum(pc) / len(set_(g)))), 'mean pc')
	# statistics by LHS, from file
	rules, _ = writegrammar(g, bitpar=bitpar)
	if fractions and not bitpar:  # frequency mass is that of numerators
		rules = rules.replace('\n', '/8\n')
	name = 'stats.rules' + ('.gz' if compress else '')
	with (gzip.open if compress else open)(name, 'wb') as out:
		out.write(rules.encode('utf8'))
	buf = io.StringIO()
	with contextlib.redirect_stdout(buf):
		grammarstats(name)
	os.unlink(name)
	lines = [a.split('\t') for a in buf.getvalue().splitlines()][1:]
	want = {}
	for (r, _), w in phrasal:
		x = want.setdefault(r[0], [0, 0])
		x[0] += 1
		x[1] += float('%g' % w)
	same({a: int(b) for a, b, _ in lines}, {a: b for a, (b, _) in want.items()},
			'number of rules per LHS')
	sameweights({a: float(c) for a, _, c in lines},
			{a: c for a, (_, c) in want.items()}, 'frequency mass')
	return max(fanouts) > 1


def set_(g):
	return {(rule, w) for rule, w in g}


@prop(st.tuples(gens.treesents(word=st.sampled_from(['a', 'the', '', 'é', '1',
		'2=x', '=', 'x=', '3=', '{0}', '12']), disc=False, maxleaves=8), st.booleans()), quick=600,
		rule='frontier non-terminals')
def indices(arg):
	"""Indices added to continuous fragments do not change them."""
	(spec, sent), _ = arg

	def visit(a, idx):
		if gens.ispre(a):
			w = sent[a[1][0]]
			return '(%s %s)' % (a[0], ('%d=%s' % (a[1][0], w) if idx else w))
		return '(%s %s)' % (a[0], ' '.join(visit(b, idx) for b in a[1]))
	same(addindices(visit(spec, False)), visit(spec, True), 'fragment')
	return '' in sent


@prop(st.tuples(st.lists(st.tuples(st.sampled_from(['a', 'the', 'é', '#LRB#']),
		st.sampled_from(['DT', 'NN', '$,'])), min_size=1, max_size=8),
		st.booleans()), quick=400, rule='several words')
def fallback(arg):
	"""The default parse has all words with their tags."""
	items, right = arg
	tree, sent = brackettree(defaultparse(items, right))
	same([escape(a) for a in sent], [a for a, _ in items], 'words')
	same([b for _, b in sorted(tree.pos())] if False else
			[b for _, b in tree.pos()], [b for _, b in items], 'tags')
	phrasal = [a for a in tree.subtrees() if isinstance(a[0], Tree)]
	same({a.label for a in phrasal}, {'NP' if right else 'NOPARSE'}, 'labels')
	same(len(phrasal), len(items) if right else 1, 'constituents')
	if right:
		for n, a in enumerate(phrasal):
			same(a.leaves(), list(range(n, len(items))), 'right-branching')
			check(len(a) <= 2, 'binary')
	return len(items) > 1

"""C40: the Grammar object after every history of operations."""
import os
import math
import re
import pickle
import shutil
import tempfile
from collections import Counter
from hypothesis import strategies as st
import lcfrs
from core import prop, check, same, raises
from gens import biased
from lcfrs import Forest, readchart, close, tuples

NEED = ('bit', 'containers', 'pcfg', 'plcfrs', 'kbest')
ASSUMPTIONS = ['grammars are pickled before rules are added to them',
		'rules and lexicon files end with a newline']
RULE = re.compile(r'(?P<p>[0-9.]+(?:e-?[0-9]+)?|inf|nan) (?P<lhs>\S+) => '
		r'(?P<rhs>\S+(?: [^ 01]\S*)?) +(?P<yf>[01,]+) +'
		r'(?P<freq>\S+)/(?P<mass>\S+) \[(?P<no>[0-9]+)\]')
LEX = re.compile(r'(?P<p>[0-9.]+(?:e-?[0-9]+)?|inf|nan) (?P<tag>\S+) => '
		r'(?P<word>\S+) +(?P<freq>\S+)/(?P<mass>\S+)')


def yfstr(yf):
	return ','.join(''.join(map(str, a)) for a in yf)


def text(g, bitpar, perm=None):
	"""Rules and lexicon in text format."""
	rules = []
	for lhs, rhs, yf, w in g['rules']:
		fields = (lhs, ) + tuple(rhs)
		rules.append('\t'.join(('%g' % w, ) + fields if bitpar
				else fields + (yfstr(yf), '%g' % w)))
	words = {}
	for tag, word, w in g['lex']:
		words.setdefault(word, []).append((tag, w))
	lex = ['%s\t%s' % (word, '\t'.join('%s %g' % a for a in tags))
			for word, tags in words.items()]
	return ''.join(a + '\n' for a in rules), ''.join(a + '\n' for a in lex)


class Model:
	"""Reference: a list of rules with counts."""
	def __init__(self, g):
		self.rules, self.lex = {}, {}
		self.add(g)

	def add(self, g):
		for lhs, rhs, yf, w in g['rules']:
			key = lhs, tuple(rhs), tuple(map(tuple, yf))
			self.rules[key] = self.rules.get(key, 0) + w
		for tag, word, w in g['lex']:
			self.lex[tag, word] = self.lex.get((tag, word), 0) + w

	def masses(self):
		result = Counter()
		for (lhs, _, _), w in self.rules.items():
			result[lhs] += w
		for (tag, _), w in self.lex.items():
			result[tag] += w
		return result

	def grammar(self):
		return {'rules': [k + (w, ) for k, w in self.rules.items()],
				'lex': [k + (w, ) for k, w in self.lex.items()]}


@st.composite
def histories(draw):
	"""Initial grammar, sentences, and a list of operations."""
	disc = draw(st.booleans())
	g, sents = draw(lcfrs.grammars(disc=disc, maxtrees=2, maxleaves=5))
	bitpar = lcfrs.iscfg(g) and draw(st.booleans())
	form = draw(st.sampled_from(('tuples', 'files')))
	ops = []
	for _ in range(draw(st.integers(1, 6))):
		op = draw(st.sampled_from(('add', 'add', 'incr', 'switch', 'switch',
				'bin', 'pickle', 'mask')))
		arg = None
		if op == 'add':
			new, sents1 = draw(lcfrs.grammars(disc=disc and not bitpar,
					maxtrees=2, maxleaves=4, extra=2,
					phrasal=('A', 'B', 'D'), words=('a', 'b', 'd')))
			if bitpar and not lcfrs.iscfg(new):
				continue
			arg = new
			sents = sents + sents1
		elif op == 'incr':
			arg = draw(st.lists(st.tuples(st.integers(0, 30),
					st.integers(1, 5)), min_size=1, max_size=3))
		elif op == 'switch':
			arg = (draw(st.sampled_from(('default', 'x', 'y'))),
					draw(st.booleans()))
		elif op == 'mask':
			arg = draw(st.sampled_from((None, [], [0, 3, 7], [1, 2, 4, 5])))
		ops.append((op, arg))
	return g, sents, ops, bitpar, form, draw(st.integers(0, 999))


def weights(model, seed):
	"""Arbitrary alternative weights."""
	n = len(model.rules) + len(model.lex)
	return [(1 + (seed + 7 * a * a) % 13) / 16 for a in range(n)]


def near(a, b):
	"""Compare numbers rounded by %.4f."""
	return abs(a - b) <= 0.5001e-4


def compare(grammar, model, probs, logprob):
	"""Compare everything that can be observed about a grammar."""
	from discodop.tree import Tree
	mass = model.masses()
	same(grammar.numrules, len(model.rules), 'number of rules')
	same(grammar.numunary, sum(len(a[1]) == 1 for a in model.rules),
			'number of unary rules')
	same(grammar.numbinary, sum(len(a[1]) == 2 for a in model.rules),
			'number of binary rules')
	same(grammar.maxfanout, max([len(a[2]) for a in model.rules]), 'fan-out')
	labels = sorted(set(mass) | {'ROOT'})
	same(sorted(grammar.getlabels()), labels, 'labels')
	same(grammar.nonterminals, len(labels) + 1, 'number of labels')
	same(sorted(grammar.getpos()), sorted({a for a, _ in model.lex}), 'tags')
	same(sorted(grammar.getwords()), sorted({a for _, a in model.lex}),
			'words')
	lines = str(grammar).split('\n')
	i, j = lines.index('lexicon:'), lines.index('labels:')
	same(lines[0], 'rules:', 'first line')
	same(lines[1:i], [grammar.rulestr(n) for n in range(grammar.numrules)],
			'rules')
	seen = []
	for line in lines[1:i]:
		m = RULE.fullmatch(line)
		check(m, 'no match: %r', line)
		key = (m.group('lhs'), tuple(m.group('rhs').split(' ')), tuple(
				tuple(map(int, a)) for a in m.group('yf').split(',')))
		check(key in model.rules, 'rule not expected: %r', line)
		no = int(m.group('no'))
		seen.append(no)
		same(list(model.rules)[no], key, 'rule number %d', no)
		check(close(float(m.group('freq')), model.rules[key]),
				'count of %r', line)
		check(close(float(m.group('mass')), mass[key[0]]),
				'mass of %r', line)
		check(near(float(m.group('p')), probs[0][no]),
				'weight of %r; expected %r', line, probs[0][no])
		same(grammar.getruleno((key[0], ) + key[1], key[2]), no,
				'getruleno')
		if key[2] in (((0, ), ), ((0, 1), )):
			same(grammar.noderuleno(Tree(key[0], [Tree(a, []) for a in key[1]])),
					no, 'noderuleno of %r', key)
		other = (key[0], key[1][::-1], key[2])
		if other not in model.rules:
			raises(KeyError, grammar.getruleno, other[:1] + other[1], other[2])
	same(sorted(seen), list(range(len(model.rules))), 'rule numbers')
	seen, bylex = [], {a: n for n, a in enumerate(model.lex)}
	for line in lines[i + 1:j]:
		m = LEX.fullmatch(line)
		check(m, 'no match: %r', line)
		key = m.group('tag'), m.group('word')
		seen.append(key)
		check(key in model.lex, 'lexical rule not expected: %r', line)
		check(close(float(m.group('freq')), model.lex[key]),
				'count of %r', line)
		check(close(float(m.group('mass')), mass[key[0]]), 'mass of %r', line)
		check(near(float(m.group('p')), probs[1][bylex[key]]),
				'weight of %r; expected %r', line, probs[1][bylex[key]])
	same(sorted(seen), sorted(model.lex), 'lexical rules')
	for word in {a for _, a in model.lex}:
		got = sorted(grammar.getlexprobs(word))
		want = sorted(-math.log(p) if logprob else p
				for (_, a), p in zip(model.lex, probs[1]) if a == word)
		check(len(got) == len(want) and all(abs(a - b) < 1e-9
				for a, b in zip(got, want)), 'lexical probabilities of %r: '
				'%r expected %r', word, got, want)
	same(grammar.getlexprobs('nosuchword'), [], 'unknown word')
	fan = {'ROOT': 1}
	fan.update((lhs, len(yf)) for lhs, _, yf in model.rules)
	same(sorted(a.split('=')[0] + '=' + a.split(' ')[1] for a in ' '.join(
			lines[j + 1:]).split(', ')), sorted(['Epsilon=0'] + ['%s=%d' % (
			a, fan.get(a, 1)) for a in labels]), 'labels with fan-out')


def parse(grammar, model, probs, mask, sents):
	"""Compare charts to reference parser."""
	from discodop import pcfg, plcfrs
	g = model.grammar()
	parsers = [plcfrs]
	if lcfrs.iscfg(g) and mask is None:
		parsers.append(pcfg)
	result = []
	for sent in sents[:3]:
		ref = Forest(g, sent, probs=probs, mask=mask)
		for parser in parsers:
			chart, msg = parser.parse(sent, grammar)
			same(bool(chart), ref.parsed(), 'parse success: %s', msg)
			if not ref.recognized:
				continue
			got = {k: v for k, v in readchart(chart, len(sent)).items()
					if v[1]}
			same(sorted(got), sorted(ref.edges), 'items in chart')
			if ref.order() is None and max(map(max, probs)) > 1:
				continue
			best = ref.viterbi()
			for item in ref.edges:
				check(close(got[item][0], best[item], 1e-4),
						'probability of %r: got %g expected %g', item,
						got[item][0], best[item])
		if ref.parsed():
			result.append('parsed')
	return result


@prop(histories(), 1000, rule='a sentence is parsed after rules were added, '
		'or after storing and loading the grammar')
def history(arg):
	"""Counts, weights, and numbers of rules after a sequence of operations."""
	import numpy as np
	from discodop.containers import Grammar
	g, sents, ops, bitpar, form, seed = arg
	g = {'rules': [a[:3] + (float(a[3]), ) for a in g['rules']],
			'lex': [a[:2] + (float(a[2]), ) for a in g['lex']]}
	# NB: order of lexical rules
	tmp = tempfile.mkdtemp(prefix='gram-', dir='.')
	try:
		words = list(dict.fromkeys(b for _, b, _ in g['lex']))
		g['lex'].sort(key=lambda a: words.index(a[1]))
		model = Model(g)
		names = [os.path.join(tmp, a) for a in ('g.rules', 'g.lex')]
		for name, a in zip(names, text(g, bitpar)):
			with open(name, 'w', encoding='utf8') as out:
				out.write(a)
		alt = {a: np.array(weights(model, seed + n))
				for n, a in enumerate('xy')}
		if form == 'files':
			grammar = Grammar(*names, start='ROOT', altweights=alt)
		else:
			grammar = Grammar(tuples(g), start='ROOT', altweights=alt)
		bitpar = grammar.bitpar
		current, logprob, mask, stale, binary = 'default', True, None, False, False
		classes, saved = set(), False

		def probs():
			if current == 'default':
				mass = model.masses()
				return ([w / mass[a] for (a, _, _), w in model.rules.items()],
						[w / mass[a] for (a, _), w in model.lex.items()])
			a = list(alt[current])
			return a[:len(model.rules)], a[len(model.rules):]
		compare(grammar, model, probs(), logprob)
		for op, a in ops:
			if op == 'add':
				new = {'rules': list(a['rules']), 'lex': list(a['lex'])}
				words = list(dict.fromkeys(b for _, b, _ in new['lex']))
				new['lex'].sort(key=lambda a: words.index(a[1]))
				if saved:  # was frombinfile
					bitpar = grammar.bitpar
				if bitpar and not lcfrs.iscfg(new):
					continue
				rules, lex = text(new, bitpar)
				grammar.addrules(rules.encode('utf8'), lex.encode('utf8'))
				model.add(new)
				alt, current, stale = {}, 'default', False
				same(grammar.models, {}, 'models')
				if mask is not None:  # should be set again
					grammar.setmask(None)
					mask = None
				classes.add('add')
			elif op == 'incr':
				if current != 'default':
					continue
				keys = list(model.rules)
				for no, freq in a:
					key = keys[no % len(keys)]
					grammar.incrementrulecount(no % len(keys), freq)
					model.rules[key] += freq
				grammar.switch('default', not logprob)  # renormalize
				logprob = not logprob
			elif op == 'switch':
				name = a[0] if a[0] in alt else 'default'
				grammar.switch(name, a[1])
				current, logprob = name, a[1]
			elif op == 'bin':
				name = os.path.join(tmp, 'g.bin')
				grammar.tobinfile(name)
				grammar = Grammar.frombinfile(name, *names)
				alt, current, logprob, mask = {}, 'default', True, None
				binary, saved = True, True
				classes.add('bin')
			elif op == 'pickle':
				if 'add' in classes or binary or any(
						b == 'incr' for b, _ in ops):
					continue
				grammar = pickle.loads(pickle.dumps(grammar, protocol=-1))
				current, logprob, mask = 'default', True, None
				classes.add('pickle')
			elif op == 'mask':
				if a is not None:
					a = [n for n in a if n < len(model.rules)]
				grammar.setmask(a)
				mask = a
			same(grammar.start, 'ROOT', 'start symbol')
			same(grammar.currentmodel, current, 'current model')
			same(bool(grammar.logprob), logprob, 'logprob')
			compare(grammar, model, probs(), logprob)
			ok, _ = grammar.testgrammar(epsilon=1e-9)
			sums = Counter()
			for (b, _, _), p in zip(model.rules, probs()[0]):
				sums[b] += p
			for (b, _), p in zip(model.lex, probs()[1]):
				sums[b] += p
			same(bool(ok), all(abs(p - 1) < 1e-9 for p in sums.values()),
					'grammar is proper')
		if not logprob:
			grammar.switch(current, True)
		result = parse(grammar, model, probs(), mask, sents)
		return classes if result else ()
	finally:
		shutil.rmtree(tmp)


# --- errors -------------------------------------------------------------------

@st.composite
def broken(draw):
	"""A grammar with a single mistake."""
	disc = draw(st.booleans())
	g, _ = draw(lcfrs.grammars(disc=disc, maxtrees=2, maxleaves=4))
	rules, lex = text(g, False)
	rules, lex = rules.splitlines(), lex.splitlines()
	kind = draw(st.sampled_from(('fanoutlhs', 'fanoutrhs', 'postag', 'start',
			'arity', 'symbol', 'weight', 'lexweight', 'lexformat', 'dupword',
			'nolhs', 'fields', 'unary', 'binary', 'epsilon', 'norules', 'nolex')))
	n = draw(st.integers(0, len(rules) - 1))
	m = draw(st.integers(0, len(lex) - 1))
	f = rules[n].split('\t')
	w = draw(st.sampled_from(('0', '-1', 'x', '', '1e', '0.0')))
	labels = sorted({a.split('\t')[0] for a in rules})
	label = draw(st.sampled_from(labels))
	fan = int(label.split('_')[1]) if '_' in label else 1
	where = draw(st.integers(0, len(rules)))
	if kind == 'fanoutlhs':  # LHS occurs elsewhere with other fan-out
		rules.insert(where, '\t'.join((label, 'X', 'Y',
				('01,' * fan) + '01', '1')))
	elif kind == 'fanoutrhs':
		rhs = draw(st.sampled_from(sorted({b for a in rules
				for b in a.split('\t')[1:-2]})))
		fan = int(rhs.split('_')[1]) if '_' in rhs else 1
		left = draw(st.booleans())
		yf = ('01' if left else '10') * fan + ('0' if left else '1')
		other = 'Q%d' % fan
		rules.insert(where, '\t'.join(('NEW', ) + ((rhs, other) if left
				else (other, rhs)) + (yf, '1')))
		rules.append('\t'.join((other, 'X', 'X', ','.join(
				['01'] * fan), '1')))
	elif kind == 'postag':
		disclabels = [a for a in labels if '_' in a]
		if not disclabels:
			rules.append('X_2\tX\tX\t0,1\t1')
			disclabels = ['X_2']
		lex.append('new\t%s 1' % draw(st.sampled_from(disclabels)))
	elif kind == 'start':
		rules[n] = '\t'.join(f[:1] + ['ROOT'] + f[2:])
	elif kind == 'arity':
		rules[n] = '\t'.join(f[:1] + draw(st.sampled_from(([],
				['X', 'X', 'X']))) + f[-2:])
	elif kind == 'fields':
		rules[n] = '\t'.join(f[:draw(st.integers(1, len(f) - 1))])
	elif kind == 'symbol':
		rules[n] = '\t'.join(f[:-2] + [f[-2] + draw(st.sampled_from(
				('2', 'a', ' ', '-')))] + f[-1:])
	elif kind == 'weight':
		rules[n] = '\t'.join(f[:-1] + [w])
	elif kind == 'lexweight':
		a, b = lex[m].rsplit(' ', 1)
		lex[m] = '%s %s' % (a, w)
	elif kind == 'lexformat':
		lex[m] = draw(st.sampled_from(('word', 'word\tX', 'word\tX1')))
	elif kind == 'dupword':
		lex.append(lex[m])
	elif kind == 'nolhs':
		rules[n] = '\t'.join(f[:1] + ['NOLHS' + '_%d' % (f[-2].count('0'))]
				+ f[2:])
	elif kind == 'unary':
		rules[n] = '\t'.join([f[0], f[1], ','.join(
				['1'] * (f[-2].count(',') + 1)), '1'])
	elif kind == 'binary':
		rules[n] = '\t'.join([f[0], f[1], 'X', ','.join(
				['0'] * (f[-2].count(',') + 1)), '1'])
	elif kind == 'epsilon':
		rules[n] = '\t'.join(f[:1] + ['Epsilon'] + f[2:])
	elif kind == 'norules':
		rules = []
	elif kind == 'nolex':
		lex = []
	return rules, lex, kind


@prop(broken(), 600, rule='the mistake is not an empty file')
def errors(arg):
	"""A grammar with a mistake is refused with a ValueError."""
	from discodop.containers import Grammar
	rules, lex, kind = arg
	tmp = tempfile.mkdtemp(prefix='gram-', dir='.')
	try:
		names = [os.path.join(tmp, a) for a in ('g.rules', 'g.lex')]
		for name, a in zip(names, (rules, lex)):
			with open(name, 'w', encoding='utf8') as out:
				out.write(''.join(b + '\n' for b in a))
		raises(ValueError, Grammar, *names, start='ROOT')
	finally:
		shutil.rmtree(tmp)
	return [kind] if rules and lex else ()

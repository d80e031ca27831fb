"""C37: the parser command gives the best trees for each sentence."""
import gzip
import io
import logging
import math
import os
import re
import shutil
import sys
import tempfile
from contextlib import redirect_stderr, redirect_stdout
from hypothesis import strategies as st
import lcfrs
import gens
from core import prop, check, same, raises
from gens import biased, leavesof
from lcfrs import Forest, close

NEED = ('bit', 'containers', '_fragments', 'pcfg', 'plcfrs', 'kbest',
		'coarsetofine', 'disambiguation', 'estimates')
WORDS = (('a', 'b', 'c'), ('a', '(', 'c'), ('\u00e9', 'b)', '1=2'),
		('a', '{', '%'))
LIMIT = 400


def readspec(s):
	"""Read tree with words in leaves; returns spec, {index: word}."""
	stack, sent = [[]], {}
	for tok in re.findall(r'\([^\s()]+|\)|[^\s()]+', s):
		if tok[0] == '(':
			stack.append([tok[1:], []])
		elif tok == ')':
			node = stack.pop()
			(stack[-1][1] if len(stack) > 1 else stack[0]).append(node)
		else:
			idx, _, word = tok.partition('=')
			sent[int(idx)] = word
			stack[-1][1].append(int(idx))
	check(len(stack) == 1 and len(stack[0]) == 1, 'not a tree: %r', s)
	return stack[0][0], sent


def tidy(spec):
	"""Expected postprocessing: collapse binarization, remove markers of
	fan-out, order children."""
	kids = []
	for a in spec[1]:
		if isinstance(a, int):
			kids.append(a)
			continue
		a = tidy(a)
		kids.extend(a[1] if '|<' in a[0] else [a])
	return [re.sub(r'\^<[^<>]*>|_[0-9]+$', '', spec[0]), sorted(kids,
			key=lambda x: x if isinstance(x, int) else min(leavesof(x)))]


def rename(g, names):
	"""Give a label another name."""
	def new(label):
		a, b, c = label.partition('_')
		return names.get(a, a) + b + c

	return {'rules': [(new(a), tuple(map(new, b)), yf, w)
			for a, b, yf, w in g['rules']],
			'lex': [(new(a), b, w) for a, b, w in g['lex']]}


@st.composite
def cases(draw):
	disc = draw(st.booleans())
	words = draw(st.sampled_from(WORDS))
	g, sents = draw(lcfrs.grammars(disc=disc, maxleaves=5, words=words,
			acyclic=biased(draw, 4, 3)))
	for _ in range(draw(st.integers(0, 3))):
		sents.append(draw(st.lists(st.sampled_from(
				words + words + ('zz', 'A')), min_size=1, max_size=5)))
	sents = [] if biased(draw, 30, 1) else draw(st.permutations(sents))
	names = draw(st.sampled_from(({}, {'C': 'A|<C>'},
			{'C': 'B|<A>', 'B': 'A|<>'}, {'A': 'NP-SBJ', 'X': '$,'})))
	return dict(g=rename(g, names), sents=sents,
			k=draw(st.sampled_from((None, None, 1, 2, 5, 50))),
			prob=draw(st.booleans()),
			tags=biased(draw, 3, 1),
			fmt=draw(st.sampled_from((None, None, None, 'export', 'bracket',
				'tokens', 'wordpos'))),
			lines=draw(st.sampled_from(('one', 'one', 'x', 'sentid'))),
			blanks=draw(st.lists(st.integers(0, 5), max_size=2)),
			bitpar=draw(st.booleans()),
			numproc=2 if biased(draw, 30, 1) else 1)



def captured(func, *args):
	"""Call function; returns messages on standard error."""
	root = logging.getLogger('')
	old = list(root.handlers), root.level
	err = io.StringIO()
	try:
		with redirect_stderr(err), redirect_stdout(err):
			func(*args)
	finally:
		for handler in list(root.handlers):
			if handler not in old[0]:
				root.removeHandler(handler)
				handler.close()
		root.setLevel(old[1])
	return err.getvalue()


def command(args):
	"""Run parser command; returns messages."""
	from discodop import parser
	orig = sys.argv
	sys.argv = ['discodop', 'parser'] + args
	try:
		return captured(parser.main)
	finally:
		sys.argv = orig


def runexp(args):
	"""Run an experiment in this process."""
	from discodop import cli
	return captured(cli.runexp, args)


def run(case):
	"""Write files and run the command; returns output, messages."""
	from discodop.grammar import writegrammar
	g, sents = case['g'], case['sents']
	tmp = tempfile.mkdtemp(prefix='parser-', dir='.')
	try:
		rules, lex = writegrammar(lcfrs.tuples(g),
				bitpar=case['bitpar'] and lcfrs.iscfg(g))
		for name, data in (('rules', rules), ('lex', lex)):
			with io.open(os.path.join(tmp, name), 'w', encoding='utf8') as out:
				out.write(data)
		lines = []
		for n, sent in enumerate(sents):
			if case['tags']:
				sent = ['%s/%s' % a for a in zip(sent, case['tagged'][n])]
			if case['lines'] == 'x':
				lines.extend(sent)
				lines.append('')
			else:
				lines.append(('%s|' % 'abcdefghij'[n]
						if case['lines'] == 'sentid' else '') + ' '.join(sent))
				if n in case['blanks']:
					lines.append(' ' if n % 2 else '')
		if case['lines'] == 'x' and 1 in case['blanks']:
			lines.pop()
		with io.open(os.path.join(tmp, 'in'), 'w', encoding='utf8') as out:
			out.write('\n'.join(lines) + '\n')
		args = ['--simple', '-s', 'ROOT']
		if case['k'] is not None:
			args += ['-b', str(case['k'])]
		if case['prob']:
			args.append('--prob')
		if case['tags']:
			args.append('--tags')
		if case['lines'] == 'x':
			args.append('-x')
		elif case['lines'] == 'sentid':
			args.append('--sentid')
		if case['fmt'] is not None:
			args.append('--fmt=' + case['fmt'])
		if case['numproc'] != 1:
			args.append('--numproc=%d' % case['numproc'])
		msg = command(args + [os.path.join(tmp, a)
				for a in ('rules', 'lex', 'in', 'out')])
		with io.open(os.path.join(tmp, 'out'), encoding='utf8',
				newline='\n') as inp:
			return inp.read(), msg
	finally:
		shutil.rmtree(tmp)


def withtags(g, sent, tagged):
	"""Lexical items with given tags, also for unknown combinations."""
	mass = lcfrs.masses(g)
	result = []
	for word, tag in zip(sent, tagged):
		known = [a for a in g['lex'] if a[1] == word] or [
				a for a in g['lex'] if a[1] == word.lower()]
		match = re.compile(re.escape(tag) + '($|[-@^/])').match
		items = [(a, w / mass[a]) for a, _, w in known if match(a)]
		result.append(items or sorted({(a, 1) for a, _, _ in g['lex']
				if match(a)}))
	return result


@prop(cases(), 300, rule='some sentence is parsed')
def simple(case):
	"""With plain grammar files, the output has the k best derivations of each
	sentence in order."""
	g = case['g'] = lcfrs.useful(case['g'])
	if (not any(a[0] == 'ROOT' for a in g['rules'])
			or any('ROOT' in a[1] for a in g['rules'])
			# the parser for PCFGs is selected, which is monotone
			or (not lcfrs.iscfg(g) and all(len(a[2]) == 1
				for a in g['rules']))):
		return ()
	case['tagged'] = [[next((t for t, w, _ in g['lex'] if w == a), 'X')
			for a in sent] for sent in case['sents']]
	out, msg = run(case)
	result = []
	if case['fmt'] is None:
		trees = [a.split('\t') for a in out.split('\n')]
		same(trees.pop(), [''], 'end of output')
	k = case['k'] or 1
	pos = 0
	for sent, tagged in zip(case['sents'], case['tagged']):
		ref = Forest(g, sent, lexitems=withtags(g, sent, tagged)
				if case['tags'] else None)
		if not ref.parsed():
			result.append('unparsed')
			num, probs = 1, None
		elif ref.order() is None:
			return ()
		else:
			num = ref.inside(counts=True)[ref.root]
			if num > LIMIT:
				return ()
			derivs = ref.derivations()
			probs = sorted((p for p, _, _ in derivs), reverse=True)
			num = min(num, k)
			result.append('parsed')
			if num > 1:
				result.append('kbest')
		if case['fmt'] is not None:
			continue
		for n in range(num):
			if probs is None and trees[pos][0].startswith('prob='):
				pos += 1
			tree, *prob = trees[pos]
			pos += 1
			spec, words = readspec(tree)
			same([words[i].replace('#LRB#', '(').replace('#RRB#', ')')
					for i in range(len(words))], sent, 'sentence of %s', tree)
			same(spec[0], 'ROOT', 'root of %s', tree)
			same(sorted(leavesof(spec)), list(range(len(sent))),
					'indices of %s', tree)
			same(len(prob), case['prob'], 'fields of line')
			if probs is None:
				continue
			tree = gens.strspec(spec)
			cands = [p for p, a, _ in derivs
					if gens.strspec(tidy(readspec(a)[0])) == tree]
			check(cands, 'tree %s not among derivations of %r', tree, sent)
			check(any(close(p, probs[n]) for p in cands),
					'tree %s of rank %d should have probability %g; has %r',
					tree, n, probs[n], cands)
			if prob:
				check(close(float(prob[0][len('prob='):]), probs[n]),
						'probability reported: %r, expected %g',
						prob[0], probs[n])
	if case['fmt'] is None:
		same(pos, len(trees), 'number of lines of output')
	return result


# --- experiments ----------------------------------------------------------------

VARIANTS = {  # sequences of stages
	'lcfrs': [dict(mode='plcfrs')],
	'split': [dict(mode='pcfg', split=True, markorigin=True),
			dict(mode='plcfrs', prune='s0', k=0)],
	'splitdop': [dict(mode='pcfg', split=True, markorigin=True),
			dict(mode='plcfrs', prune='s0', k=0),
			dict(mode='plcfrs', prune='s1', k=0, dop='doubledop')],
	'reduction': [dict(mode='plcfrs', dop='reduction')],
	'doubledop': [dict(mode='plcfrs', dop='doubledop')],
	'dop1': [dict(mode='plcfrs'), dict(mode='plcfrs', prune='s0', k=0,
			dop='dop1', maxdepth=2)],
	'pcfg': [dict(mode='pcfg'), dict(mode='pcfg', prune='s0', k=0,
			dop='reduction')],
	'ostag': [dict(mode='pcfg', dop='ostag')],
	'rerank': [dict(mode='plcfrs', m=50), dict(mode='dop-rerank', prune='s0',
			k=50, dop='reduction')],
}
CONT = ('pcfg', 'ostag')
EXT = {'export': 'export', 'discbracket': 'dbr', 'bracket': 'mrg'}


@st.composite
def experiments(draw):
	variant = draw(st.sampled_from(sorted(VARIANTS)))
	disc = variant not in CONT and draw(st.booleans())
	fmt = draw(st.sampled_from(('export', 'discbracket')
			+ (() if disc else ('bracket', ))))
	items = draw(st.lists(gens.treesents(word=st.sampled_from(
			('a', 'b', 'c', 'd', '\u00e9', ',')), maxleaves=5, root='ROOT',
			disc=disc, phrasal=('A', 'B_x', 'NP-SBJ'), pos=('X', 'Y_z', '$,'),
			unary=False), min_size=2, max_size=5))
	obj = ('mpp', 'mpd') if variant == 'ostag' else (
			'mpp', 'mpp', 'mpd', 'shortest', 'sl-dop', 'sl-dop-simple')
	return dict(variant=variant, fmt=fmt, items=items,
			train=(draw(st.integers(0, 1)), draw(st.integers(1, 5))),
			test=(draw(st.integers(0, 2)), draw(st.integers(1, 3))),
			maxwords=draw(st.sampled_from((40, 40, 4))),
			skiptrain=draw(st.booleans()) and draw(st.booleans()),
			samefile=draw(st.booleans()),
			h=draw(st.sampled_from((0, 1, 2, 999))),
			v=draw(st.sampled_from((1, 1, 2))),
			factor=draw(st.sampled_from(('right', 'left'))),
			method=draw(st.sampled_from(('default', 'default', 'optimal'))),
			objective=draw(st.sampled_from(obj)),
			postagging=draw(st.sampled_from((None, None, '4', '6', 'base'))),
			punct=draw(st.sampled_from((None, )
				if variant in CONT or fmt == 'bracket'
				else (None, None, None, 'move', 'root'))),
			headrules=biased(draw, 4, 1),
			verbosity=draw(st.sampled_from((0, 1, 2))),
			numproc=2 if biased(draw, 20, 1) else 1,
			name=draw(st.sampled_from(('exp', 'exp', 'e.xp', 'x.prm'))),
			giventop=draw(st.booleans()), param=draw(st.booleans()))


def discbracket(spec, sent):
	"""Tree as discbracket string."""
	if isinstance(spec, int):
		return '%d=%s' % (spec, sent[spec])
	return '(%s %s)' % (spec[0], ' '.join(discbracket(a, sent)
			for a in spec[1]))


def written(items, fmt):
	"""Treebank file: list of blocks."""
	from discodop.treebank import writetree
	from discodop.tree import ParentedTree
	return [writetree(ParentedTree(gens.strspec(spec)), sent, str(n), fmt)
			for n, (spec, sent) in enumerate(items, 1)]


def readback(fname, fmt):
	from discodop.treebank import READERS
	return [(key, gens.unmk(item.tree), item.sent) for key, item in
			READERS[fmt](fname).itertrees()]


def sorted_(spec):
	"""Canonical order."""
	return [spec[0], sorted([a if isinstance(a, int) else sorted_(a)
			for a in spec[1]],
			key=lambda x: x if isinstance(x, int) else min(leavesof(x)))]


@prop(experiments(), 250, rule='a test sentence is parsed')
def experiment(case):
	"""An experiment trains on and parses the requested sentences; results can
	be reproduced with the stored grammar."""
	fmt, items = case['fmt'], case['items']
	items = [(sorted_(a), b) for a, b in items]
	tmp = tempfile.mkdtemp(prefix='exp-', dir='.')
	try:
		return doexp(case, fmt, items, tmp)
	finally:
		shutil.rmtree(tmp)


def doexp(case, fmt, items, tmp):
	skip, num = case['train']
	train = [a for a in items[skip:skip + num] if len(a[1]) <= 4
			or case['maxwords'] > 4]
	tskip, tnum = case['test']
	if case['skiptrain']:
		tskip += num
	test = [(n, a) for n, a in enumerate(items[tskip:tskip + tnum], tskip + 1)
			if len(a[1]) <= 40]
	if not train or not test:
		return ()
	blocks = written(items, fmt)
	for name in ('train', 'test'):
		with io.open(os.path.join(tmp, name), 'w', encoding='utf8') as out:
			out.write(''.join(blocks))
	stages = [dict(a, name='s%d' % n, **({'objective': case['objective']}
			if a.get('dop') and a['mode'] != 'dop-rerank' else {}))
			for n, a in enumerate(VARIANTS[case['variant']])]
	params = dict(stages=stages, evalparam=None, corpusfmt=fmt,
			traincorpus=dict(path=os.path.join(tmp, 'train'), skip=skip,
				numsents=num, maxwords=case['maxwords']),
			testcorpus=dict(path=os.path.join(tmp, 'train'
				if case['samefile'] else 'test'), numsents=tnum,
				skip=case['test'][0], skiptrain=case['skiptrain']),
			postagging=case['postagging'] and dict(method='unknownword',
				model=case['postagging'], unknownthreshold=1,
				openclassthreshold=2),
			binarization=dict(method=case['method'], factor=case['factor'],
				h=case['h'], v=case['v'],
				headrules=os.path.join(tmp, 'heads')
					if case['headrules'] else None), punct=case['punct'],
			verbosity=case['verbosity'], numproc=case['numproc'])
	with io.open(os.path.join(tmp, 'heads'), 'w') as out:
		out.write(HEADS)
	name = case.get('name', 'exp')
	prm = os.path.join(tmp, name + '.prm')
	with io.open(prm, 'w', encoding='utf8') as out:
		if case.get('giventop'):
			out.write("top='ROOT',\n")
		out.write(',\n'.join('%s=%r' % a for a in params.items()))
	msg = runexp([prm])
	resultdir = os.path.join(tmp, name)
	with io.open(os.path.join(resultdir, 'params.prm'), encoding='utf8') as inp:
		stored = inp.read()
	with io.open(prm, encoding='utf8') as inp:
		same(stored, ('' if case.get('giventop') else "top='ROOT',\n")
				+ inp.read(), 'stored parameters')
	raises(ValueError, runexp, [prm])
	results = {}
	for name in ['gold'] + [a['name'] for a in stages]:
		fname = os.path.join(resultdir, '%s.%s' % (name, EXT[fmt]))
		with io.open(fname, encoding='utf8', newline='\n') as inp:
			results[name] = inp.read(), readback(fname, fmt)
	same(results['gold'][0], ''.join(blocks[n - 1] for n, _ in test),
			'gold file')
	with io.open(os.path.join(resultdir, 'stats.tsv'), encoding='utf8',
			newline='') as inp:
		lines = [a.split('\t') for a in inp.read().split('\r\n')]
	check(lines.pop() == [''], 'end of stats.tsv')
	fields = lines.pop(0)
	stats = [dict(zip(fields, a)) for a in lines]
	same([(a['len'], a['stage']) for a in stats],
			[(str(len(a[1])), s['name']) for _, a in test for s in stages],
			'rows of stats.tsv')
	result = []
	for s in stages:
		trees = results[s['name']][1]
		same([sent for _, _, sent in trees], [a[1] for _, a in test],
				'sentences of stage %s', s['name'])
		if fmt == 'export':
			same([key for key, _, _ in trees], [str(n) for n, _ in test],
					'sentence numbers of stage %s', s['name'])
		for (_, spec, sent), (_, gold) in zip(trees, test):
			same(sorted(leavesof(spec)), list(range(len(sent))), 'leaves')
			same(spec[0], 'ROOT', 'root label')
			for node in gens.nodesof(spec):
				check(node[0] in LABELS, 'label %r in result', node[0])
	result.extend(coverage(case, train, test, stages, results, stats, msg))
	if case['numproc'] == 1:
		runexp([prm, '--rerun'])
		for a in stages:
			fname = os.path.join(resultdir, '%s.%s' % (a['name'], EXT[fmt]))
			with io.open(fname, encoding='utf8', newline='\n') as inp:
				same(inp.read(), results[a['name']][0], 'rerun of %s', a['name'])
		with io.open(os.path.join(resultdir, 'params.prm'), encoding='utf8'
				) as inp:
			same(inp.read(), stored, 'parameters after rerun')
		same(asinput(case, resultdir, test), [gens.strspec(sorted_(spec))
				for _, spec, _ in results[stages[-1]['name']][1]],
				'trees from parser command')
		if case.get('param'):
			gramdir = os.path.join(tmp, 'gram')
			captured(grammar, ['param', prm, gramdir])
			files = set(os.listdir(gramdir))
			check('params.prm' in files, 'parameters are missing')
			same(grammarfiles(gramdir), grammarfiles(resultdir),
					'grammar extracted with parameters of experiment')
			same(asinput(case, gramdir, test), [gens.strspec(sorted_(spec))
					for _, spec, _ in results[stages[-1]['name']][1]],
					'trees from parser command with extracted grammar')
	return result


def grammar(args):
	from discodop import cli
	orig = cli.argv, sys.argv
	cli.argv = sys.argv = ['discodop', 'grammar'] + args
	try:
		cli.grammar()
	finally:
		cli.argv, sys.argv = orig


def grammarfiles(dirname):
	result = {}
	for name in os.listdir(dirname):
		if name.endswith(('.rules.gz', '.lex.gz', '.backtransform.gz',
				'.fragments.gz', '.probs.npz', '.txt')):
			with (gzip.open if name.endswith('.gz') else open)(
					os.path.join(dirname, name), 'rb') as inp:
				result[name] = (sorted(inp) if name.endswith('.txt')
						else inp.read())
	return result


def asinput(case, resultdir, test):
	"""Give the test sentences to the parser command."""
	fname = os.path.join(resultdir, 'sents')
	with io.open(fname, 'w', encoding='utf8') as out:
		for _, (spec, sent) in test:
			tags = dict((i, a[0]) for a in gens.nodesof(spec)
					if gens.ispre(a) for i in a[1])
			out.write(' '.join(sent if case['postagging'] else
					['%s/%s' % (w, tags[i]) for i, w in enumerate(sent)])
					+ '\n')
	command(([] if case['postagging'] else ['--tags'])
			+ [resultdir, fname, fname + '.out'])
	with io.open(fname + '.out', encoding='utf8', newline='\n') as inp:
		lines = inp.read().split('\n')
	same(lines.pop(), '', 'end of output')
	return [gens.strspec(sorted_(readspec(a)[0])) for a in lines]


def tagsof(spec):
	return [a for _, a in sorted((a[1][0], a[0]) for a in gens.nodesof(spec)
			if gens.ispre(a))]


def coverage(case, train, test, stages, results, stats, msg):
	"""Compare with reference grammar."""
	from discodop.treetransforms import binarize
	from discodop.tree import ParentedTree
	result = []
	known = {(gens.strspec(a), tuple(b)) for a, b in train}
	tagged = {(tuple(tagsof(a)), tuple(b)) for a, b in train}
	trained = [n for n, (_, (a, b)) in enumerate(test)
			if (tuple(tagsof(a)), tuple(b)) in tagged]
	if trained:
		result.append('training sentence')
	ref = None
	if (not case['postagging'] and case['method'] == 'default'
			and not case['headrules'] and not case['punct']):
		bintrees = []
		for spec, sent in train:
			tree = binarize(ParentedTree(gens.strspec(spec)),
					factor=case['factor'], horzmarkov=case['h'],
					vertmarkov=case['v'])
			bintrees.append((sorted_(gens.unmk(tree)), sent))
		ref = lcfrs.extract(bintrees)
	for stage in stages:
		for n in trained:
			if case['postagging'] or stage.get('dop') == 'ostag':
				break
			parsed = results[stage['name']][1][n][1]
			same(tagsof(parsed), tagsof(test[n][1][0]), 'tags of sentence')
			check(all(a[0] not in ('NN', 'NOPARSE')
					for a in gens.nodesof(parsed)),
					'no parse for sentence of training corpus: %r', parsed)
	for m, stage in enumerate(stages):
		if ref is None or stage.get('dop') == 'ostag':
			break
		noparse = 0
		for n, (_, (spec, sent)) in enumerate(test):
			forest = Forest(ref, sent, lexitems=withtags(ref, sent,
					tagsof(spec)))
			if not forest.parsed():
				noparse += 1
				continue
			result.append('parsed')
			parsed = results[stage['name']][1][n][1]
			same(tagsof(parsed), tagsof(spec), 'tags of sentence %d', n)
			check(all(a[0] not in ('NN', 'NOPARSE') for a in gens.nodesof(parsed)),
					'partial parse: %r', parsed)
			if stage.get('dop') or stage.get('split'):
				continue
			if forest.order() is None:
				continue
			best = forest.viterbi()[forest.root]
			row = stats[n * len(stages) + m]
			check(abs(float(row['logprob']) - math.log(best)) < 1e-4,
					'log probability of sentence %d is %s, expected %g',
					n, row['logprob'], math.log(best))
			if forest.inside(counts=True)[forest.root] > LIMIT:
				continue
			tree = gens.strspec(sorted_(parsed))
			cands = [p for p, a, _ in forest.derivations()
					if gens.strspec(tidy(readspec(a)[0])) == tree]
			check(any(close(p, best) for p in cands),
					'tree %s of stage %s should have probability %g; has %r',
					tree, stage['name'], best, cands)
		if case['verbosity'] and not stage.get('split'):
			cov = re.findall(r'coverage: +([0-9]+) / ([0-9]+) =', msg)
			check(m < len(cov), 'no coverage: %r', msg[-800:])
			# NB: partial parses are counted as parses
			check(len(test) >= int(cov[m][0]) >= len(test) - noparse,
					'coverage of stage %s: %r', stage['name'], cov[m])
			same(cov[m][1], str(len(test)), 'number of test sentences')
	return result


HEADS = """A LEFT-TO-RIGHT Y
A RIGHT-TO-LEFT
ROOT RIGHT B A NP
NP LEFT X
"""
LABELS = {'ROOT', 'A', 'B_x', 'NP-SBJ', 'X', 'Y_z', '$,', 'NN', 'NOPARSE'}

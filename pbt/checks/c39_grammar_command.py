"""The command to extract grammars, from treebank file to grammar file."""
import gzip
import io
import math
import os
import shutil
import sys
import tempfile
from collections import Counter, defaultdict
from contextlib import redirect_stdout, redirect_stderr
from hypothesis import strategies as st
import gens
from core import prop, check, same
from fragref import Table, common, occurrences, allfragments

NEED = ('bit', 'containers', '_fragments', 'pcfg', 'plcfrs', 'kbest',
		'coarsetofine', 'disambiguation', 'estimates')
ASSUMPTIONS = ["labels do not contain '@', '{', '}', '='"]
WORDS = ('a', 'A', 'b', '\xe9', '(', '%', '.', '0x1', ',')
SPECS = dict(word=st.sampled_from(WORDS), phrasal=('S', 'NP', 'VP', '.X'),
		pos=('A', 'B', ',', 'NP', 'X1'), maxleaves=7, maxarity=4)


@st.composite
def treebanks(draw, disc=None, minsize=1, maxsize=5, **kwds):
	disc = draw(st.booleans()) if disc is None else disc
	kw = dict(SPECS, disc=disc, **kwds)
	items = draw(st.lists(gens.treesents(**kw), min_size=minsize,
			max_size=maxsize))
	for spec, sent in draw(st.lists(st.sampled_from(items), max_size=2)):
		sent = sent[:]
		sent[draw(st.integers(0, len(sent) - 1))] = draw(
				st.sampled_from(WORDS))
		items.append((spec, sent))
	return [(['ROOT', [a] if draw(st.booleans()) or gens.ispre(a)
			else a[1]], b) for a, b in items], disc


def call(args):
	"""Run command; return output."""
	from discodop import cli
	orig = cli.argv, sys.argv
	out = io.StringIO()
	cli.argv = sys.argv = ['discodop', 'grammar'] + args
	try:
		with redirect_stdout(out), redirect_stderr(io.StringIO()):
			cli.grammar()
	finally:
		cli.argv, sys.argv = orig
	return out.getvalue()


def marked(spec):
	"""Add markers for fan-out."""
	n = gens.blocks(gens.leavesof(spec))
	return [spec[0] + ('_%d' % n if n > 1 else ''),
			[a if isinstance(a, int) else marked(a) for a in spec[1]]]


def prepare(items, dot):
	"""Binarized trees and tables."""
	from discodop.tree import ParentedTree
	from discodop.treetransforms import binarize
	trees = [binarize(gens.mk(gens.canonspec(spec), ParentedTree), dot=dot,
			horzmarkov=999 if dot else 1) for spec, _ in items]
	tabs = [Table(marked(gens.canonspec(gens.unmk(a))), sent)
			for a, (_, sent) in zip(trees, items)]
	return trees, tabs


def write(trees, items, fmt, enc, fname):
	from discodop.treebank import writetree
	with io.open(fname, 'w', encoding=enc) as out:
		for n, (tree, (_, sent)) in enumerate(zip(trees, items), 1):
			out.write(writetree(tree, sent, str(n), fmt))


def openfile(name):
	return io.TextIOWrapper(gzip.open(name) if name.endswith('.gz')
			else open(name, 'rb'), encoding='utf8', newline='\n')


def read(base, bitpar, ext):
	"""Read the files of a grammar; result is list of ((lhs, rhs..), yf), w"""
	rules = []
	with openfile(base + '.rules' + ext) as inp:
		for line in inp:
			x = line.rstrip('\n').split('\t')
			if bitpar:
				check(3 <= len(x) <= 4, 'bitpar rule %r', line)
				rules.append(((tuple(x[1:]), (tuple(range(len(x) - 2)), )),
						float(x[0])))
			else:
				check(4 <= len(x) <= 5, 'plcfrs rule %r', line)
				rules.append(((tuple(x[:-2]), tuple(tuple(map(int, a))
						for a in x[-2].split(','))), float(x[-1])))
	words = []
	with openfile(base + '.lex' + ext) as inp:
		for line in inp:
			word, *tags = line.rstrip('\n').split('\t')
			words.append(word)
			for a in tags:
				tag, weight = a.split(' ')
				rules.append((((tag, 'Epsilon'), (word, )), float(weight)))
	same(words, sorted(words), 'order of words')
	same(len(words), len(set(words)), 'number of words')
	same(len(rules), len({a for a, _ in rules}), 'number of rules')
	return rules


def production(prod):
	"""Production as written in files."""
	if len(prod) == 2:
		return (prod[0], 'Epsilon'), (prod[1], )
	return (prod[0], ) + prod[1], prod[2]


def compare(got, want, msg):
	same(sorted(got), sorted(want), 'keys of %s', msg)
	for a, w in want.items():
		check(math.isclose(got[a], w, rel_tol=1e-5), '%s: weight of %r is %r, '
				'expected %r', msg, a, got[a], w)


TYPES = ('pcfg', 'plcfrs', 'dopreduction', 'doubledop', 'dop1')


@st.composite
def cases(draw, types=TYPES):
	model = draw(st.sampled_from(types))
	items, disc = draw(treebanks(False if model == 'pcfg' else None))
	fmt = draw(st.sampled_from(('export', 'discbracket') if disc else
			('export', 'discbracket', 'bracket')))
	opts = dict(fmt=fmt, gzip=draw(st.booleans()),
			enc=draw(st.sampled_from(('utf8', 'iso-8859-1'))),
			dot=draw(st.booleans()), reverse=draw(st.booleans()))
	if model == 'dopreduction':
		opts['packed'] = draw(st.booleans())
	if model.startswith('dop') or model == 'doubledop':
		opts['est'] = draw(st.sampled_from((None, 'rfe', 'ewe', 'shortest')))
	if model == 'dop1':
		opts['maxdepth'] = draw(st.sampled_from((None, 1, 2, 3)))
		opts['maxfrontier'] = draw(st.sampled_from((None, None, 2, 3)))
	return model, items, opts


def expand(sym, w, rule, aux, used):
	"""Undo binarization; returns (symbols, components)."""
	(nts, yf) = rule
	parts, syms = [], []
	for a in nts[1:]:
		if '}<' in a:
			check(a in aux, 'rule for %r', a)
			used.add(a)
			same(aux[a][1], w, 'weight of auxiliary rule')
			x, comps = expand(a, w, aux[a][0], aux, used)
			parts.append([[len(syms) + b for b in c] for c in comps])
			syms.extend(x)
		else:
			parts.append(len(syms))
			syms.append(a)
	result = []
	for arg in yf:
		result.append([])
		for n in arg:
			if isinstance(parts[n], list):
				check(parts[n], 'too few components: %r', rule)
				result[-1].extend(parts[n].pop(0))
			else:
				result[-1].append(parts[n])
	check(not any(a for a in parts if isinstance(a, list)),
			'unused components in %r', rule)
	return syms, result


def recover(rules, templates):
	"""Fragments from grammar; {fragment: weight}"""
	aux = {r[0][0]: (r, w) for r, w in rules if '}<' in r[0][0]}
	used, result, words = set(), Counter(), {}
	for (r, yf), w in rules:
		if r[1] == 'Epsilon':
			if '@' in r[0]:
				words[r[0]] = yf[0].replace('(', '#LRB#')
				same(w, 1, 'weight of terminal')
			else:
				result['(%s 0=%s)' % (r[0], yf[0].replace('(', '#LRB#'))] = w
	check(len(templates) <= len(rules), 'too many templates')
	for (rule, w), template in zip(rules, templates):
		check('}<' not in rule[0][0] and rule[0][1] != 'Epsilon',
				'template %r with rule %r', template, rule)
		syms, comps = expand(rule[0][0], 1, rule, aux, used)
		idx, m, prev = {}, -1, None
		for comp in comps:
			m += 1 if m >= 0 else 0
			for n in comp:
				m += 1
				idx.setdefault(n, []).append(m)
		args = []
		for n, a in enumerate(syms):
			if '@' in a:
				check(a in words, 'no rule for %r', a)
				args.append('(%s %d=%s)' % (a.split('@')[0], idx[n][0],
						words[a]))
			else:
				args.append('(%s %s)' % (a, ' '.join('%d=' % b
						for b in idx[n])))
		frag = template.format(*args)
		check(frag not in result, 'duplicate fragment %r', frag)
		result[frag] = w
	same(used, set(aux), 'auxiliary labels')
	same(len(rules), len(templates) + len(aux) + sum(
			r[1] == 'Epsilon' for (r, _), _ in rules), 'number of rules')
	return result


def fragments(tabs, model, opts):
	"""Reference; fragments with occurrences."""
	found = {}
	for n, a in enumerate(tabs):
		if model == 'doubledop':
			frags = {b for m in range(n + 1, len(tabs))
					for b in common(a, tabs[m])}
			frags.update(allfragments(a, 1, 999))
		else:
			frags = allfragments(a, opts['maxdepth'] or 3,
					999 if opts['maxfrontier'] is None
					else opts['maxfrontier'])
		for root, nodes in frags:
			found.setdefault(a.string(nodes, root), (n, root, nodes))
	return {frag: [m for m, _ in occurrences(tabs[n], root, nodes, tabs)]
			for frag, (n, root, nodes) in found.items()}


def plain(frag):
	"""Fragments with words as in file."""
	return frag.replace('=()', '=#LRB#)')


@prop(cases(), 600, rule='trees recur')
def extract(arg):
	"""The grammar files contain the requested grammar of the treebank."""
	from discodop.grammar import dopreduction
	from discodop.treetransforms import addfanoutmarkers, canonicalize
	model, items, opts = arg
	trees, tabs = prepare(items, opts['dot'])
	tmp = tempfile.mkdtemp()
	try:
		infile, base = os.path.join(tmp, 'in'), os.path.join(tmp, 'x.y')
		if opts['fmt'] == 'discbracket' and opts['reverse']:
			# the order of children in the file is not significant
			for tree in trees:
				for a in list(tree.subtrees(lambda n: len(n) > 1)):
					a[:] = [b.detach() for b in reversed(list(a))]
		write(trees, items, opts['fmt'], opts['enc'], infile)
		args = [model, infile, base]
		if opts['fmt'] != 'export':
			args.append('--inputfmt=' + opts['fmt'])
		if opts['enc'] != 'utf8':
			args.append('--inputenc=' + opts['enc'])
		if opts['gzip']:
			args.append('--gzip')
		if opts.get('packed'):
			args.append('--packed')
		if opts.get('est'):
			args.append('--dopestimator=' + opts['est'])
		for a in ('maxdepth', 'maxfrontier'):
			if opts.get(a) is not None:
				args.append('--%s=%d' % (a, opts[a]))
		frags = fragments(tabs, model, opts) if model in (
				'doubledop', 'dop1') else None
		if frags is not None and not frags:
			return ()
		out = call(args)
		ext = '.gz' if opts['gzip'] else ''
		names = ['in', 'x.y.rules' + ext, 'x.y.lex' + ext] + [
				'x.y.backtransform' + ext] * (frags is not None)
		same(sorted(os.listdir(tmp)), sorted(names), 'files')
		check('wrote grammar to %s and %s.' % (base + '.rules' + ext,
				base + '.lex' + ext) in out, 'message %r', out)
		rules = read(base, model == 'pcfg' or opts['fmt'] == 'bracket', ext)
		if frags is None:
			templates = None
		else:
			with openfile(base + '.backtransform' + ext) as inp:
				templates = inp.read().split('\n')
			same(templates.pop(), '', 'end of file')
	finally:
		shutil.rmtree(tmp)
	check('clauses: %d ' % len(rules) in out, 'statistics %r', out)
	freqs = Counter(production(p) for tab in tabs for p in tab.prod)
	if model in ('pcfg', 'plcfrs'):
		compare(dict(rules), freqs, 'productions')
	elif model == 'dopreduction':
		trees = [addfanoutmarkers(canonicalize(a)) for a in trees]
		ref, alt = dopreduction(trees, [b for _, b in items],
				packedgraph=opts['packed'])
		weights = [w for _, w in ref] if opts['est'] in (
				None, 'rfe') else alt[opts['est']]
		want = Counter()
		for ((r, yf), _), w in zip(ref, weights):
			want[r, (yf[0].replace('#LRB#', '('), )
					if r[1] == 'Epsilon' else yf] += w
		compare(dict(rules), want, 'DOP reduction')
	else:
		got = recover(rules, templates)
		pertree = Counter(n for a in frags.values() for n in a)
		if opts['est'] in (None, 'rfe'):
			want = {plain(a): len(b) for a, b in frags.items()}
		elif opts['est'] == 'ewe':
			raw = {a: sum(1 / pertree[n] for n in b)
					for a, b in frags.items()}
			total = Counter()
			for a, w in raw.items():
				total[a.split(' ')[0]] += w
			want = {plain(a): w / total[a.split(' ')[0]]
					for a, w in raw.items()}
		else:
			want = {plain(a): .5 for a in frags}
		compare(got, want, 'fragments')
	return [model, opts['fmt']] + [str(opts.get('est'))] if max(freqs.values()) > 1 else ()


@st.composite
def tsgs(draw):
	items, disc = draw(treebanks(minsize=2, maxsize=3))
	return (items, disc or draw(st.booleans()), draw(st.booleans()),
			draw(st.lists(st.tuples(st.integers(1, 99), st.sampled_from(
			('%d', '%d', '%d/8', 'hex', '%d.5'))), min_size=99, max_size=99)),
			draw(st.integers(0, 30)))


@prop(tsgs(), 300, rule='more than two fragments')
def ptsg(arg):
	"""Weighted fragments from a file."""
	items, disc, compress, weights, skip = arg
	_, tabs = prepare(items, True)
	frags = [(n, root, nodes) for n, a in enumerate(tabs)
			for root, nodes in allfragments(a, 3, 4)]
	uniq = {}
	for n, root, nodes in frags[skip:skip + 50] + [
			a for a in frags if len(a[2]) == 1]:  # complete coverage
		uniq.setdefault(tabs[n].string(nodes, root), (n, root, nodes))
	lines, want = [], {}
	for (frag, (n, root, nodes)), (num, fmt) in zip(uniq.items(), weights):
		lines.append('%s\t%s\n' % (tabs[n].string(nodes, root, disc=disc).replace(
				' ()', ' #LRB#)').replace('=()', '=#LRB#)'),
				float(num).hex() if fmt == 'hex' else fmt % num))
		want[plain(frag)] = num / (8 if '/' in fmt else 1) + (
				.5 if '.' in fmt else 0)
	tmp = tempfile.mkdtemp()
	try:
		infile, base = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
		with io.open(infile, 'w', encoding='utf8') as out:
			out.writelines(lines)
		call(['ptsg', infile, base, '-s', 'ROOT'] + ['--gzip'] * compress)
		ext = '.gz' if compress else ''
		rules = read(base, not disc, ext)
		with openfile(base + '.backtransform' + ext) as inp:
			templates = inp.read().splitlines()
	finally:
		shutil.rmtree(tmp)
	compare(recover(rules, templates), want, 'fragments')
	return ['disc' if disc else 'cont'] if len(want) > 2 else ()


@prop(st.tuples(treebanks(minsize=2), st.integers(1, 4), st.booleans(),
		st.booleans()), 250, rule='a rule occurs in two parts')
def merged(arg):
	"""Merging grammars of parts of a treebank gives the grammar of the whole
	treebank."""
	(items, disc), numparts, compress, bitpar = arg
	trees, tabs = prepare(items, False)
	parts = [range(a, len(items), numparts + 1) for a in range(numparts + 1)]
	parts = [a for a in parts if a]
	bitpar = bitpar and not disc
	ext = '.gz' if compress else ''
	tmp = tempfile.mkdtemp()
	try:
		bases = []
		for n, part in enumerate(parts):
			bases.append(os.path.join(tmp, 'p%d' % n))
			write([trees[a] for a in part], [items[a] for a in part], 'export',
					'utf8', bases[-1])
			call(['pcfg' if bitpar else 'plcfrs', bases[-1], bases[-1]]
					+ ['--gzip'] * compress)
		base = os.path.join(tmp, 'out')
		if len(parts) < 2:
			try:
				call(['merge', 'rules', bases[0] + '.rules' + ext, base])
			except ValueError:
				return ()
			check(False, 'merged a single file')
		for a, b in (('rules', '.rules'), ('lexicon', '.lex')):
			call(['merge', a] + [c + b + ext for c in bases]
					+ [base + b + ext])
		rules = read(base, bitpar, ext)
		info = call(['info', base + '.rules' + ext])
	finally:
		shutil.rmtree(tmp)
	freqs = [Counter(production(p) for n in part for p in tabs[n].prod)
			for part in parts]
	want = Counter()
	for a in freqs:
		for p in a:
			want[p] += a[p] / len(parts)
	compare(dict(rules), want, 'merged')
	lhs, lines = defaultdict(list), info.splitlines()
	for (r, _), w in want.items():
		if r[1] != 'Epsilon':
			lhs[r[0]].append(w)
	same(lines[0], 'LHS\t# rules\tfreq. mass', 'header')
	got = {}
	for a in lines[1:]:
		label, num, mass = a.split('\t')
		check(label not in got, 'label %r repeated', label)
		got[label] = (int(num), float(mass))
	same({a: b for a, (b, _) in got.items()},
			{a: len(b) for a, b in lhs.items()}, 'number of rules')
	compare({a: b for a, (_, b) in got.items()},
			{a: sum(b) for a, b in lhs.items()}, 'frequency mass')
	return ['%d parts' % len(parts)] if sum(map(len, freqs)) > len(
			want) else ()


@prop(st.lists(st.dictionaries(st.sampled_from(('(S (A a) (B b))',
		'(S (A a) (B ))', '(S (A a)(B b))', '(S (A 0=) (B 1=b))', '(A a)',
		'(S (A a=b))', '(S (A a=c))', '(X (Y 0=y) (Z ))', '(S (A A))')),
		st.integers(1, 40), max_size=7), min_size=2, max_size=4), 100,
		rule='fragment occurs in two files')
def mergefragments(tables):
	"""Merging sorted files with fragments averages their weights."""
	tmp = tempfile.mkdtemp()
	try:
		names = []
		for n, a in enumerate(tables):
			names.append(os.path.join(tmp, 'f%d' % n))
			with io.open(names[-1], 'w', encoding='utf8') as out:
				out.writelines('%s\t%d\n' % b for b in sorted(a.items()))
		call(['merge', 'fragments'] + names + [os.path.join(tmp, 'out')])
		with openfile(os.path.join(tmp, 'out')) as inp:
			got = [a.rstrip('\n').split('\t') for a in inp]
	finally:
		shutil.rmtree(tmp)
	want = Counter()
	for a in tables:
		for frag, w in a.items():
			want[frag] += w / len(tables)
	same([a for a, _ in got], sorted(want), 'fragments')
	compare({a: float(b) for a, b in got}, want, 'fragments')
	return sum(map(len, tables)) > len(want)


@prop(st.sampled_from((['foo', 'a', 'b'], ['pcfg', 'a'], [], ['pcfg'],
		['plcfrs', 'a', 'b', 'c'], ['doubledop', 'a', 'b', '--nonexistent'],
		['doubledop', 'in', 'out', '--dopestimator=foo'],
		['param', 'in', 'out', '--gzip'], ['param', 'in', 'out', '-s', 'X'],
		['merge', 'rules', 'a', 'b'])), 20,
		rule='always')
def usage(args):
	"""Invalid arguments are refused without reading or writing files."""
	try:
		call(args)
	except SystemExit as err:
		check(err.code not in (0, None), 'exit status')
	except ValueError as err:
		check(str(err), 'message')
	else:
		check(False, 'accepted %r', args)
	return True

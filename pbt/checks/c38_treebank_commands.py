"""The commands treetransforms and treedraw do what their options say."""
import io
import os
import shutil
import sys
import tempfile
from itertools import zip_longest
from contextlib import contextmanager, redirect_stdout, redirect_stderr
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop import cli
from discodop.tree import DrawTree, frontier, ParentedTree
from discodop.treebank import (READERS, writetree, WRITERS, EXPORTHEADER,
		incrementaltreereader)
from discodop.treetransforms import (canonicalize, binarize, unbinarize,
		optimalbinarize, splitdiscnodes, mergediscnodes, raisediscnodes,
		introducepreterminals, markovthreshold, canonicallyorderedtree)
from discodop.treebanktransforms import transform, reversetransform
import gens

NEED = ('bit', 'containers')
ASSUMPTIONS = ['options are spelled as documented']
SPECS = dict(word=st.sampled_from(('a', 'b', 'dog', '.', ',', '"', '(', '\xe9')),
		phrasal=('S', 'NP', 'VP', 'NP-SBJ'), pos=('A', 'B', '$.', 'N-X', 'A', 'B', '-NONE-'),
		maxleaves=7, maxarity=4)
HEADRULES = 'S\tright\tVP S\nNP\tleft\tA B\nVP\tright\tB NP\n'


@contextmanager
def scratch():
	path = tempfile.mkdtemp(prefix='cli-', dir='.')
	old = os.getcwd()
	os.chdir(path)
	try:
		yield
	finally:
		os.chdir(old)
		shutil.rmtree(os.path.join(old, path))


class Out(io.StringIO):
	"""Standard output with a file descriptor."""
	def __init__(self, fname):
		super().__init__()
		self.fname = fname

	def fileno(self):
		return os.open(self.fname, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)


def command(func, *args):
	"""Run command in-process; returns standard output, standard error."""
	old = sys.argv[:], cli.stdout, cli.stderr
	err = io.StringIO()
	sys.argv[:] = ['discodop', func.__name__] + list(args)
	out = Out('stdout')
	cli.stdout, cli.stderr = out, err
	try:
		with redirect_stdout(out), redirect_stderr(err):
			func()
	finally:
		sys.argv[:] = old[0]
		cli.stdout, cli.stderr = old[1:]
	return out.getvalue(), err.getvalue()


def text(fname, encoding='utf8'):
	with open(fname, encoding=encoding, newline='') as inp:
		return inp.read()


@st.composite
def corpus(draw, fmt, size=5, **kwds):
	"""List of (key, spec, sent) tuples."""
	n = draw(st.integers(1, size))
	kw = dict(SPECS, **kwds)
	if fmt == 'bracket':
		kw['disc'] = False
	return [(str(10 * k + draw(st.integers(0, 9))), )
			+ draw(gens.treesents(**kw)) for k in range(1, n + 1)]


def write(fname, items, fmt, encoding='utf8'):
	with open(fname, 'w', encoding=encoding) as out:
		if fmt == 'export':
			out.write(EXPORTHEADER)
		for key, spec, sent in items:
			tree = gens.mk(spec, ParentedTree)
			if fmt == 'export' and int(key) % 4:  # with annotations
				for n, a in enumerate(tree.subtrees(), int(key)):
					pre = isinstance(a[0], int)
					a.source = ['--', ('--', 'be', 'x')[n % 3] if pre else '--',
							a.label, ('--', 'Sg', 'Nom.Pl')[n // 2 % 3]
							if pre else '--', ('--', 'SB', 'HD', 'MO')[n % 4],
							'']
			out.write(writetree(tree, sent, key, fmt))


# option => possible values (None: flag)
INT = ['1', '2']
BINOPTS = {'-h': ['0', '1', '2'], '-v': ['1', '2', '3'], '-H': ['1', '2'],
		'--factor': ['left', 'right'], '--leftunary': None,
		'--rightunary': None, '--tailmarker': None, '--direction': None,
		'--dot': None, '--markhead': None, '--filterlabels': ['A', 'A NP'],
		'--labelfun': ['lambda n: n.label[0]'],
		'--markovthreshold': ['2', '3']}
READOPTS = {'--ensureroot': ['ROOT'], '--removeempty': None,
		'--punct': ['move', 'remove', 'root', 'prune'],
		'--functions': ['leave', 'remove', 'add', 'replace'],
		'--morphology': ['no', 'add'], '--lemmas': ['no', 'add']}
SELECT = {'--slice': ['1:3', ':2', '2:', '-2:', ':-1', '-3:-1', ':', '0:9',
		'1:-1', ':0', '1:1', '2:1'], '--maxlen': ['3', '5'], '--renumber': None}
OUTOPTS = {'--sentid': None}
ACTIONS = ['introducepreterminals', 'binarize', 'optimalbinarize',
		'unbinarize', 'splitdisc', 'mergedisc', 'raisedisc', 'canonical',
		'transforms=PARENT', 'reversetransforms=PARENT', 'transforms=FANOUT']


@st.composite
def pick(draw, options, n):
	"""Pick a subset of options."""
	keys = draw(st.lists(st.sampled_from(sorted(options)), max_size=n,
			unique=True))
	return [(k, options[k] and draw(st.sampled_from(options[k])))
			for k in keys]


@st.composite
def invocations(draw):
	infmt = draw(st.sampled_from(['export', 'bracket', 'discbracket']))
	outfmt = draw(st.sampled_from(WRITERS[:3] + (infmt, ) + WRITERS))
	items = draw(corpus(infmt))
	opts = []
	if infmt == outfmt and draw(st.booleans()):
		opts.append(('--fmt', infmt))
	else:
		if infmt != 'export' or draw(st.booleans()):
			opts.append(('--inputfmt', infmt))
		if outfmt != 'export' or draw(st.booleans()):
			opts.append(('--outputfmt', outfmt))
	opts += draw(pick(SELECT, 2))
	enc = draw(st.sampled_from(['', '', '--enc', '--inputenc', '--outputenc']))
	if enc:
		opts.append((enc, 'latin1'))
	if outfmt in ('mst', 'conll') or draw(st.integers(0, 3)) == 0:
		opts.append(('--headrules', 'x.headrules'))
	if draw(st.booleans()):
		opts += draw(pick(READOPTS, 2))
	actions = []
	if draw(st.integers(0, 3)):
		actions = draw(st.sampled_from([['binarize'],
				['binarize', 'unbinarize'], ['splitdisc', 'mergedisc'],
				['introducepreterminals', 'binarize'], ['splitdisc'],
				['transforms=PARENT', 'binarize'], ['canonical'],
				['optimalbinarize'], ['optimalbinarize']])
				| st.lists(st.sampled_from(ACTIONS), max_size=3))
		if 'binarize' in actions or 'optimalbinarize' in actions:
			opts += draw(pick(BINOPTS, draw(st.sampled_from((4, 4, 0)))))
			if 'optimalbinarize' in actions and draw(st.booleans()):
				opts.append(('--headrules', 'x.headrules'))
				opts = list(dict(opts).items())
			if draw(st.booleans()):
				opts.append(("--markovthreshold", draw(st.sampled_from("23"))))
				opts = list(dict(opts).items())
		if 'splitdisc' in actions and draw(st.booleans()):
			opts.append(('--markorigin', None))
	opts += draw(pick(OUTOPTS, 1))
	opts = draw(st.permutations(opts))
	return infmt, outfmt, items, opts, actions, draw(st.booleans())


def getlabelfun(x):
	return eval(x) if x else None  # pylint: disable=eval-used


def apply(action, tree, sent, opts):
	"""Apply a single transformation, according to documentation."""
	if action == 'introducepreterminals':
		return introducepreterminals(tree, sent), sent
	elif action == 'binarize':
		return binarize(tree, factor=opts.get('--factor', 'right'),
				horzmarkov=int(opts.get('-h', 999)),
				vertmarkov=int(opts.get('-v', 1)),
				revhorzmarkov=int(opts.get('-H', 0)),
				markhead='--markhead' in opts,
				headoutward='--headrules' in opts,
				tailmarker='$' if '--tailmarker' in opts else '',
				leftmostunary='--leftunary' in opts,
				rightmostunary='--rightunary' in opts,
				direction='--direction' in opts,
				dot='--dot' in opts,
				filterlabels=tuple(opts.get('--filterlabels', '').split()),
				labelfun=getlabelfun(opts.get('--labelfun'))), sent
	elif action == 'optimalbinarize':
		return optimalbinarize(tree, headdriven='--headrules' in opts,
				h=int(opts.get('-h', 999)), v=int(opts.get('-v', 1))), sent
	elif action == 'unbinarize':
		return unbinarize(tree), sent
	elif action == 'splitdisc':
		return splitdiscnodes(tree, markorigin='--markorigin' in opts), sent
	elif action == 'mergedisc':
		return mergediscnodes(tree), sent
	elif action == 'raisedisc':
		return raisediscnodes(tree), sent
	elif action == 'canonical':
		return canonicallyorderedtree(tree, sent), sent
	name, value = action.split('=')
	func = transform if name == 'transforms' else reversetransform
	return func(tree, sent, [value]), sent


def reference(fname, infmt, outfmt, opts, actions):
	"""Expected output."""
	enc = opts.get('--enc')
	reader = READERS[infmt](fname,
			encoding=enc or opts.get('--inputenc', 'utf8'),
			headrules=opts.get('--headrules'),
			ensureroot=opts.get('--ensureroot'),
			removeempty='--removeempty' in opts, punct=opts.get('--punct'),
			functions=opts.get('--functions'),
			morphology=opts.get('--morphology'), lemmas=opts.get('--lemmas'))
	items = list(reader.itertrees())
	start, end = [int(a) if a else None
			for a in opts.get('--slice', ':').split(':')]
	items = [(a, b.tree, b.sent, b.comment) for a, b in items[start:end]]
	if '--maxlen' in opts:
		items = [x for x in items if len(x[2]) <= int(opts['--maxlen'])]
	if '--renumber' in opts:
		items = [(str(n).rjust(8), ) + x[1:] for n, x in enumerate(items, 1)]
	result = []
	for key, tree, sent, comment in items:
		for action in actions:
			tree, sent = apply(action, tree, sent, opts)
		result.append((key, tree, sent, comment))
	if 'binarize' in actions and '--markovthreshold' in opts:
		markovthreshold([a for _, a, _, _ in result],
				int(opts['--markovthreshold']),
				int(opts.get('-h', 999)) + int(opts.get('-H', 0)) - 1,
				max(int(opts.get('-v', 1)) - 1, 1))
	out = [EXPORTHEADER] if outfmt == 'export' else []
	for key, tree, sent, comment in result:
		if outfmt == 'bracket':
			tree = canonicalize(tree)
		out.append(writetree(tree, sent, key, outfmt, comment=comment,
				sentid='--sentid' in opts))
	return ''.join(out), len(result)


@st.composite
def plain(draw):
	"""Conversions without transformations and few other options."""
	infmt = draw(st.sampled_from(['export', 'bracket', 'discbracket']))
	outfmt = draw(st.sampled_from([infmt, infmt, 'export', 'discbracket']))
	items = draw(corpus(infmt))
	opts = [('--inputfmt', infmt), ('--outputfmt', outfmt)]
	if draw(st.integers(0, 3)) == 0:
		opts.append(('--slice', draw(st.sampled_from(SELECT['--slice']))))
	one = dict(READOPTS, **OUTOPTS, **{'--headrules': ['x.headrules'],
			'--renumber': None, '--maxlen': SELECT['--maxlen']})
	key = draw(st.sampled_from(sorted(one)))
	if draw(st.integers(0, 2)):
		opts += [(key, one[key] and draw(st.sampled_from(one[key])))]
	elif draw(st.booleans()):
		opts = [('--inputfmt', infmt), ('--outputfmt', infmt),
				('--slice', draw(st.sampled_from(SELECT['--slice'])))]
		outfmt = infmt
	if draw(st.integers(0, 3)) == 0:
		opts += [('--inputenc', draw(st.sampled_from(['utf8', 'latin1']))),
				('--outputenc', draw(st.sampled_from(['utf8', 'latin1'])))]
	return (infmt, outfmt, items, draw(st.permutations(opts)), [],
			draw(st.booleans()))


@prop(plain(), quick=500, rule='at least two trees in output')
def conversion(arg):
	"""Converting without transformations."""
	treetransforms(arg)
	return len(arg[2]) > 1


@prop(invocations(), quick=900, rule='at least one transformation and at least '
		'two trees in output')
def treetransforms(arg):
	"""Output is the result of reading, selecting, transforming in the given
	order, and writing."""
	infmt, outfmt, items, opts, actions, tofile = arg
	optd = dict(opts)
	argv = []
	for k, v in opts:
		argv.extend([k] if v is None else [k + '=' + v]
				if k.startswith('--') else [k, v])
	argv += ['--' + a for a in actions]
	with scratch():
		enc = optd.get('--enc') or optd.get('--inputenc', 'utf8')
		outenc = optd.get('--enc') or optd.get('--outputenc', 'utf8')
		write('in.txt', items, infmt, enc)
		with open('x.headrules', 'w') as out:
			out.write(HEADRULES)
		try:
			want, n = reference('in.txt', infmt, outfmt, optd, actions)
		except Exception as err:
			raises(type(err), command, cli.treetransforms, 'in.txt', *argv)
			return False
		_, err = command(cli.treetransforms, 'in.txt',
				*(['out.txt'] if tofile else []) + argv)
		check('transformed %d trees' % n in err, 'number of trees: %r', err)
		got = text('out.txt' if tofile else 'stdout', outenc)
		verbatim = not actions and set(optd) <= {'--slice', '--inputenc',
				'--outputenc', '--inputfmt', '--outputfmt'} and (
				optd.get('--inputfmt') == optd.get('--outputfmt') is not None)
		if not verbatim:
			same(got, want, 'output of treetransforms %s', ' '.join(argv))
		else:  # trees are copied verbatim; compare the trees
			with open('copy.txt', 'w', encoding=outenc) as out:
				out.write(got)
			if n:
				for a, b in [('--inputenc', outenc), ('--outputenc', outenc)]:
					optd[a] = b
				optd.pop('--slice', None)
				optd.pop('--enc', None)
				got, _ = reference('copy.txt', infmt, outfmt, optd, [])
				same(got, want, 'output of treetransforms %s', ' '.join(argv))
			else:
				same(got.strip(), '', 'empty selection')
	if n > 1 and actions:
		return ['threshold'] * ('--markovthreshold' in optd) + ['actions']
	return ['verbatim'] if verbatim and n > 1 else ()


@prop(st.tuples(st.sampled_from(['export', 'discbracket', 'bracket']
		).flatmap(lambda x: st.tuples(st.just(x), corpus(x, minleaves=2))),
		pick({'-h': INT, '-v': INT, '--factor': ['left'], '--leftunary': None,
			'--rightunary': None}, 3)),
		quick=250, rule='a discontinuous tree and more than one tree')
def reversible(arg):
	"""Binarizing and reversing binarization in a separate invocation restores
	the treebank."""
	(fmt, items), opts = arg
	argv = [x for a in opts for x in a if x is not None]
	with scratch():
		write('in.txt', items, fmt)
		command(cli.treetransforms, 'in.txt', 'same.txt', '--fmt=' + fmt)
		command(cli.treetransforms, 'in.txt', 'bin.txt', '--fmt=' + fmt,
				'--binarize', *argv)
		command(cli.treetransforms, 'bin.txt', 'out.txt', '--fmt=' + fmt,
				'--unbinarize')
		same(text('out.txt').splitlines(), text('same.txt').splitlines(),
				'restored treebank')
		if fmt != 'bracket':
			command(cli.treetransforms, 'in.txt', 'split.txt', '--fmt=' + fmt,
					'--splitdisc', '--markorigin')
			for tree in READERS[fmt]('split.txt').trees().values():
				for node in tree.subtrees():
					same(gens.blocks(node.leaves()), 1, 'continuous')
	return len(items) > 1 and any(gens.isdisc(a) for _, a, _ in items)


@prop(st.tuples(st.sampled_from(['export', 'discbracket', 'bracket']),
		st.sampled_from(['foo', 'conll', 'mst', '--foo', '--slice'])),
		quick=30,
		rule='always')
def usage(arg):
	"""Wrong arguments are rejected."""
	fmt, what = arg
	with scratch():
		write('in.txt', [('1', ['S', [['A', [0]]]], ['a'])], fmt)
		if what == 'foo':
			err = raises(SystemExit, command, cli.treetransforms, 'in.txt',
					'--inputfmt=' + fmt, '--outputfmt=foo')
			check(err.code, 'exit status')
		elif what in ('conll', 'mst'):
			raises(ValueError, command, cli.treetransforms, 'in.txt',
					'--inputfmt=' + fmt, '--outputfmt=' + what)
		elif what == '--foo':
			for cmd in (cli.treetransforms, cli.treedraw):
				err = raises(SystemExit, command, cmd, 'in.txt', '--foo')
				check(err.code, 'exit status')
		else:
			err = raises(SystemExit, command, cli.treetransforms, 'in.txt',
					'a', 'b')
			check(err.code, 'exit status')
	return True


@st.composite
def drawings(draw):
	fmt = draw(st.sampled_from(['export', 'discbracket', 'bracket']))
	files = draw(st.lists(corpus(fmt, size=3), min_size=1, max_size=2))
	opts = draw(pick({'--abbr': None, '--plain': None, '--frontier': None,
			'--functions': ['leave', 'add', 'remove', 'replace'],
			'--morphology': ['no', 'add'], '-f': None, '-m': None,
			'--secedge': None, '--output': ['text', 'html', 'svg', 'tikznode',
				'tikzmatrix'],
			'--numtrees': ['1', '2'], '-n': ['1', '3']}, 3))
	for opt, val in (('--output', draw(st.sampled_from(['text', 'html', 'svg',
			'tikznode', 'tikzmatrix', 'tikzqtree']))), (draw(st.sampled_from(['-f', '-m'])),
			None)):
		if opt not in dict(opts) and draw(st.booleans()):
			opts.append((opt, val))
	return (fmt, files, opts, draw(st.booleans()),
			draw(st.lists(st.integers(0, 3), max_size=8)))


@prop(drawings(), quick=500, rule='more than one tree, with options')
def treedraw(arg):
	"""Every tree is drawn, in order, with the right identifier."""
	fmt, files, opts, auto, other = arg
	optd = dict(opts)
	argv = []
	for k, v in opts:
		argv.extend([k] if v is None else [k + '=' + v]
				if k.startswith('--') else [k, v])
	functions, morphology = optd.get('--functions'), optd.get('--morphology')
	if '-f' in optd:
		functions = 'add'
	if '-m' in optd:
		morphology = 'add'
	output = optd.get('--output', 'text')
	limit = int(optd.get('--numtrees', optd.get('-n', 999)))
	funcsep = '-' if functions == 'add' else None
	if output == 'tikzqtree':
		files = [[x for x in items if not gens.isdisc(x[1])]
				for items in files]

	def onetree(tree, sent):
		dt = DrawTree(tree, sent, abbr='--abbr' in optd,
				secedge='--secedge' in optd)
		if output in ('text', 'html'):
			return dt.text(unicodelines=True, funcsep=funcsep,
					ansi='--plain' not in optd and output == 'text',
					html='--plain' not in optd and output == 'html')
		if output == 'tikzqtree':
			return dt.tikzqtree() + '\n'
		result = getattr(dt, output)(funcsep=funcsep)
		return result if output == 'svg' else result + '\n'

	want = []
	key = output if output in ('html', 'svg') else (
			'latex' if output != 'text' else None)
	if key:
		want.append(DrawTree.templates[key][0] + '\n')
	with scratch():
		names = []
		for n, items in enumerate(files):
			names.append('in%d.txt' % n)
			write(names[-1], items, fmt)
			if auto and fmt != 'export':  # add text between trees
				with open(names[-1]) as inp:
					lines = inp.readlines()
				with open(names[-1], 'w') as out:
					for a, b in zip_longest(lines, other):
						out.write(a or '')
						out.write('some text\n' * (b or 0))
		if auto:
			n = 0
			for name in names:
				with open(name) as inp:
					for tree, sent, rest in incrementaltreereader(inp,
							functions=functions, morphology=morphology,
							othertext=True):
						if tree is None:
							if n < limit:
								want.append('%s\n' % rest)
							continue
						n += 1
						if n > limit:
							break
						want.append('%d. ' % n)
						if '--frontier' in optd:
							want.append('%s %s\n' % (frontier(tree, sent),
									rest))
						else:
							want.append('%s\n%s\n' % (rest or '',
									onetree(tree, sent)))
			argv.append('--fmt=auto')
		else:
			corpora = [READERS[fmt](name, functions=functions,
					morphology=morphology).itertrees() for name in names]
			n = 0
			for row in zip(*corpora):
				n += 1
				if n > limit:
					break
				for name, (sentid, item) in zip(names, row):
					if len(names) > 1:
						want.append(name + ':')
					want.append('%s. ' % sentid)
					if '--frontier' in optd:
						want.append('%s %s\n' % (frontier(item.tree,
								item.sent), item.comment))
					else:
						want.append('%s\n%s\n' % (item.comment, onetree(
								item.tree, item.sent)))
			argv.append('--fmt=' + fmt)
		if key:
			want.append(DrawTree.templates[key][1] + '\n')
		got, _ = command(cli.treedraw, *names + argv)
	same(got, ''.join(want), 'output of treedraw %s', ' '.join(argv))
	return n > 1 and len(opts) > 1


@prop(st.sampled_from(['--version', '-v', '', 'foo', 'demo']), quick=5,
		rule='always')
def main(arg):
	"""Dispatch of commands."""
	old = sys.argv[:], cli.stderr
	called = []
	cli.stderr = io.StringIO()
	out = io.StringIO()
	orig = cli.treetransforms
	try:
		with redirect_stdout(out), redirect_stderr(io.StringIO()):
			sys.argv[:] = ['discodop'] + ([arg] if arg else [])
			cli.main()
			if arg in ('--version', '-v'):
				from discodop import __version__
				same(out.getvalue().strip(), __version__, 'version')
			else:
				for cmd in cli.COMMANDS:
					check(cmd in out.getvalue(), 'help for %s', cmd)
			cli.treetransforms = lambda: called.append(sys.argv[:])
			sys.argv[:] = ['discodop', 'treetransforms', 'a', 'b']
			cli.main()
	finally:
		cli.treetransforms = orig
		sys.argv[:] = old[0]
		cli.stderr = old[1]
	same(called, [['discodop', 'treetransforms', 'a', 'b']], 'dispatch')
	return True

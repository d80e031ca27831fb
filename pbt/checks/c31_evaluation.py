"""Evaluation scores are those of PARSEVAL, extended to discontinuous trees."""
import contextlib
import io
import math
import os
import re
import shutil
import sys
import tempfile
from collections import Counter
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import ParentedTree, Tree, writediscbrackettree
from discodop.treebank import writetree, dependencies
from discodop import eval as evalmod
from discodop.eval import (Evaluator, TreePairResult, readparam,
		transitiveclosure, alignsent, strbracketings, leafancestorpaths,
		pathscore, editdistance, intervals, harmean, mean, pyintbitcount,
		recall, precision, f_measure, accuracy)
from discodop.treedist import treedist
import gens

NEED = ('bit', 'containers')
ASSUMPTIONS = ['equivalences of labels are not combined with deletion of the '
		'same labels', 'phrasal labels and POS tags are disjoint']
PHRASAL = ('S', 'NP', 'VP', 'X', 'Y', 'TOP')
POS = ('A', 'B', '$.', '$,')
SPECS = dict(word=st.sampled_from(('a', 'b', 'c', '.', ',')), phrasal=PHRASAL,
		pos=POS, maxleaves=8, maxarity=4, root='TOP')


# --- generators ---------------------------------------------------------------

def edit(spec, edits, pos):
	"""Apply edits to phrasal nodes and POS tags (modifies spec)."""
	for n, kind, x in edits:
		nodes = [a for a in gens.nodesof(spec) if not gens.ispre(a)]
		a = nodes[n % len(nodes)]
		if kind == 0:
			a[0] = PHRASAL[x % len(PHRASAL)]
		elif kind == 1:  # remove a node
			kids = [m for m, b in enumerate(a[1]) if not gens.ispre(b)]
			if kids:
				m = kids[x % len(kids)]
				a[1][m:m + 1] = a[1][m][1]
		elif kind == 2:  # add a node
			m = x % len(a[1])
			a[1][m:m + 2] = [[PHRASAL[x % len(PHRASAL)], a[1][m:m + 2]]]
		elif kind == 3:  # other POS tag
			pre = [b for b in gens.nodesof(spec) if gens.ispre(b)]
			pre[x % len(pre)][0] = pos[n % len(pos)]
		elif kind == 4 and len(a[1]) > 1:  # move a child to root
			b = a[1].pop(x % len(a[1]))
			spec[1].append(b)
		else:  # exchange positions of two words
			pre = [b for b in gens.nodesof(spec) if gens.ispre(b)]
			b, c = pre[n % len(pre)], pre[x % len(pre)]
			b[:], c[:] = c[:], b[:]


def copyspec(spec):
	return spec if isinstance(spec, int) else [spec[0],
			[copyspec(a) for a in spec[1]]]


FUNCS = ('SBJ', 'OBJ', 'HD', 'SBJ-TMP', '--', '', 'MO')


@st.composite
def pairs(draw, funcs=False):
	"""(gold, candidate, sentence, functions or None)"""
	gold, sent = draw(gens.treesents(**SPECS))
	if draw(st.integers(0, 4)) == 0:
		n = len(sent)
		cand = draw(gens.specs(**dict({a: b for a, b in SPECS.items()
				if a != 'word'}, minleaves=n, maxleaves=n)))
	else:
		cand = copyspec(gold)
		edit(cand, draw(st.lists(st.tuples(st.integers(0, 20),
				st.integers(0, 6), st.integers(0, 20)), max_size=4)), POS)
		cand = gens.canonspec(cand)
	fun = None
	if funcs:
		num = len(gens.nodesof(gold)) + len(gens.nodesof(cand))
		base = draw(st.lists(st.sampled_from(FUNCS), min_size=num,
				max_size=num))
		fun = base
	return gold, cand, sent, fun


params = st.fixed_dictionaries(dict(
		DELETE_LABEL=st.sampled_from([(), ('TOP', ), ('TOP', '$.', '$,'),
			('$.', ), ('X', ), ('TOP', 'X', '$,')]),
		DELETE_WORD=st.sampled_from([(), (), ('.', ), ('.', ',')]),
		DELETE_LABEL_FOR_LENGTH=st.sampled_from([(), ('$.', ), ('$.', '$,')]),
		EQ_LABEL=st.sampled_from([(), (), (('S', 'VP'), ), (('S', 'VP'),
			('Y', 'VP')), (('NP', 'Y'), ('S', 'VP')), (('TOP', 'S'), )]),
		EQ_WORD=st.sampled_from([(), (('a', 'b'), )]),
		LABELED=st.sampled_from([1, 1, 1, 0]),
		DISC_ONLY=st.sampled_from([0, 0, 0, 1]),
		DELETE_ROOT_PRETERMS=st.sampled_from([0, 0, 0, 1]),
		CUTOFF_LEN=st.sampled_from([40, 4, 3]),
		LA=st.sampled_from([0, 1]), TED=st.sampled_from([0, 1])))


def consistent(param):
	return not any(x in param['DELETE_LABEL'] for a in param['EQ_LABEL']
			for x in a)


def paramfile(param):
	lines = ['# comment', '', 'DEBUG -1', 'MAX_ERROR 10']
	for key, val in param.items():
		if isinstance(val, int):
			lines.append('%s %d' % (key, val))
		else:
			for a in val:
				lines.append('%s %s' % (key,
						a if isinstance(a, str) else ' '.join(a)))
	return '\n'.join(lines) + '\n'


@contextlib.contextmanager
def scratch():
	path = tempfile.mkdtemp(prefix='eval-', dir='.')
	try:
		yield path
	finally:
		shutil.rmtree(path)


def getparam(param):
	with scratch() as path:
		with open(path + '/x.prm', 'w') as out:
			out.write(paramfile(param))
		return readparam(path + '/x.prm')


# --- reference ----------------------------------------------------------------

def classes(pairs_):
	"""element => frozenset of equivalent elements"""
	result = {}
	for a, b in pairs_:
		x = result.get(a, frozenset([a])) | result.get(b, frozenset([b]))
		for c in x:
			result[c] = x
	return result


class Ref:
	"""Evaluation of a pair of trees from definition."""
	def __init__(self, gold, cand, sent, fun, param):
		gpos = {a[1][0]: a[0] for a in gens.nodesof(gold) if gens.ispre(a)}
		cpos = {a[1][0]: a[0] for a in gens.nodesof(cand) if gens.ispre(a)}
		rootpre = {a[1][0] for a in gold[1] if gens.ispre(a)}
		self.keep = [n for n, w in enumerate(sent)
				if gpos[n] not in param['DELETE_LABEL']
				and w not in param['DELETE_WORD']
				and not (param['DELETE_ROOT_PRETERMS'] and n in rootpre)]
		new = {n: m for m, n in enumerate(self.keep)}
		eq = classes(param['EQ_LABEL'])
		self.length = sum(a not in param['DELETE_LABEL_FOR_LENGTH']
				for a in gpos.values())
		self.gpos = [gpos[n] for n in self.keep]
		self.cpos = [cpos[n] for n in self.keep]

		def spans(spec):
			result = []
			for a in gens.nodesof(spec):
				leaves = frozenset(new[b] for b in gens.leavesof(a)
						if b in new)
				if leaves and not gens.ispre(a) and (
						a[0] not in param['DELETE_LABEL']) and (
						not param['DISC_ONLY'] or gens.blocks(leaves) > 1):
					result.append((a, (eq.get(a[0], frozenset([a[0]]))
							if param['LABELED'] else '', leaves)))
			return result

		gspans, cspans = spans(gold), spans(cand)
		self.gold = Counter(b for _, b in gspans)
		self.cand = Counter(b for _, b in cspans)
		self.gfun, self.cfun = Counter(), Counter()
		if fun:
			it = iter(fun)
			for spec, sp, other, pos, otherpos, res in (
					(gold, gspans, self.cand, gpos, cpos, self.gfun),
					(cand, cspans, self.gold, cpos, gpos, self.cfun)):
				brack = {id(a): b for a, b in sp}
				for a in gens.nodesof(spec):
					tags = [x for x in next(it).split('-') if x]
					if gens.ispre(a):
						if a[1][0] in new and gpos[a[1][0]] == cpos[a[1][0]]:
							res.update(((None, a[1][0]), x) for x in tags)
					elif id(a) in brack and brack[id(a)] in other:
						res.update((brack[id(a)], x) for x in tags)

	def match(self):
		return sum((self.gold & self.cand).values())


def ratio(a, b):
	return a / b if b else math.nan


def fscore(match, gold, cand):
	if not gold or not cand or not match:
		return math.nan
	p, r = match / cand, match / gold
	return 2 * p * r / (p + r)


def number(x):
	x = x.strip()
	return math.nan if x in ('0DIV!', 'nan', 'None', 'NaN') else float(x)


def approx(got, want, msg):
	if isinstance(got, str):
		got = number(got)
	if math.isnan(got) and math.isnan(want):
		return
	check(abs(got - want) < 0.00501, '%s: got %s, expected %s', msg, got, want)


def build(spec, fun):
	tree = gens.mk(spec, ParentedTree)
	if fun is not None:
		for a in tree.subtrees():
			a.source = ['--', '--', a.label, '--', next(fun), '0']
	return tree


def quiet(func, *args):
	out = io.StringIO()
	with contextlib.redirect_stdout(out):
		result = func(*args)
	return result, out.getvalue()


def summary(text, cutoff):
	"""Parse summary; returns list of dicts."""
	result = [{}, {}]
	for line in text.splitlines()[1:]:
		m = re.match(r'([^:]*?)(?::|(?<=\))) +(.*)$', line)
		check(m, 'unexpected line: %r', line)
		vals = m.group(2).split()
		if vals[-1].startswith('('):
			vals = vals[:-1]
		if cutoff:
			result[0][m.group(1)] = vals[0]
			result[1][m.group(1)] = vals[1]
		else:
			result[1][m.group(1)] = vals[0]
	return result


def verifysummary(got, refs, param):
	"""Compare a column of the summary with list of references"""
	counted = [a for a in refs if not param['DISC_ONLY'] or a.gold or a.cand]
	match = sum(a.match() for a in refs)
	gold = sum(sum(a.gold.values()) for a in refs)
	cand = sum(sum(a.cand.values()) for a in refs)
	same(int(got['number of sentences']), len(counted), 'sentences')
	same(int(got['longest sentence']), max([a.length for a in refs] or [0]),
			'longest sentence')
	for key in got:
		if key.startswith('gold brackets'):
			same(int(got[key]), gold, 'gold brackets')
		elif key.startswith('cand. brackets'):
			same(int(got[key]), cand, 'cand. brackets')
	approx(got['labeled recall'], 100 * ratio(match, gold), 'recall')
	approx(got['labeled precision'], 100 * ratio(match, cand), 'precision')
	approx(got['labeled f-measure'], 100 * fscore(match, gold, cand), 'f')
	approx(got['exact match'], 100 * ratio(sum(a.gold == a.cand
			for a in counted), len(counted)), 'exact match')
	pos = [x for a in refs for x in zip(a.gpos, a.cpos)]
	approx(got['pos accuracy'], 100 * ratio(sum(a == b for a, b in pos),
			len(pos)), 'pos')
	if 'function tags' in got and param['LABELED']:
		approx(got['function tags'], 100 * fscore(
				sum(sum((a.gfun & a.cfun).values()) for a in refs),
				sum(sum(a.gfun.values()) for a in refs),
				sum(sum(a.cfun.values()) for a in refs)), 'function tags')


# --- properties ---------------------------------------------------------------

@prop(st.tuples(st.lists(st.booleans().flatmap(lambda x: pairs(x)), min_size=1,
		max_size=4), params.filter(consistent), st.sampled_from([-1, 0, 1, 2])),
		quick=800, rule='not all brackets match, and at least one matches')
def parseval(arg):
	"""Per-sentence and total scores."""
	items, param, debug = arg
	prm = getparam(param)
	prm['DEBUG'] = debug
	ev, _ = quiet(Evaluator, prm)
	refs, results = [], []
	for n, (gold, cand, sent, fun) in enumerate(items, 1):
		it = iter(fun) if fun else None
		gtree, ctree = build(gold, it), build(cand, it)
		gsent, csent = sent[:], sent[:]
		res, _ = quiet(ev.add, n, gtree, gsent, ctree, csent)
		same((gsent, csent), (sent, sent), 'sentences modified')
		ref = Ref(gold, cand, sent, fun, param)
		refs.append(ref)
		results.append(res)
		same(sum(res.gbrack.values()), sum(ref.gold.values()), 'gold brackets')
		same(sum(res.cbrack.values()), sum(ref.cand.values()), 'cand brackets')
		same(sum((res.gbrack & res.cbrack).values()), ref.match(), 'matched')
		same(res.lengpos, ref.length, 'length')
		same((res.gpos, res.cpos), (ref.gpos, ref.cpos), 'POS tags')
		if param['LABELED']:
			same(Counter(x for _, x in res.goldfun.elements()),
					Counter(x for _, x in ref.gfun.elements()), 'gold functions')
			same(Counter(x for _, x in res.candfun.elements()),
					Counter(x for _, x in ref.cfun.elements()), 'cand functions')
			same(sum((res.candfun & res.goldfun).values()),
					sum((ref.cfun & ref.gfun).values()), 'matched functions')
		scores = res.scores()
		m, g, c = (ref.match(), sum(ref.gold.values()), sum(ref.cand.values()))
		approx(scores['LP'], 100 * ratio(m, c), 'precision')
		approx(scores['LR'], 100 * ratio(m, g), 'recall')
		approx(scores['LF'], 100 * fscore(m, g, c), 'f-measure')
		# running scores
		m, g, c = (sum(a.match() for a in refs),
				sum(sum(a.gold.values()) for a in refs),
				sum(sum(a.cand.values()) for a in refs))
		scores = ev.acc.scores()
		approx(scores['lp'], 100 * ratio(m, c), 'total precision')
		approx(scores['lr'], 100 * ratio(m, g), 'total recall')
		approx(scores['lf'], 100 * fscore(m, g, c), 'total f-measure')
	long = max(a.length for a in refs) > param['CUTOFF_LEN']
	got = summary(ev.summary(), long)
	verifysummary(got[1], refs, param)
	if long:
		verifysummary(got[0], [a for a in refs
				if a.length <= param['CUTOFF_LEN']], param)
	if debug >= 0 and param['LABELED']:
		quiet(ev.breakdowns)
	x = [(a.length <= param['CUTOFF_LEN'], a, r) for a, r in zip(refs, results)]
	for col, rows in ((1, x), (0, [a for a in x if a[0]])):
		if col == 0 and not long:
			continue
		if param['LA']:
			vals = [float(r.lascore) for _, a, r in rows if a.keep]
			approx(got[col]['leaf-ancestor'], 100 * ratio(sum(vals),
					len(vals)), 'leaf-ancestor')
		if param['TED']:
			num = sum(float(r.ted) for _, a, r in rows if a.keep)
			den = sum(float(r.denom) for _, a, r in rows if a.keep)
			approx(got[col]['tree-dist (Dice micro avg)'], 100 * (
					1 - ratio(num, den)), 'tree distance')
	match = sum(a.match() for a in refs)
	if match and any(a.gold != a.cand for a in refs):
		return ['disc'] * any(gens.blocks(b) > 1 for a in refs
				for _, b in a.gold & a.cand) + ['matched'] + [
				'functions'] * any(a.cfun for a in refs)
	return ()


@prop(st.tuples(pairs(), st.booleans()), quick=600,
		rule='discontinuous tree, neither identical nor disjoint')
def leafancestor(arg):
	"""Leaf-ancestor and tree-edit scores are between 0 and 1, and 1 exactly
	when paths are identical; paths contain labels from word to root, with
	boundaries."""
	(gold, cand, sent, _), deltop = arg
	prm = readparam(None)
	if deltop:
		prm['DELETE_LABEL'] = {'TOP'}
	prm['LA'] = prm['TED'] = 1
	res = TreePairResult(1, build(gold, None), sent[:], build(cand, None),
			sent[:], prm)

	def paths(spec):
		"""Labels of ancestors, with boundary markers at highest constituent
		(component) that starts or ends at this word."""
		result = {}
		for n in gens.leavesof(spec):
			path, seen, node = [], set(), spec
			while not gens.ispre(node):
				leaves = sorted(gens.leavesof(node))
				if not (deltop and node[0] == 'TOP'):
					if n + 1 not in leaves:
						x = ')' if n == leaves[-1] else ']'
						if x not in seen:
							path.append(x)
							seen.add(x)
					path.append(node[0])
					if n - 1 not in leaves:
						x = '(' if n == leaves[0] else '['
						if x not in seen:
							path.append(x)
							seen.add(x)
				node = [a for a in node[1] if n in gens.leavesof(a)][0]
			result[n] = path
		return result

	dell = prm['DELETE_LABEL']
	gpaths, cpaths = paths(gold), paths(cand)
	same(leafancestorpaths(res.gtree, dell), gpaths, 'paths in gold tree')
	same(leafancestorpaths(res.ctree, dell), cpaths, 'paths in cand tree')
	want = [1 - lev(gpaths[n], cpaths[n]) / max(len(gpaths[n] + cpaths[n]), 1)
			for n in gpaths]
	want = sum(want) / len(want)
	check(abs(float(res.lascore) - want) < 1e-9, 'leaf-ancestor: got %s, '
			'expected %s', res.lascore, want)
	check(0 <= res.lascore <= 1, 'range')
	same(res.ted, treedist(res.gtree, res.ctree), 'tree distance')
	same(res.ted == 0, res.gtree == res.ctree, 'zero distance')
	same(res.denom, len(list(res.gtree.subtrees())) - deltop * (
			res.gtree.label == 'TOP') + len(list(res.ctree.subtrees()))
			- deltop * (res.gtree.label == 'TOP'), 'nodes')
	return 0 < want < 1 and gens.isdisc(gold)


def lev(a, b):
	prev = list(range(len(b) + 1))
	for n, x in enumerate(a, 1):
		cur = [n]
		for m, y in enumerate(b, 1):
			cur.append(min(prev[m] + 1, cur[-1] + 1, prev[m - 1] + (x != y)))
		prev = cur
	return prev[-1]


@prop(st.tuples(pairs(), params.filter(consistent)), quick=400,
		rule='at least two brackets and a deleted word')
def axioms(arg):
	"""A tree compared with itself has perfect scores; swapping gold and
	candidate swaps precision and recall; words are deleted regardless of
	whether they are present in the candidate."""
	(gold, cand, sent, _), param = arg
	prm = getparam(param)
	ref = Ref(gold, cand, sent, None, param)
	res = TreePairResult(1, build(gold, None), sent[:], build(gold, None),
			sent[:], prm)
	same(res.gbrack, res.cbrack, 'brackets of identical trees')
	same(res.gpos, res.cpos, 'tags of identical trees')
	if param['LA'] and ref.keep and res.gbrack and not param['DISC_ONLY']:
		same(res.lascore, 1, 'leaf-ancestor score')
	if param['TED'] and ref.keep:
		same(res.ted, 0, 'tree distance')
	a = TreePairResult(1, build(gold, None), sent[:], build(cand, None),
			sent[:], prm)
	deleted = [n for n in range(len(sent)) if n not in ref.keep]
	if param['DELETE_LABEL'] == () and not param['DELETE_ROOT_PRETERMS']:
		b = TreePairResult(1, build(cand, None), sent[:], build(gold, None),
				sent[:], prm)
		same((a.gbrack, a.cbrack), (b.cbrack, b.gbrack), 'symmetric')
	# remove deleted words from the candidate
	words = {sent[n] for n in ref.keep}
	gone = [n for n in deleted if sent[n] not in words]
	if gone and len(gone) < len(sent):
		keep = [n for n in range(len(sent)) if n not in gone]
		new = {n: m for m, n in enumerate(keep)}

		def prune(spec):
			if isinstance(spec, int):
				return new.get(spec)
			kids = [x for x in map(prune, spec[1]) if x is not None]
			return [spec[0], kids] if kids else None

		c = TreePairResult(1, build(gold, None), sent[:],
				build(prune(cand), None), [sent[n] for n in keep], prm)
		same(c.gbrack, a.gbrack, 'gold brackets')
		same(c.cbrack, a.cbrack, 'brackets without deleted words')
		same(c.cpos, a.cpos, 'POS tags without deleted words')
	# different sentences are rejected
	x = ref.keep and ref.keep[len(ref.keep) // 2]
	if ref.keep:
		other = sent[:]
		other[x] = 'zzz'
		raises(ValueError, TreePairResult, 1, build(gold, None), sent[:],
				build(cand, None), other, prm)
	return len(res.gbrack) > 1 and bool(gone)


@prop(st.tuples(st.lists(pairs(), min_size=1, max_size=3),
		params.filter(consistent), st.sampled_from(['export', 'discbracket']),
		st.lists(st.sampled_from(['--verbose', '--debug', '--disconly', '--la',
			'--ted', '--cutofflen=3', '--headrules']), max_size=3,
			unique=True), st.booleans()),
		quick=200, rule='some brackets match')
def command(arg):
	"""The command line interface reports the same scores; options override
	parameter file."""
	items, param, fmt, opts, useparam = arg
	# root label is not part of export format
	items = [(['ROOT', a[1]], ['ROOT', b[1]], c, d) for a, b, c, d in items]
	with scratch() as path:
		for name, x in (('gold', 0), ('cand', 1)):
			with open(path + '/' + name, 'w') as out:
				for n, item in enumerate(items, 1):
					out.write(writetree(build(item[x], None), item[2], str(n),
							fmt))
		with open(path + '/x.prm', 'w') as out:
			out.write(paramfile(param))
		with open(path + '/x.headrules', 'w') as out:
			out.write('TOP\tleft\tS\n')
		args = [path + '/gold', path + '/cand'] + [path + '/x.prm'] * useparam
		if not useparam:
			param = dict(DELETE_LABEL=(), DELETE_WORD=(), EQ_LABEL=(),
					DELETE_LABEL_FOR_LENGTH=(), LABELED=1, DISC_ONLY=0,
					DELETE_ROOT_PRETERMS=0, CUTOFF_LEN=40, LA=0, TED=0)
		args += [a.replace('headrules', 'headrules=%s/x.headrules' % path)
				for a in opts]
		param = dict(param)
		if '--disconly' in opts:
			param['DISC_ONLY'] = 1
		if '--cutofflen=3' in opts:
			param['CUTOFF_LEN'] = 3
		old = sys.argv[:]
		sys.argv[:] = ['discodop', 'eval', '--fmt=' + fmt] + args
		try:
			_, out = quiet(evalmod.main)
		finally:
			sys.argv[:] = old
	refs = [Ref(a, b, c, None, param) for a, b, c, _ in items]
	long = max(a.length for a in refs) > param['CUTOFF_LEN']
	lines = out.splitlines()
	start = max(n for n, a in enumerate(lines) if ' Summary ' in a)
	got = summary('\n'.join(lines[start:]), long)
	verifysummary(got[1], refs, param)
	if long:
		verifysummary(got[0], [a for a in refs
				if a.length <= param['CUTOFF_LEN']], param)
	same('leaf-ancestor' in got[1], bool(param['LA'] or '--la' in opts), 'la')
	same('tree-dist (Dice micro avg)' in got[1],
			bool(param['TED'] or '--ted' in opts), 'ted')
	same('unlabeled dependencies' in got[1], '--headrules' in opts, 'dep')
	if '--verbose' in opts or '--debug' in opts:
		rows = [a.split() for a in lines[:start] if re.match(
				r' *[0-9]+ +[0-9]+ +[-0-9.naDIV!]+ +[-0-9.naDIV!]+ +[0-9]+ +'
				r'[0-9]+ +[0-9]+ +[0-9]+ +[0-9]+ ', a)]
		same(len(rows), len(refs), 'rows')
		for n, (row, ref) in enumerate(zip(rows, refs), 1):
			g, c = sum(ref.gold.values()), sum(ref.cand.values())
			same([int(row[0]), int(row[1])] + [int(a) for a in row[4:9]],
					[n, ref.length, ref.match(), g, c, len(ref.keep),
					sum(a == b for a, b in zip(ref.gpos, ref.cpos))], 'row')
			approx(row[2], 100 * ratio(ref.match(), g), 'recall')
			approx(row[3], 100 * ratio(ref.match(), c), 'precision')
	return any(a.match() for a in refs)


@prop(st.tuples(st.lists(pairs(), min_size=1, max_size=4)), quick=300,
		rule='a label with errors')
def categories(arg):
	"""Breakdown by category: recall, precision, F1 of each label, in percent,
	and the share of each label in the gold trees."""
	items, = arg
	ev, _ = quiet(Evaluator, readparam(None))
	for n, (gold, cand, sent, _) in enumerate(items, 1):
		quiet(ev.add, n, build(gold, None), sent[:], build(cand, None),
				sent[:])
	_, out = quiet(ev.catbreakdown, None)
	part = out[out.index('Category Statistics'):].splitlines()[3:]
	prm = dict(DELETE_LABEL=(), DELETE_WORD=(), DELETE_LABEL_FOR_LENGTH=(),
			DELETE_ROOT_PRETERMS=0, EQ_LABEL=(), DISC_ONLY=0, LABELED=1)
	refs = [Ref(a, b, c, None, prm) for a, b, c, _ in items]
	gold, cand = Counter(), Counter()
	for n, a in enumerate(refs):
		gold.update((n, x) for x in a.gold.elements())
		cand.update((n, x) for x in a.cand.elements())
	seen = set()
	for line in part:
		fields = line.split()[:5]
		if line.startswith(39 * ' ') or not fields:
			continue
		label = fields[0]
		seen.add(label)
		g = Counter({a: b for a, b in gold.items() if label in a[1][0]})
		c = Counter({a: b for a, b in cand.items() if label in a[1][0]})
		m, g, c = map(sum, ((g & c).values(), g.values(), c.values()))
		approx(fields[1], 100 * g / sum(gold.values()), 'share of ' + label)
		approx(fields[2], 100 * ratio(m, g), 'recall of ' + label)
		approx(fields[3], 100 * ratio(m, c), 'precision of ' + label)
		approx(fields[4], 100 * fscore(m, g, c), 'F1 of ' + label)
	same(seen, {x for _, (a, _) in gold | cand for x in a}, 'labels')
	return gold != cand


@prop(st.tuples(st.lists(st.tuples(st.sampled_from('ABCDEF'),
		st.sampled_from('ABCDEF')), max_size=6),
		st.integers(0, 2 ** 20), st.text('abc', max_size=7),
		st.text('abc', max_size=7)), quick=500, rule='always')
def auxiliary(arg):
	"""Equivalence classes, intervals, edit distance, means."""
	eq, bits, a, b = arg
	same({frozenset(x) for x in transitiveclosure(set(eq)).values()},
			set(classes(eq).values()), 'equivalence classes')
	for key, val in transitiveclosure(set(eq)).items():
		check(key in val, 'representative')
	want = []
	for n in range(21):
		if bits >> n & 1:
			if want and want[-1][1] == n - 1:
				want[-1][1] = n
			else:
				want.append([n, n])
	same([list(x) for x in intervals(bits)], want, 'intervals')
	same(pyintbitcount(bits), bin(bits).count('1'), 'bits')
	if bits:
		same(strbracketings([('X', bits)]), 'X[%s]' % ','.join(
				'%d' % x if x == y else '%d-%d' % (x, y)
				for x, y in want), 'string')
	same(editdistance(a, b), lev(a, b), 'edit distance')
	nums = [len(a) + 1, len(b) + 1, bits % 7 + 1]
	check(abs(float(mean(nums)) - sum(nums) / 3) < 1e-9, 'mean')
	check(abs(float(harmean(nums)) - 3 / sum(1 / x for x in nums)) < 1e-9,
			'harmonic mean')
	return True


@prop(st.tuples(params, st.sampled_from(['LABELED 1', 'DEBUG 0',
		'EQ_LABEL A', 'FOO 1', 'CUTOFF_LEN 40'])), quick=150,
		rule='always')
def paramfiles(arg):
	"""Parameter files are read; mistakes are reported."""
	param, line = arg
	prm = getparam(param)
	for key in ('DELETE_LABEL', 'DELETE_WORD', 'DELETE_LABEL_FOR_LENGTH'):
		same(prm[key], set(param[key]), key)
	for key in ('LABELED', 'DISC_ONLY', 'CUTOFF_LEN', 'LA', 'TED',
			'DELETE_ROOT_PRETERMS'):
		same(prm[key], param[key], key)
	for key in ('EQ_LABEL', 'EQ_WORD'):
		cl = classes(param[key])
		same(sorted(prm[key]), sorted(cl), key)
		for a in cl:
			for b in cl:
				same(prm[key][a] == prm[key][b], cl[a] == cl[b], key)
	with scratch() as path:
		with open(path + '/x.prm', 'w') as out:
			out.write(paramfile(param) + line + '\n')
		raises(ValueError, readparam, path + '/x.prm')
		with open(path + '/y.prm', 'w') as out:  # trailing spaces
			out.write(paramfile(param).replace('\n', '  \n'))
		got = readparam(path + '/y.prm')
		same(got, prm, 'trailing spaces')
	return True

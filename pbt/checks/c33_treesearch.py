"""Corpus queries report exactly what matches."""
import io
import os
import re
import shutil
import sys
import tempfile
from collections import Counter
from contextlib import redirect_stdout, redirect_stderr
from hypothesis import strategies as st
import gens
from core import prop, check, same
from fragref import Table, occurrences

NEED = ('bit', 'containers', '_fragments')
OLD = 1000000000  # modification time for corpus files


def store(path, data, age=0):
	"""Write a corpus file which appears to be old."""
	with open(path, 'wb') as out:
		out.write(data.encode('utf8'))
	os.utime(path, (OLD + age, OLD + age))


# --- regular expressions -----------------------------------------------------

LINES = st.lists(st.one_of(st.just(''), st.lists(st.sampled_from(
		('a', 'b', 'ab', 'Aa', 'cat', 'aab', '1', 'b.')), min_size=1,
		max_size=6).map(' '.join)), min_size=1, max_size=9)
ULINES = st.lists(st.one_of(st.just(''), st.lists(st.sampled_from(
		('a', 'b\xe9', '\xe9\u732b', 'A\xe9', '\U0001f600', 'cat')),
		min_size=1, max_size=6).map(' '.join)), min_size=1, max_size=9)
ATOM = st.sampled_from(('a', 'b', 'ab', 'cat', 'A', ' ', '.', '[ab]',
		r'[^a\n]', r'\w', r'\ba', r'b\b', r'\.'))


@st.composite
def regexes(draw, plain=False):
	if plain:
		return '|'.join(draw(st.lists(st.sampled_from((
				'\xe9', 'b\xe9', '\u732b', 'a', ' a', '\xe9 ', '^\xe9', 'cat$',
				'\U0001f600', '\xe9$')), min_size=1, max_size=3)))
	result = []
	for _ in range(draw(st.integers(1, 3))):
		seq = ''
		for _ in range(draw(st.integers(1, 3))):
			atom = draw(ATOM)
			if seq and draw(st.integers(0, 3)) == 3:
				atom = '(?:%s)%s' % (atom, draw(st.sampled_from(
						('*', '+', '?', '{2}', '*?'))))
			if draw(st.integers(0, 9)) == 9:
				atom = '(%s)' % atom
			seq += atom
		result.append(draw(st.sampled_from(('', '', '', '^'))) + seq
				+ draw(st.sampled_from(('', '', '', '$'))))
	return '|'.join(result)


@st.composite
def textcorpora(draw, minfiles=1):
	plain = draw(st.integers(0, 3)) == 3
	files = []
	for _ in range(draw(st.integers(minfiles, 3))):
		lines = draw(ULINES if plain else LINES)
		data = '\n'.join(lines) + draw(st.sampled_from(('\n', '\n', '')))
		files.append(data)
	patterns = draw(st.lists(regexes(plain), min_size=1, max_size=4))
	return files, patterns


def repeated(ops):
	"""Repeat some operations with other limit."""
	return ops + [a[:-1] + (a[-1][:2] + (1 + n if a[-1][2] is None
			else None, ), ) for n, a in enumerate(ops[:2])]


OPTS = st.tuples(st.one_of(st.none(), st.integers(1, 7)),
		st.one_of(st.none(), st.integers(1, 7)),
		st.one_of(st.none(), st.integers(1, 5))).map(
		lambda x: (x[1], x[0], x[2]) if x[0] and x[1] and x[0] > x[1] else x)
OPS = st.lists(st.tuples(st.sampled_from(('counts', 'indices', 'breakdown',
		'sents', 'sents', 'batchcounts', 'batchsents')), st.integers(0, 3),
		st.lists(st.booleans(), min_size=3, max_size=3), OPTS),
		min_size=1, max_size=6).map(repeated)


def sentences(data):
	"""Reference: non-empty lines."""
	return [a for a in data.split('\n') if a]


def found(pattern, data, start, end, flags=0):
	"""Reference: list of (line number, start, end)."""
	return [(n, m.start(), m.end(), line) for n, line
			in enumerate(sentences(data), 1)
			if n >= (start or 1) and (end is None or n <= end)
			for m in re.compile(pattern, re.M | flags).finditer(line)]


def usable(patterns, files):
	"""No matches of the empty string."""
	return not any(a[1] == a[2] for p in patterns for b in files
			for a in found(p, b, None, None, re.I) + found(
					p, b, None, None)) and not any(
			re.compile(p).search('') for p in patterns)


def regexops(searcher, names, files, patterns, ops, flags):
	"""Perform operations, compare to reference."""
	hits = 0
	for op, n, chosen, (start, end, limit) in ops:
		pattern = patterns[n % len(patterns)]
		sub = [a for a, b in zip(names, chosen) if b] or None
		which = sub or names
		want = {name: found(pattern, files[names.index(name)], start, end,
				flags) for name in which}
		hits += sum(len(a) for a in want.values())
		msg = '%s: %r in %r, %r--%r; max %r', op, pattern, sub, start, end, limit
		kw = dict(subset=sub, start=start, end=end)
		if op == 'counts':
			same(dict(searcher.counts(pattern, **kw)),
					{a: len(b) for a, b in want.items()}, *msg)
		elif op == 'indices':
			got = searcher.counts(pattern, indices=True, **kw)
			same({a: list(b) for a, b in got.items()},
					{a: [c[0] for c in b] for a, b in want.items()}, *msg)
		elif op == 'breakdown':
			got = searcher.counts(pattern, breakdown=True, **kw)
			same({a: dict(b) for a, b in got.items()},
					{a: dict(Counter(line[i:j] for _, i, j, line in b))
					for a, b in want.items()}, *msg)
		elif op == 'sents':
			got = {a: [] for a in which}
			for name, lineno, sent, high, high2 in searcher.sents(
					pattern, maxresults=limit, **kw):
				got[name].append((lineno, min(high), max(high) + 1, sent))
				same(list(high2), [], 'second highlight')
			same(got, {a: b[:limit] for a, b in want.items()}, *msg)
		elif op == 'batchcounts':
			want = [(name, [len(found(p, files[names.index(name)], start,
					end, flags)) for p in patterns]) for name in which]
			same([(a, list(b)) for a, b in searcher.batchcounts(
					patterns, **kw)], want, *msg)
		elif op == 'batchsents':
			got = [(name, [(a, min(c), max(c) + 1, b) for a, b, c, _ in x])
					for name, x in searcher.batchsents(
					patterns, maxresults=limit, **kw)]
			want = [(name, [a for p in patterns for a in found(p,
					files[names.index(name)], start, end, flags)[:limit]])
					for name in which]
			same(got, want, *msg)
	return hits


def regexsearch(arg, numproc):
	from discodop.treesearch import RegexSearcher
	(files, patterns), ops, icase, inmemory, macro = arg
	if not usable(patterns, files):
		return ()
	tmp = tempfile.mkdtemp()
	try:
		names = [os.path.join(tmp, '%d.txt' % n) for n in range(len(files))]
		for name, data in zip(names, files):
			store(name, data)
		kw = {}
		queries = patterns
		if macro:
			patterns = [p for p in patterns
					if '{' not in p and '}' not in p] or ['a']
			with open(os.path.join(tmp, 'macros'), 'w', encoding='utf8'
					) as out:
				for n, p in enumerate(patterns):
					out.write('m%d=%s\n' % (n, p.replace('\n', '')))
			kw['macros'] = os.path.join(tmp, 'macros')
			queries = ['{m%d}' % n for n in range(len(patterns))]
			patterns = [p.replace('\n', '') for p in patterns]
			if not usable(patterns, files) or any(
					p != p.strip() for p in patterns):
				return ()
		with RegexSearcher(names, numproc=numproc, ignorecase=icase,
				inmemory=inmemory, **kw) as searcher:
			try:
				hits = regexops(Aliased(searcher, dict(zip(patterns, queries)))
						if macro else searcher, names, files, patterns, ops,
						re.I if icase else 0)
				for name, data in zip(names, files):
					sents = sentences(data)
					info = searcher.getinfo(name)
					same(info.len, len(sents), 'number of sentences')
					index = [n for n in (3, 1, 2) if n <= len(sents)]
					same(searcher.extract(name, index), [sents[n - 1]
							for n in index], 'extract %r', index)
			finally:
				searcher.pool.shutdown()
	finally:
		shutil.rmtree(tmp)
	return ['matches'] if hits else []


class Aliased:
	"""Turn queries into their aliases before calling the searcher."""
	def __init__(self, searcher, alias):
		self.searcher, self.alias = searcher, alias

	def __getattr__(self, name):
		def func(query, *args, **kwargs):
			query = ([self.alias[a] for a in query]
					if isinstance(query, list) else self.alias[query])
			return getattr(self.searcher, name)(query, *args, **kwargs)
		return func


@prop(st.tuples(textcorpora(), OPS, st.booleans(), st.booleans(),
		st.sampled_from((False, False, True))), 1200,
		rule='a query in the history has matches')
def regex(arg):
	"""Histories of queries with regular expressions vs. matching each line."""
	return regexsearch(arg, 1)


@prop(st.tuples(textcorpora(minfiles=2), OPS, st.booleans(), st.booleans(),
		st.just(False)), 12, thorough=200,
		rule='a query in the history has matches')
def regexmulti(arg):
	"""Same with multiple processes."""
	return regexsearch(arg, 2)


@prop(st.tuples(st.lists(LINES, min_size=2, max_size=4), st.lists(st.tuples(
		st.sampled_from(('search', 'search', 'change')), st.integers(0, 3),
		st.integers(0, 3), LINES), min_size=2, max_size=6)), 250,
		rule='a corpus is searched after searching or changing another')
def sessions(arg):
	"""A session with a list of files after other sessions in the same
	directory; files may have been modified."""
	from discodop.treesearch import RegexSearcher
	contents, ops = arg
	contents = ['\n'.join(a) + '\n' for a in contents]
	tmp = tempfile.mkdtemp()
	try:
		names = [os.path.join(tmp, '%d.txt' % n)
				for n in range(len(contents))]
		for name, data in zip(names, contents):
			store(name, data)
		searches = set()
		for op, x, y, new in ops:
			x %= len(names)
			if op == 'change':
				contents[x] = '\n'.join(new) + '\n'
				with open(names[x], 'w', encoding='utf8') as out:
					out.write(contents[x])
				now = os.stat(names[x]).st_mtime + 5
				os.utime(names[x], (now, now))
				# appear as older than any index files made subsequently,
				# but newer than existing ones.
				past(tmp, names, names[x])
				continue
			which = [names[n] for n in sorted({x, y % len(names)})]
			searches.add(tuple(which))
			with RegexSearcher(which, numproc=1) as searcher:
				for name in which:
					sents = sentences(contents[names.index(name)])
					same(searcher.extract(name, range(1, len(sents) + 1)),
							sents, 'sentences of %s', os.path.basename(name))
				got = searcher.counts(r'\w+', indices=True)
				same({a: list(b) for a, b in got.items()},
						{name: [a[0] for a in found(r'\w+', contents[
							names.index(name)], None, None)]
						for name in which}, 'indices of matches')
	finally:
		shutil.rmtree(tmp)
	return ['multiple lists'] if len(searches) > 1 else []


def past(path, names, changed):
	"""Make other files older."""
	for a in os.listdir(path):
		a = os.path.join(path, a)
		if a != changed:
			mtime = os.stat(a).st_mtime - 100
			os.utime(a, (mtime, mtime))
	mtime = max([os.stat(os.path.join(path, a)).st_mtime for a in os.listdir(
			path) if os.path.join(path, a) != changed] + [OLD]) + 50
	os.utime(changed, (mtime, mtime))


# --- tree fragments ------------------------------------------------------------

WORDS = ('a', 'b', 'c', 'x-y', '\xe9', '2:2', '-x', "'s")


@st.composite
def treecorpora(draw, fmts=('mrg', 'dbr', 'export'), minfiles=1):
	fmt = draw(st.sampled_from(fmts))
	kw = dict(disc=fmt != 'mrg' and draw(st.booleans()), maxleaves=7,
			maxarity=4, word=st.sampled_from(WORDS), phrasal=(
			'S', 'A', 'A-x', 'A-x-y'), pos=('x', 'y', 'y-f', 'z[sg]', 'z[sg]-f', '-X-'))
	if fmt == 'export':
		kw['root'] = 'ROOT'
	files = []
	for _ in range(draw(st.integers(minfiles, 3))):
		items = draw(st.lists(gens.treesents(**kw), min_size=1, max_size=4))
		items += draw(st.lists(st.sampled_from(items), max_size=2))
		files.append([(gens.canonspec(a), b) for a, b in items])
	queries = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 9),
			st.integers(0, 30), st.lists(st.integers(0, 4), max_size=12),
			st.integers(0, 9)), min_size=1, max_size=4))
	return fmt, files, queries


def write(path, fmt, items):
	"""Reference writer."""
	def render(spec, sent):
		if isinstance(spec[1][0], int):
			return '(%s %s%s)' % (spec[0], '%d=' % spec[1][0]
					if fmt == 'dbr' else '', sent[spec[1][0]])
		return '(%s %s)' % (spec[0], ' '.join(
				render(a, sent) for a in spec[1]))

	if fmt == 'export':
		return store(path, ''.join(export(n, a, b)
				for n, (a, b) in enumerate(items, 1)))
	store(path, ''.join(render(*a) + '\n' for a in items))


def export(n, spec, sent):
	nodes = []
	rows = {}

	def visit(node, parent):
		if isinstance(node[1][0], int):
			rows[node[1][0]] = (sent[node[1][0]], node[0], parent)
			return
		num = 500 + len(nodes)
		nodes.append((num, node[0], parent))
		for a in node[1]:
			visit(a, num)
	for a in spec[1]:
		visit(a, 0)
	return '#BOS %d\n%s#EOS %d\n' % (n, ''.join(
			'%s\t%s\t--\t--\t%d\n' % rows[a] for a in sorted(rows)) + ''.join(
			'#%d\t%s\t--\t--\t%d\n' % a for a in reversed(nodes)), n)


def cut(tab, root, choices, unseen):
	"""Fragment of tab; returns table of fragment, its string."""
	choices = list(choices)
	nodes = set()

	def visit(n):
		nodes.add(n)
		for a in tab.kids[n]:
			if not choices or choices.pop():
				visit(a)
	visit(root)
	return frozenset(nodes)


def makequeries(fmt, tabs, queries):
	"""List of (string, (table, root, nodes) or None)"""
	result = []
	for f, n, root, choices, unseen in queries:
		bank = tabs[f % len(tabs)]
		tab = bank[n % len(bank)]
		root %= len(tab)
		nodes = cut(tab, root, choices, unseen)
		query = tab.string(nodes, root, disc=fmt != 'mrg')
		words = [m for m in nodes if tab.word[m]]
		if unseen == 9 and words:
			query = re.sub(r'(?<=[= ])%s\)' % re.escape(tab.word[min(words)]),
					'unseen)', query)
			result.append((query, None, []))
		elif unseen == 8:
			result.append((query.replace('(' + tab.label[root] + ' ',
					'(unseen ', 1), None, []))
		else:
			result.append((query, (tab, root, nodes),
					[tab.word[m] for m in words]))
	return result


def unbin(tree):
	"""Remove binarization, return specification."""
	if isinstance(tree, int):
		return tree
	kids = []
	for a in tree:
		a = unbin(a)
		if not isinstance(a, int) and '|<' in a[0]:
			kids.extend(a[1])
		else:
			kids.append(a)
	return [tree.label, kids]


def matches(query, bank, start, end):
	"""Reference: list of (sentno, node)"""
	if query[1] is None:
		return []
	return [(n + 1, m) for n, m in occurrences(*query[1], bank)
			if n + 1 >= (start or 1) and (end is None or n + 1 <= end)]


def chars(sent, tokens):
	"""Reference: character positions of tokens & subsequent spaces."""
	result, pos = set(), 0
	for n, a in enumerate(sent):
		length = len(a) + (n + 1 < len(sent))
		if n in tokens:
			result.update(range(pos, pos + length))
		pos += len(a) + 1
	return result


FOPS = st.lists(st.tuples(st.sampled_from(('counts', 'indices', 'breakdown',
		'sents', 'brackets', 'trees', 'batchcounts', 'batchsents')),
		st.integers(0, 3), st.integers(1, 2),
		st.lists(st.booleans(), min_size=3, max_size=3), OPTS),
		min_size=1, max_size=6).map(repeated)


def subsent(bank, n, m):
	return set(bank[n - 1].leaves[m])


def stripped(spec, nofunc, nomorph):
	"""Reference: specification without functions/morphology in labels."""
	if isinstance(spec, int):
		return spec
	label = spec[0]
	if nofunc and not label.startswith('-'):
		label = label.split('-')[0]
	if nomorph:
		label = label.replace('[sg]', '')
	return [label, [stripped(a, nofunc, nomorph) for a in spec[1]]]


def fragops(searcher, names, fmt, files, tabs, queries, ops):
	hits = 0
	for op, q, num, chosen, (start, end, limit) in ops:
		if op in ('batchcounts', 'breakdown', 'batchsents'):
			qs = queries
			if op != 'batchcounts' and len({a[0] for a in qs}) < len(qs):
				continue
		else:
			q %= len(queries)
			qs = queries[q:q + num]
		text = '\n'.join(a[0] for a in qs)
		sub = [a for a, b in zip(names, chosen) if b] or None
		which = sub or names
		banks = {name: tabs[names.index(name)] for name in which}
		items = {name: files[names.index(name)] for name in which}
		want = {name: [matches(a, bank, start, end) for a in qs]
				for name, bank in banks.items()}
		hits += sum(len(b) for a in want.values() for b in a)
		kw = dict(subset=sub, start=start, end=end)
		msg = '%s: %r in %r, %r--%r; max %r', op, text, sub, start, end, limit
		if op == 'counts':
			same(dict(searcher.counts(text, **kw)),
					{a: sum(map(len, b)) for a, b in want.items()}, *msg)
		elif op == 'indices':
			got = searcher.counts(text, indices=True, **kw)
			same({a: list(b) for a, b in got.items()}, {a: [n for x in b
					for n, _ in x] for a, b in want.items()}, *msg)
		elif op == 'breakdown':
			same({a: dict(b) for a, b in searcher.counts(
					text, breakdown=True, **kw).items()},
					{a: {q[0]: len(c) for q, c in zip(qs, b)}
					for a, b in want.items()}, *msg)
		elif op == 'batchcounts':
			same([(a, list(b)) for a, b in searcher.batchcounts(
					[a[0] for a in qs], **kw)],
					[(a, list(map(len, b))) for a, b in want.items()], *msg)
		elif op in ('sents', 'batchsents', 'brackets'):
			brackets = op == 'brackets'
			got = {a: [] for a in which}
			if op == 'batchsents':
				for name, x in searcher.batchsents([a[0] for a in qs],
						maxresults=limit, **kw):
					got[name].extend(x)
				want = {name: [(qq, n, m) for qq, b in zip(qs, a)
						for n, m in sorted(b)[:limit]]
						for name, a in want.items()}
			else:
				for x in searcher.sents(text, maxresults=limit,
						brackets=brackets, **kw):
					got[x[0]].append(x[1:])
				want = {name: [(qq, n, m) for qq, b in zip(qs, a)
						for n, m in b][:limit] for name, a in want.items()}
			for name in which:
				same([a[0] for a in got[name]], [n for _, n, _ in want[name]],
						*msg)
				if brackets:
					same(sorted(brackettreespec(fmt, *a) for a in got[name]),
							sorted(refbrackets(items[name], banks[name], n, m)
							for _, n, m in want[name]) if limit is None
							else sorted(brackettreespec(fmt, *a)
							for a in got[name]), *msg)
					continue
				allowed = [(qq[2], n, chars(items[name][n - 1][1],
						subsent(banks[name], n, m)), items[name][n - 1][1])
						for qq, n, m in want[name]]
				same([a[1] for a in got[name]], [' '.join(a[3])
						for a in allowed], *msg)
				if limit is None:
					same(sorted((n, sorted(b)) for n, _, _, b in got[name]),
							sorted((n, sorted(b)) for _, n, b, _ in allowed),
							*msg)
				for (n, _, high, high2), (words, _, _, sent) in zip(
						got[name], allowed):
					same(set(high), chars(sent, {i for i, a in enumerate(sent)
							if a in words and chars(sent, {i}) <= set(
								high2)}), *msg)
		elif op == 'trees':
			nofunc, nomorph = q % 2 == 1, num == 2
			got = {a: [] for a in which}
			for name, n, tree, sent, high in searcher.trees(text,
					maxresults=limit, nofunc=nofunc, nomorph=nomorph, **kw):
				same(unbin(tree), stripped(items[name][n - 1][0], nofunc,
						nomorph),
						'tree; %s' % msg[0], *msg[1:])
				same(sent, items[name][n - 1][1], 'sentence; %s' % msg[0],
						*msg[1:])
				check(high, 'no highlighted nodes; %s' % msg[0], *msg[1:])
				nodes = [a for a in high if not isinstance(a, int)]
				top = max(nodes, key=lambda a: (len(a.leaves()),
						sum(1 for _ in a.subtrees())))
				check(any(a is top for a in tree.subtrees()),
						'highlighted node not in tree')
				same({a for a in high if isinstance(a, int)},
						set(top.leaves()), 'highlighted terminals')
				got[name].append((n, unbin(top)))
			for name in which:
				ref = [(n, stripped(banks[name][n - 1].spec(m), nofunc, nomorph))
						for b in want[name] for n, m in b]
				if limit is None:
					same(sorted(map(repr, got[name])), sorted(map(repr, ref)),
							*msg)
				else:
					same([n for n, _ in got[name]],
							[n for n, _ in ref][:limit], *msg)
					check(set(map(repr, got[name])) <= set(map(repr, ref)),
							'highlights; %s' % msg[0], *msg[1:])
	return hits


def brackettreespec(fmt, n, sent, match, match2):
	"""Canonical form of results in bracket notation."""
	from discodop.tree import brackettree, discbrackettree
	same(match2, '', 'second highlight')
	check(match in sent, 'match %r not in %r', match, sent)
	if fmt == 'mrg':
		tree, words = brackettree(sent, detectdisc=False)
		sub = brackettree(match, detectdisc=False)
		sub = (unbin(sub[0]), sub[1])
	else:
		tree, words = discbrackettree(sent)
		sub = reduced(unbin(discbrackettree(match)[0])), [a for a in
				discbrackettree(match)[1] if a is not None]
	return repr((n, unbin(tree), words, sub))


def reduced(spec):
	index = {a: n for n, a in enumerate(sorted(gens.leavesof(spec)))}

	def visit(node):
		return index[node] if isinstance(node, int) else [
				node[0], [visit(a) for a in node[1]]]
	return visit(spec)


def refbrackets(items, bank, n, m):
	tree, sent = items[n - 1]
	tab = bank[n - 1]
	return repr((n, tree, sent, (reduced(tab.spec(m)), [sent[a]
			for a in tab.leaves[m]])))


class Tab(Table):
	def spec(self, n):
		"""Subtree as specification."""
		return [self.label[n], [self.spec(a) for a in self.kids[n]]
				or self.leaves[n]]


def fragsearch(arg, numproc):
	from discodop.treesearch import FragmentSearcher
	(fmt, files, queries), ops, inmemory, reopen = arg
	tabs = [[Tab(*a) for a in b] for b in files]
	queries = makequeries(fmt, tabs, queries)
	tmp = tempfile.mkdtemp()
	try:
		names = [os.path.join(tmp, '%d.%s' % (n, fmt))
				for n in range(len(files))]
		for name, items in zip(names, files):
			write(name, fmt, items)
		hits = 0
		for _ in range(1 + reopen):
			with FragmentSearcher(names, numproc=numproc,
					inmemory=inmemory) as searcher:
				try:
					hits += fragops(searcher, names, fmt, files, tabs,
							queries, ops)
					for name, items in zip(names, files):
						index = [n for n in (3, 1, 2) if n <= len(items)]
						same([(unbin(a), b) for a, b in searcher.extract(
								name, index)], [items[n - 1] for n in index],
								'extract')
						same(searcher.extract(name, index, sents=True),
								[' '.join(items[n - 1][1]) for n in index],
								'extract sents')
						info = searcher.getinfo(name)
						size = [sum(1 + max(len(b[1]) - 2, 0)
								for b in gens.nodesof(a)) for a, _ in items]
						same((info.len, info.numwords, info.numnodes,
								info.maxnodes), (len(items), sum(
								len(b) for _, b in items), sum(size),
								max(size)), 'getinfo')
				finally:
					searcher.pool.shutdown()
	finally:
		shutil.rmtree(tmp)
	return [fmt] if hits else []


@prop(st.tuples(treecorpora(), FOPS, st.booleans(), st.booleans()), 700,
		rule='a query in the history has matches')
def fragments(arg):
	"""Histories of queries with tree fragments vs. reference."""
	return fragsearch(arg, 1)


@prop(st.tuples(treecorpora(minfiles=2), FOPS, st.booleans(), st.just(False)),
		8, thorough=100, rule='a query in the history has matches')
def fragmulti(arg):
	"""Same with multiple processes."""
	return fragsearch(arg, 2)


@prop(st.tuples(treecorpora(minfiles=3), st.lists(st.lists(st.integers(0, 2),
		min_size=1, max_size=2), min_size=2, max_size=4)), 150,
		rule='a corpus is searched after searching another')
def fragsessions(arg):
	"""Sessions with different lists of files in the same directory."""
	from discodop.treesearch import FragmentSearcher
	(fmt, files, queries), lists = arg
	tabs = [[Tab(*a) for a in b] for b in files]
	queries = makequeries(fmt, tabs, queries)
	tmp = tempfile.mkdtemp()
	try:
		names = [os.path.join(tmp, '%d.%s' % (n, fmt))
				for n in range(len(files))]
		for name, items in zip(names, files):
			write(name, fmt, items)
		for which in lists:
			which = [names[n] for n in sorted(set(which))]
			with FragmentSearcher(which, numproc=1) as searcher:
				for query in queries:
					same(dict(searcher.counts(query[0])), {name: len(matches(
							query, tabs[names.index(name)], None, None))
							for name in which}, 'count of %r', query[0])
				for name in which:
					items = files[names.index(name)]
					same([(unbin(a), b) for a, b in searcher.extract(name,
							range(1, len(items) + 1))], items, 'extract')
	finally:
		shutil.rmtree(tmp)
	return ['multiple lists'] if len(set(map(str, lists))) > 1 else []


# --- command, helpers ------------------------------------------------------------

@st.composite
def commands(draw):
	corpora = draw(st.one_of(textcorpora(), treecorpora()))
	return (corpora, draw(st.sampled_from(('counts', 'indices', 'counts',
			'breakdown', 'sents', 'sents', 'types', 'trees', 'brackets'))),
			draw(OPTS), draw(st.sets(st.sampled_from(('csv', 'o', 'n', 'h',
			'f', 'i', 'long', 'macro')))), draw(st.integers(1, 3)))


ANSI = re.compile('\x1b\\[[0-9;]*m')


def callmain(argv):
	from discodop import treesearch
	orig, size = sys.argv, treesearch.CACHESIZE
	out = io.StringIO()
	sys.argv = ['discodop', 'treesearch'] + argv
	try:
		with redirect_stdout(out), redirect_stderr(io.StringIO()):
			treesearch.main()
	finally:
		sys.argv, treesearch.CACHESIZE = orig, size
	return out.getvalue()


@prop(commands(), 800, rule='the query has matches')
def command(arg):
	"""Output of the command, given files, queries, options."""
	from discodop.treesearch import FragmentSearcher
	from discodop.tree import DrawTree
	corpora, action, (start, end, limit), flags, num = arg
	regexp = isinstance(corpora[0], list)
	tmp = tempfile.mkdtemp()
	try:
		if regexp:
			files, patterns = corpora
			patterns = [p for p in patterns if '\n' not in p][:num] or ['a']
			if action in ('trees', 'brackets') or not usable(patterns, files):
				return ()
			names = [os.path.join(tmp, '%d.txt' % n)
					for n in range(len(files))]
			for name, data in zip(names, files):
				store(name, data)
			icase = re.I if 'i' in flags else 0
			want = [[[(n, line, set(range(i, j)), set())
					for n, i, j, line in found(p, data, start, end, icase)]
					for p in patterns] for data in files]
		else:
			fmt, files, queries = corpora
			tabs = [[Tab(*a) for a in b] for b in files]
			queries = makequeries(fmt, tabs, queries)[:num]
			patterns = [a[0] for a in queries]
			if len(set(patterns)) < len(patterns):
				return ()
			names = [os.path.join(tmp, '%d.%s' % (n, fmt))
					for n in range(len(files))]
			for name, items in zip(names, files):
				write(name, fmt, items)
			want = [[[(n, ' '.join(items[n - 1][1]), m, chars(
					items[n - 1][1], subsent(bank, n, m)))
					for n, m in matches(q, bank, start, end)]
					for q in queries]
					for items, bank in zip(files, tabs)]
		if action in ('indices', 'trees'):
			if 'csv' in flags or regexp:
				patterns = patterns[:1]
				flags = flags - {'csv'}
			patterns = patterns[:1]
		want = [a[:len(patterns)] for a in want]
		query = '\n'.join(patterns)
		argv = ['--numproc=1', '-e', 'regex' if regexp else 'frag']
		if 'long' in flags:
			argv[1:] = ['--engine=' + argv[2]]
		if start or end:
			argv.append('--slice=%s:%s' % (start or '', end or ''))
		if regexp and 'i' in flags:
			argv.append('-i')
		for flag, opt in dict(o='--only-matching', n='--line-number',
				h='--no-filename', csv='--csv').items():
			if flag in flags:
				argv.append(opt if 'long' in flags or flag == 'csv'
						else '-' + flag)
		argv.append('-m%d' % (limit or 0))
		argv += dict(counts=['-c'], indices=['--indices'], breakdown=['-c',
				'--breakdown'], sents=['-s'], types=['--breakdown'],
				trees=['-t'], brackets=['-b'])[action]
		if 'f' in flags:
			argv.append('-f')
			path = os.path.join(tmp, 'queries')
			with open(path, 'w', encoding='utf8') as out:
				out.write(query + '\n')
			argv.append(path)
		else:
			argv += ['--', query]
		got = ANSI.sub('', callmain(argv + names))
		prefix = len(names) > 1 and 'h' not in flags
		ref = compare(action, names, patterns, want, limit, flags, prefix,
				regexp, got)
		if action == 'trees':
			with FragmentSearcher(names, numproc=1) as searcher:
				ref = ''
				for name, m in zip(names, want):
					for n, _, _, _ in m[0][:limit]:
						tree, sent = searcher.extract(name, [n])[0]
						ref += name + ':' if prefix else ''
						ref += '%d:' % n if 'n' in flags else ''
						ref += '\n' if prefix or 'n' in flags else ''
						ref += DrawTree(tree, sent).text(
								unicodelines=True) + '\n'
				searcher.pool.shutdown()
			if 'o' in flags:
				ref = None
		if ref is not None:
			same(got, ref, '%r', argv)
	finally:
		shutil.rmtree(tmp)
	return [action] if any(b for a in want for b in a) else ()


def compare(action, names, patterns, want, limit, flags, prefix, regexp, got):
	"""Reference for output; or None if compared otherwise."""
	result = []
	if action in ('counts', 'breakdown') and (len(patterns) > 1
			or 'csv' in flags or action == 'breakdown'):
		if action == 'breakdown' and regexp:
			return None
		if 'csv' in flags:
			import csv
			rows = list(csv.reader(io.StringIO(got)))
			columns = patterns if action == 'counts' else sorted(patterns)
			ref = [['filename'] + columns] + [[name] + [str(len(
					dict(zip(patterns, m))[p])) for p in columns]
					for name, m in zip(names, want)]
			same(rows, ref, 'csv')
			return None
		for name, m in zip(names, want):
			result.append(name)
			result.extend('%s\t%d' % (a, len(b))
					for a, b in zip(patterns, m) if b)
			result.append('')
	elif action in ('counts', 'indices'):
		for name, m in zip(names, want):
			result.append((name + ':' if prefix else '') + str(
					len(m[0]) if action == 'counts' else [a[0] for a in m[0]]))
	elif action == 'sents':
		if not regexp and 'o' in flags or not regexp and limit is not None:
			return None
		for name, m in zip(names, want):
			for n, sent, high, high2 in [a for b in m for a in b[:limit]]:
				if 'o' in flags:
					sent = ''.join(char if k in high else ''
							for k, char in enumerate(sent))
				result.append((name + ':' if prefix else '') + (
						'%d:' % n if 'n' in flags else '') + sent)
		if not regexp:
			same(Counter(got.splitlines()), Counter(result))
			return None
	elif action == 'types' and regexp:
		lines = [re.match(r' *(\d+) (.*)$', a).groups()
				for a in got.split('\n')[:-1]]
		counts = Counter(re.sub(' {2,}', ' ... ', ''.join(char if k in high
				else ' ' for k, char in enumerate(sent)))
				for m in want for b in m
				for _, sent, high, _ in b[:limit])
		same({b: int(a) for a, b in lines}, dict(counts), 'breakdown')
		nums = [int(a) for a, _ in lines]
		same(nums, sorted(nums, reverse=True), 'order')
		return None
	elif action == 'brackets' and limit is None and 'o' not in flags:
		same(len(got.splitlines()), sum(len(b) for m in want for b in m))
		return None
	else:
		return None
	return ''.join(a + '\n' for a in result)


@prop(st.tuples(st.lists(st.text('ab\xe9', min_size=1, max_size=4),
		min_size=1, max_size=6), st.sets(st.integers(0, 5)),
		st.sets(st.integers(0, 5)), st.booleans(), st.integers(0, 4),
		st.lists(st.tuples(st.integers(0, 6), st.integers(0, 9)))), 400,
		rule='some positions are highlighted')
def helpers(arg):
	"""Highlighting of given words; cache with a maximum size."""
	from discodop.treesearch import (charindices, applyhighlight,
			FIFOOrederedDict)
	sent, high1, high2, reset, limit, ops = arg
	high1 = {a for a in high1 if a < len(sent)}
	high2 = {a for a in high2 if a < len(sent)}
	same(charindices(sent, high1), chars(sent, high1))
	same(charindices(sent, high1, high2), (chars(sent, high1),
			chars(sent, high2)))
	text = ' '.join(sent)
	high1, high2 = chars(sent, high1), chars(sent, high2)
	out = applyhighlight(text, high1, high2, reset=reset, high1color='green',
			high2color='yellow')
	color, result, shown = None, [], ''
	for a in re.split('(\x1b\\[[0-9;]*m)', out):
		if a.startswith('\x1b'):
			color = None if a == '\x1b[0m' else a[2:-3]
		else:
			shown += a
			result.extend(color for _ in a)
	same(shown, text, 'highlighted text')
	same(result, ['32' if n in high1 else '33' if n in high2 else None
			for n in range(len(text))], 'colors in %r', out)
	same(color, None, 'color at end')
	cache, ref = FIFOOrederedDict(limit), []
	for key, val in ops:
		cache[key] = val
		if limit:
			ref = ([a for a in ref if a[0] != key] + [(key, val)])[-limit:]
		same(list(cache.items()), ref, 'cache')
	return ['yes'] if high1 | high2 else []


@prop(st.tuples(treecorpora(), textcorpora(), st.booleans()), 6, thorough=40,
		rule='more than one file')
def descriptors(arg):
	"""Many queries do not use up the available file descriptors."""
	from discodop.treesearch import FragmentSearcher, RegexSearcher
	(fmt, files, queries), (texts, patterns), inmemory = arg
	tabs = [[Tab(*a) for a in b] for b in files]
	queries = makequeries(fmt, tabs, queries)
	tmp = tempfile.mkdtemp()
	try:
		names = [os.path.join(tmp, '%d.%s' % (n, fmt))
				for n in range(len(files))]
		for name, items in zip(names, files):
			write(name, fmt, items)
		textnames = [os.path.join(tmp, '%d.txt' % n)
				for n in range(len(texts))]
		for name, data in zip(textnames, texts):
			store(name, data)
		before = len(os.listdir('/proc/self/fd'))
		with FragmentSearcher(names, numproc=1, inmemory=inmemory
				) as searcher, RegexSearcher(textnames, numproc=1,
				inmemory=inmemory) as searcher2:
			counts = []
			for n in range(1, 30):
				searcher.counts(queries[0][0], start=1, end=n)
				list(searcher.trees(queries[0][0], start=1, end=n))
				searcher.extract(names[0], [1])
				list(searcher2.batchcounts(patterns, start=1, end=n))
				searcher2.counts('a', start=1, end=n)
				searcher2.extract(textnames[0], [])
				counts.append(len(os.listdir('/proc/self/fd')))
			check(counts[-1] - counts[9] < 10,
					'number of open files keeps growing: %r', counts)
		after = len(os.listdir('/proc/self/fd'))
		check(after <= before + 20, 'open files: %d before, %d after close',
				before, after)
	finally:
		shutil.rmtree(tmp)
	return ['yes'] if len(names) > 1 else []


UNICODE = [('caf.', 'caf\xe9'), ('[\xe9\xe8]', '\xe9'), ('\xe9{2}', '\xe9\xe9')]


@prop(st.sampled_from(UNICODE), 6, thorough=6, rule='all')
def regexunicode(arg):
	"""Characters outside of ASCII are single characters in patterns."""
	from discodop.treesearch import RegexSearcher
	pattern, text = arg
	tmp = tempfile.mkdtemp()
	try:
		name = os.path.join(tmp, '0.txt')
		store(name, text + '\n')
		with RegexSearcher([name], numproc=1) as searcher:
			same([(n, sent, list(high)) for _, n, sent, high, _
					in searcher.sents(pattern)],
					[(1, text, list(range(len(text))))])
			same(searcher.counts(pattern)[name], 1)
	finally:
		shutil.rmtree(tmp)
	return ['yes']

"""C34: unknown word models: statistics, signatures, and coverage."""
import re
from collections import Counter, defaultdict
from hypothesis import strategies as st
import lcfrs
from core import prop, check, same
from gens import ispre, nodesof, mk, biased, canonspec, specs
from lcfrs import Forest, readchart, close

NEED = ('bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
		'disambiguation', 'estimates', '_fragments')
MODELS = ('4', '6', 'base', 'ftb')
STEMS = ('a', 'the', 'walk', 'walked', 'walking', 'Walks', 'U', 'US', 'NATO',
		'well-read', 'quickly', 'city', 'Est', 'bus', 'gas', 'mr.', '.', ',',
		'--', '%', '50-year', 'B2B', '1,000,000', '3.5%', '(', 'x/y')
NUMS = ('1984', '2011', '1970', '000', '7', '42', '3.14', '2,5', "'94',"[:3],
		'.5', '20012')
WORD = st.one_of(st.sampled_from(STEMS), st.sampled_from(STEMS),
		st.sampled_from(NUMS), st.text('abcdeinglysEDNU19.,-', min_size=1,
		max_size=6))
TAGS = ('N', 'N-SB', 'N-OA', 'N/Sg', 'V', 'V-HD/Pl', 'D', '$,', '-LRB-', 'N^S',
		'N-SB^VP', ':', 'P')
DIGITS = '0123456789'


def basetag(tag):
	"""Tag without function, morphology, and state splits."""
	if tag[0] in '-/^|:' or '|' in tag or ':' in tag:
		return tag
	return re.split('[-/^]', tag)[0]


def isnum(word):
	"""'000' for numbers, '1970' for years, else None."""
	if len(word) == 4 and word[:2] in ('19', '20') and all(
			a in DIGITS for a in word):
		return '1970'
	n = len(word)  # strip maximal suffix of digits
	while n and word[n - 1] in DIGITS:
		n -= 1
	if n == len(word):
		return None
	if n == 0 or (word[n - 1] in ",.'" and all(
			a in DIGITS for a in word[:n - 1])):
		return '000'
	return None


# --- generators ---------------------------------------------------------------

@st.composite
def corpora(draw, maxsents=8, maxlen=8):
	"""A tagged corpus with rare and frequent words, and test sentences."""
	vocab = draw(st.lists(WORD, min_size=draw(st.sampled_from((1, 5, 8))),
			max_size=12, unique=True))
	tags = draw(st.lists(st.sampled_from(TAGS), max_size=5, unique=True,
			min_size=draw(st.sampled_from((1, 3)))))
	entry = st.tuples(st.sampled_from(vocab), st.sampled_from(tags))
	if draw(st.booleans()):  # (word, tag) pairs not independent
		entry = st.sampled_from(draw(st.lists(entry, min_size=1, max_size=12)))
	train = draw(st.lists(st.lists(entry, max_size=maxlen,
			min_size=draw(st.sampled_from((1, 3)))), max_size=maxsents,
			min_size=draw(st.sampled_from((1, 4)))))
	w = st.one_of(st.sampled_from(vocab), WORD,
			st.sampled_from(vocab).map(str.upper),
			st.sampled_from(vocab).map(str.capitalize))
	test = draw(st.lists(st.lists(w, min_size=1, max_size=maxlen),
			min_size=1, max_size=3))
	return (train, test, draw(st.sampled_from(MODELS)),
			draw(st.integers(1, 3)), draw(st.sampled_from(
				(0, 1, 2, 2, 3, 3, 4, 4, 5, 6))))


# --- reference ----------------------------------------------------------------

LOWER = set('abcdefghijklmnopqrstuvwxyz\xe7\xe9\xe0\xec\xf9\xe2\xea\xee\xf4'
		'\xfb\xeb\xef\xfc\xff\u0153\xe6')
UPPER = {a.upper() for a in LOWER}


def sig4(word, n, _known):
	low = any(a in LOWER for a in word)
	if word[0] in UPPER:
		sig = '-AC' if not low else '-SC' if n == 0 else '-C'
	elif low:
		sig = '-L'
	else:
		sig = '-U' if any(a in UPPER for a in word) else '-S'
	digits = [a in DIGITS for a in word]
	if any(digits):
		sig += '-N' if all(digits) else '-n'
	for a, b in ('-H', '.P', ',C'):
		if a in word:
			sig += '-' + b
	if len(word) > 3 and word[-1] in LOWER | UPPER:
		sig += '-' + word[-2:].lower()
	return '_UNK' + sig


def sigbase(word, _n, _known):
	sig = '-C' if word[0] in UPPER else '-c'
	digits = [a in DIGITS for a in word]
	if any(digits):
		sig += '-N' if all(digits) else '-n'
	if '-' in word:
		sig += '-H'
	sig += {'.': '-P', ',': '-C'}.get(word, '')
	if len(word) > 3 and word[-1] in LOWER | UPPER:
		sig += '-' + word[-2:].lower()
	return '_UNK' + sig


def sig6(word, n, known):
	caps = sum(a in UPPER for a in word)
	num = any(a in DIGITS for a in word)
	dash = any(a in '-\u2010\u2011' for a in word)
	lower = word.lower()
	sig = ''
	if caps > 1:
		sig = '-CAPS'
	elif caps == 1 and n > 0:
		sig = '-CAP'
	elif caps == 1:
		sig = '-INITC' + ('-KNOWNLC' if lower in known else '')
	elif any(a in LOWER for a in word):
		sig = '-LC'
	sig += '-NUM' * num + '-DASH' * dash
	if len(word) >= 3 and lower[-1] == 's':
		if lower[-2] not in 'siu':
			sig += '-s'
	elif len(word) >= 5 and not dash and not (num and caps):
		for suffix in 'ed ing ion er est ly ity y al'.split():
			if lower[-len(suffix):] == suffix:
				return '_UNK' + sig + '-' + suffix
	return '_UNK' + sig


SIGS = {'4': sig4, 'base': sigbase, '6': sig6}


class Model:
	"""Reference statistics."""
	def __init__(self, train, unkthr, openthr, sigfun):
		self.words = Counter(a for sent in train for a, _ in sent)
		self.tags = Counter(b for sent in train for _, b in sent)
		self.wordtags = Counter(a for sent in train for a in sent)
		types, coll = defaultdict(set), defaultdict(set)
		for word, tag in self.wordtags:
			types[tag].add(word)
			coll[basetag(tag)].add(word.lower())
		self.closed = set()
		self.opentags = set()
		for tag in types:
			if openthr and len(coll[basetag(tag)]) < openthr:
				self.closed |= types[tag]
			else:
				self.opentags.add(tag)
		if not openthr:
			self.opentags = set()
		self.lexicon = self.closed | {a for a, b in self.words.items()
				if b > unkthr}
		self.train, self.sigs = [], Counter()
		for sent in train:
			new = []
			for n, (word, _) in enumerate(sent):
				if isnum(word):
					new.append(isnum(word))
				elif word in self.lexicon:
					new.append(word)
				else:
					new.append(sigfun(word, n, self.lexicon))
				if isnum(word) or word not in self.lexicon:
					self.sigs[new[-1]] += 1
			self.train.append(new)


# --- properties ---------------------------------------------------------------

@prop(corpora(), 1000, rule='some word is rare and some is not; or some '
		'tags are open and others are closed')
def model(arg):
	"""Unknown word statistics agree with their definition."""
	from discodop import lexicon
	train, _test, name, unkthr, openthr = arg
	func = lexicon.UNKNOWNWORDFUNC[name]
	(sigs, words, lex, closed, tags, wordtags
			), _msg = lexicon.getunknownwordmodel(
			train, func, unkthr, openthr)
	ref = Model(train, unkthr, openthr, func)
	same(dict(words), dict(ref.words), 'word counts')
	same(dict(tags), dict(ref.tags), 'tag counts')
	same(dict(wordtags), dict(ref.wordtags), 'word tag counts')
	same(sorted(closed), sorted(ref.closed), 'closed class words')
	same(sorted(lex), sorted(ref.lexicon), 'words that are not replaced')
	same(lexicon.replaceraretrainwords(train, func, lex), ref.train,
			'training sentences')
	# every signature in the list occurs, and vice versa.
	occur = {a for sent in ref.train for a in sent}
	for sig in sigs:
		check(sig in occur, 'signature %r does not occur', sig)
	for sig in occur:
		if sig.startswith(lexicon.UNK) and sig not in ref.words:
			check(sig in sigs, 'signature %r is not counted', sig)
			same(sigs[sig], ref.sigs[sig], 'count of %r', sig)
	result = []
	if ref.lexicon and len(ref.lexicon) < len(ref.words):
		result.append('mixed')
	if 0 < len(ref.opentags) < len(ref.tags):
		result.append('openclosed')
	if not openthr:
		result.append('disabled')
	if any(isnum(a) for a in ref.words):
		result.append('numbers')
	return result


LETTERS = ''.join(sorted(LOWER | UPPER))
SUFFIXES = ('', '', 'ed', 'ing', 'ion', 'er', 'est', 'ly', 'ity', 'y', 'al',
		's', 'ss', 'is', 'us', 'ts', 'ALS', 'Ly')


@prop(st.tuples(
		st.tuples(st.one_of(st.text('abzABZ019-.,', min_size=1, max_size=5),
			st.text(LETTERS + DIGITS + "-.,%'\u2010", min_size=1, max_size=7),
			WORD), st.sampled_from(SUFFIXES)).map(''.join),
		st.integers(0, 2), st.booleans()), 2500,
		rule='the word has more than one character')
def signatures(arg):
	"""Word signatures agree with the specification of the models."""
	from discodop import lexicon
	word, n, known = arg
	lex = {word.lower()} if known else set()
	for name, func in sorted(lexicon.UNKNOWNWORDFUNC.items()):
		got = func(word, n, lex)
		check(got.startswith('_UNK') and not re.search(r'\s', got),
				'not a signature: %r', got)
		if name in SIGS:
			same(got, SIGS[name](word, n, lex), 'model %s', name)
	if len(word) == 1:
		return ()
	return ['first' if n == 0 else 'other', '%d' % min(len(word), 6)]


@prop(corpora(), 1000, rule='some test word is not part of the training set')
def replace(arg):
	"""Test words are replaced only when needed, and are then covered."""
	from discodop import lexicon
	train, test, name, unkthr, openthr = arg
	func = lexicon.UNKNOWNWORDFUNC[name]
	lexmodel, _msg = lexicon.getunknownwordmodel(
			train, func, unkthr, openthr)
	ref = Model(train, unkthr, openthr, func)
	sents = lexicon.replaceraretrainwords(train, func, lexmodel[2])
	rules = Counter(((tag, 'Epsilon'), (word, ))
			for sent, new in zip(train, sents)
			for (_, tag), word in zip(sent, new))
	extra = lexicon.simplesmoothlexicon(lexmodel)
	want = {((tag, 'Epsilon'), ('_UNK', )): 0.01 for tag in ref.tags}
	for (word, tag), freq in ref.wordtags.items():
		if word not in ref.lexicon:
			want[(tag, 'Epsilon'), (word.replace('(', '#LRB#'), )] = freq
	same(extra, want, 'extra lexical rules')
	for rule, freq in extra.items():
		rules[rule] += freq
	known = {a.replace('#LRB#', '(') for _, (a, ) in rules}
	lists = [(lexmodel[1], lexmodel[0]),  # as in a newly extracted grammar
			({a for a in known if not a.startswith('_UNK')},  # from a file
			{a for a in known if a.startswith('_UNK')})]
	result = []
	for sent in test + [[a for a, _ in sent] for sent in train]:
		for lex, sigs in lists:
			got = list(lexicon.replaceraretestwords(sent, func, lex, sigs))
			same(len(got), len(sent), 'length of sentence')
			for n, (a, b) in enumerate(zip(sent, got)):
				check(b in known, 'replacement %r of %r does not occur in '
						'grammar', b, a)
				num = [x for x in ((isnum(a), '000') if isnum(a) else ())
						if x in ref.sigs]
				if num:  # NB: years may be replaced by a number
					same(b, num[0], 'replacement of %r', a)
					continue
				if a in ref.words:
					same(b, a, 'replacement of known word')
				elif a.lower() in ref.words:
					same(b, a.lower(), 'replacement of word known in lowercase')
					result.append('lower')
				else:
					sig = func(a, n, lex)
					same(b, sig if sig in sigs else '_UNK',
							'replacement of unknown word %r', a)
					result.append('sig' if sig in sigs else 'unk')
	return result


def tagsof(spec):
	"""Sequence of POS tags."""
	return [a for _, a in sorted((x[1][0], x[0]) for x in nodesof(spec)
			if ispre(x))]


@st.composite
def parsecases(draw):
	"""Treebank and test sentences."""
	disc = draw(st.booleans())
	items = []
	vocab = draw(st.lists(st.one_of(WORD, st.text('abc', min_size=1,
			max_size=3)), min_size=2, max_size=8, unique=True))
	closed = draw(st.lists(st.sampled_from('the a of it'.split()), min_size=1,
			max_size=2, unique=True))
	for _ in range(draw(st.integers(1, 4))):
		spec = canonspec(draw(specs(minleaves=2, maxleaves=6, maxarity=2,
				root='ROOT', disc=disc, phrasal=('A', 'B'),
				pos=('X', 'Y', 'Y', 'Z'))))
		tags = tagsof(spec)
		items.append((spec, [draw(st.sampled_from(vocab if a != 'Z'
				else closed)) for a in tags]))
	sent = list(draw(st.sampled_from(items))[1])
	for n in range(len(sent)):
		if biased(draw, 2, 1):
			sent[n] = draw(st.one_of(st.sampled_from(vocab),
					st.sampled_from(vocab).map(str.upper), WORD))
	tags = None
	if biased(draw, 3, 1):
		tags = [draw(st.sampled_from((None, 'X', 'Y', 'Z'))) for _ in sent]
	return (items, sent, tags, draw(st.sampled_from(MODELS)),
			draw(st.integers(1, 2)), draw(st.sampled_from((0, 1, 2, 2, 2, 3,
				3, 4))))


def close2(a, b):
	return close(a, b, 1e-4)


@prop(parsecases(), 1000, rule='a sentence with an unknown or open class word '
		'is recognized')
def parsing(arg):
	"""A parser with an unknown word model covers all words, and considers
	all known tags, plus tags of similar words for open class words."""
	from discodop import lexicon, pcfg, plcfrs
	from discodop.containers import Grammar
	from discodop.grammar import treebankgrammar
	from discodop.parser import DictObj
	from discodop.tree import Tree
	from discodop.treetransforms import addfanoutmarkers
	items, sent, tags, name, unkthr, openthr = arg
	func = lexicon.UNKNOWNWORDFUNC[name]

	train = [list(zip(words, tagsof(spec))) for spec, words in items]
	lexmodel, _msg = lexicon.getunknownwordmodel(train, func, unkthr, openthr)
	sents = lexicon.replaceraretrainwords(train, func, lexmodel[2])
	extra = lexicon.simplesmoothlexicon(lexmodel)
	ref = Model(train, unkthr, openthr, func)
	# reference grammar
	g = lcfrs.extract([(spec, b) for (spec, _), b in zip(items, ref.train)])
	lex = {(tag, word): w for tag, word, w in g['lex']}
	for (word, tag), freq in ref.wordtags.items():
		if word not in ref.lexicon:
			lex[tag, word] = lex.get((tag, word), 0) + freq
	for tag in ref.tags:
		lex[tag, '_UNK'] = lex.get((tag, '_UNK'), 0) + 0.01
	g['lex'] = [(a, b, w) for (a, b), w in sorted(lex.items())]
	grammar = Grammar(treebankgrammar([addfanoutmarkers(mk(a, Tree))
			for a, _ in items], sents,
			extrarules=extra), start='ROOT')
	postagging = DictObj(method='unknownword', model=name,
			unknownwordfun=func, lexicon=lexmodel[1], sigs=lexmodel[0],
			closedclasswords=lexmodel[3])
	new = list(lexicon.replaceraretestwords(sent, func, lexmodel[1],
			lexmodel[0]))
	mass = lcfrs.masses(g)
	lexitems, result = [], []
	for n, word in enumerate(new):
		tag = tags[n] if tags else None
		known = {t: w / mass[t] for (t, a), w in lex.items() if a == word}
		check(known, 'no tags for %r (word %r)', word, sent[n])
		if tag:
			cands = {tag: known[tag]} if tag in known else {tag: 1}
			if tag not in mass:
				cands = {}
		elif ref.closed and word not in ref.closed and word[:4] != '_UNK':
			sig = func(word, n, lexmodel[1])
			cands = {t: w / mass[t] * 0.001 for (t, a), w in lex.items()
					if a == sig}
			if any(t not in known for t in cands):
				result.append('open')
			cands.update((t, p * 0.999) for t, p in known.items())
		else:
			if word[:4] == '_UNK':
				result.append('unknown')
			cands = known
		lexitems.append(sorted(cands.items()))
	forest = Forest(g, new, lexitems=lexitems)
	for parser in [plcfrs] + [pcfg] * lcfrs.iscfg(g):
		chart, msg = parser.parse(new, grammar, tags=tags,
				postagging=postagging)
		same(bool(chart), forest.parsed(), 'parse success: %s', msg)
		if tags is None:
			check('not in lexicon' not in msg, '%s', msg)
		if not forest.recognized:
			continue
		got = {k: v for k, v in readchart(chart, len(new)).items() if v[1]}
		same(sorted(got), sorted(forest.edges), 'items in chart')
		best = forest.viterbi()
		for item in forest.edges:
			check(close2(got[item][0], best[item]), '%s: probability of %r: '
					'got %g expected %g', parser.__name__, item, got[item][0],
					best[item])
	return result if forest.recognized else ()

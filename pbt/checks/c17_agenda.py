"""Priority queue, ordered set, and merging of sorted sequences."""
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.util import PyAgenda, OrderedSet, merge

NEED = ('bit', )
ASSUMPTIONS = ['order among equal values is only required when existing keys '
		'were not updated']

key = st.integers(0, 8)
val = st.integers(0, 5)
OPS = st.one_of(
		st.tuples(st.just('set'), key, val), st.tuples(st.just('set'), key, val),
		st.tuples(st.just('set'), key, val),
		st.tuples(st.sampled_from(['del', 'pop', 'get']), key, val),
		st.tuples(st.sampled_from(['popitem', 'popitem', 'peekitem', 'popnone',
			'clear']), key, val),
		st.tuples(st.just('update'), st.lists(st.tuples(key, val),
			max_size=4), val))


@prop(st.tuples(st.lists(st.tuples(key, val), max_size=8),
		st.lists(OPS, max_size=25), st.booleans()), quick=6000,
		rule='at least two items popped, and an update or removal')
def agenda(arg):
	"""After any sequence of operations, the agenda has the contents of a
	dictionary, and always yields an item with the lowest value."""
	init, ops, finish = arg
	a = PyAgenda(iter(init)) if init else PyAgenda()
	model = {}
	updated = False
	for k, v in init:
		if k not in model or v < model[k]:
			model[k] = v
	kinds = set()
	pops = 0

	def best(item, what):
		k, v = item
		check(k in model, '%s: %r is not on the agenda', what, item)
		same(v, model[k], '%s: value' % what)
		same(v, min(model.values()), '%s: best value' % what)
		if not updated:
			same(k, min((b, n, x) for n, (x, b) in
					enumerate(model.items()))[2], '%s: insertion order' % what)

	def state():
		same(len(a), len(model), 'length')
		same(bool(a), bool(model), 'truth value')
		same(dict(a.items()), model, 'items')
		same(list(a.keys()), list(model), 'keys')
		same(list(a.values()), list(model.values()), 'values')
		same(sorted(a), sorted(model), 'iteration')
		same(sorted(repr(a)[len('PyAgenda({'):-2].split(', ')),
				sorted('%r: %r' % b for b in model.items()) or [''], 'repr')
		for k in range(9):
			same(k in a, k in model, 'contains')
	state()
	for name, k, v in ops:
		if name == 'set':
			if k in model:
				updated = True
				kinds.add('changed')
			a[k] = v
			model[k] = v
		elif name == 'update':
			updated = updated or any(b in model for b, _ in k) or len(
					{b for b, _ in k}) < len(k)
			if v == 0:
				a.update(k[:2], k[2:])
			elif v == 1:
				a.update(iter(k))
			else:
				a.update(k)
			model.update(k)
		elif name in ('del', 'pop', 'get'):
			func = dict([('del', a.__delitem__), ('pop', a.pop),
					('get', a.__getitem__)])[name]
			if k not in model:
				raises(KeyError, func, k)
				continue
			if name == 'del':
				del a[k]
				del model[k]
			elif name == 'pop':
				same(a.pop(k), model.pop(k), 'pop()')
			else:
				same(a[k], model[k], 'value')
			kinds.add('removed')
		elif name in ('popitem', 'peekitem', 'popnone'):
			if not model:
				raises(IndexError, dict(popitem=a.popitem,
						peekitem=a.peekitem,
						popnone=lambda: a.pop(None))[name])
				continue
			if name == 'popnone':
				x = a.pop(None)
				same(x, min(model.values()), 'pop(None)')
				gone = set(model) - set(a.keys())
				same(len(gone), 1, 'number of items removed')
				same(model.pop(gone.pop()), x, 'value of item')
			else:
				x = getattr(a, name)()
				best(x, name)
				if name == 'popitem':
					pops += 1
					del model[x[0]]
		elif name == 'clear':
			a.clear()
			model.clear()
			updated = False
		state()
	if finish:
		while model:
			x = a.peekitem()
			best(x, 'peekitem')
			y = a.popitem()
			best(y, 'popitem')
			same(y, x, 'popitem after peekitem')
			del model[y[0]]
			state()
			pops += 1
		raises(IndexError, a.popitem)
		raises(IndexError, a.peekitem)
	return pops > 1 and kinds


elems = st.lists(st.integers(0, 6), max_size=8)


@prop(st.tuples(elems, elems), quick=1500, rule='sets overlap, with duplicates')
def orderedset(arg):
	"""An OrderedSet has the elements of a set, in order of first occurrence;
	operations give the results of set operations in order."""
	x, y = arg
	a, b = OrderedSet(x), OrderedSet(iter(y))
	uniq = list(dict.fromkeys(x))
	same(list(a), uniq, 'iteration')
	same(len(a), len(uniq), 'length')
	same([a[n] for n in range(len(a))], uniq, 'indexing')
	same(list(reversed(a)), uniq[::-1], 'reversed')
	for n in range(7):
		same(n in a, n in x, 'contains')
	same(a == b, set(x) == set(y), 'equality')
	if a == b:
		same(hash(a), hash(b), 'hash')
	same(list(a & b), [n for n in uniq if n in y], 'intersection')
	same(list(a | b), list(dict.fromkeys(x + y)), 'union')
	same(list(a - b), [n for n in uniq if n not in y], 'difference')
	same(a <= b, set(x) <= set(y), 'subset')
	same(a.isdisjoint(b), not set(x) & set(y), 'disjoint')
	same(set((a & b)), set(x) & set(y), 'as set')
	check(isinstance(a & b, OrderedSet), 'type')
	return bool(set(x) & set(y)) and len(uniq) < len(x)


@prop(st.tuples(st.lists(st.lists(st.integers(0, 9), max_size=7), max_size=5),
		st.booleans()), quick=1500, rule='at least two non-empty sequences')
def merging(arg):
	"""Merging sorted iterables gives all items sorted; items with the same key
	are in order of the iterables."""
	seqs, reverse = arg
	keyfun = (lambda x: -x[0]) if reverse else (lambda x: x[0])
	data = [sorted([(a, n, i) for i, a in enumerate(seq)], key=keyfun)
			for n, seq in enumerate(seqs)]
	want = sorted((a for b in data for a in b), key=keyfun)
	same(list(merge(*map(iter, data), key=keyfun)), want, 'merged')
	plain = [sorted(seq) for seq in seqs]
	same(list(merge(*plain)), sorted(a for b in plain for a in b),
			'without key')
	return sum(1 for a in seqs if a) > 1

"""Mutable trees: structure and parent pointers after any edit sequence."""
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, ImmutableParentedTree
import gens

NEED = ('bit', )
ASSUMPTIONS = ['a node is never inserted below itself (would be a cycle)']

OPS = ('append', 'extend', 'insert', 'pop', 'popdefault', 'remove', 'delint',
		'delslice', 'setint', 'setslice', 'delpos', 'setpos', 'detach',
		'disown', 'spliceabove', 'splicebelow', 'prune', 'new', 'badtype',
		'dup', 'stepslice', 'frozen', 'twin', 'twin')
LABELS = ('A', 'B', 'C')
small = st.integers(-7, 7)
pick = st.integers(0, 40)


class M:
	"""Model node."""
	def __init__(self, label, children=()):
		self.label = label
		self.children = list(children)
		self.parent = None
		for a in self.children:
			if isinstance(a, M):
				a.parent = self


class Machine:
	def __init__(self, spec):
		self.roots = []
		self.real = {}  # id(model) => real
		self.keep = []
		real = gens.mk(spec, ParentedTree)
		self.roots.append(self.adopt(real))

	def adopt(self, real):
		if not isinstance(real, Tree):
			return real
		m = M(real.label, [self.adopt(a) for a in real])
		self.reg(m, real)
		return m

	def reg(self, m, real):
		self.real[id(m)] = real
		self.keep.append((m, real))

	def r(self, m):
		return self.real[id(m)] if isinstance(m, M) else m

	def nodes(self):
		result = []

		def visit(m):
			if isinstance(m, M):
				result.append(m)
				for a in m.children:
					visit(a)
		for a in self.roots:
			visit(a)
		return result

	def rootof(self, m):
		while m.parent is not None:
			m = m.parent
		return m

	def detached(self, m):
		self.roots.append(m)

	def invariant(self):
		for root in self.roots:
			self.inv(root, root, ())
			check(self.r(root).parent is None, 'root has a parent')
			same(self.r(root).parent_index, None, 'parent_index of root')
			same(self.r(root).left_sibling, None, 'left sibling of root')
			same(self.r(root).right_sibling, None, 'right sibling of root')

	def inv(self, m, root, pos):
		real = self.r(m)
		same(real.label, m.label, 'label')
		same(len(real), len(m.children), 'number of children')
		check(real.root is self.r(root), 'root is wrong')
		same(real.treeposition, pos, 'treeposition')
		check(self.r(root)[pos] is real, 'root[treeposition] is not self')
		for n, (a, b) in enumerate(zip(m.children, real)):
			if not isinstance(a, M):
				check(not isinstance(b, Tree) and a == b,
						'leaf %r instead of %r', b, a)
				continue
			check(self.r(a) is b, 'wrong child %d of %s: %s, should be %s',
					n, real, b, self.r(a))
			check(b.parent is real, 'wrong parent pointer for %s', b)
			same(b.parent_index, n, 'parent_index')
			ls = m.children[n - 1] if n else None
			rs = m.children[n + 1] if n + 1 < len(m.children) else None
			for x, y in ((ls, b.left_sibling), (rs, b.right_sibling)):
				check(self.r(x) is y if isinstance(x, M)
						else (x is None) == (y is None) and x == y,
						'sibling is %s, should be %s', y, self.r(x))
			self.inv(a, root, pos + (n, ))


def step(s, op):
	"""Apply a single operation to real object and model."""
	name, a, b, c, d = op
	nodes = s.nodes()
	m = nodes[a % len(nodes)]
	real = s.r(m)
	ch = m.children
	root = s.rootof(m)

	def free(k):
		"""Get an object that may or may not be insertable at m."""
		cand = [x for x in s.roots if x is not root]
		if k % 4 == 0:
			return abs(k), None  # a leaf
		elif k % 4 in (1, 2) and cand:
			return cand[k % len(cand)], None
		elif k % 4 == 3 and k % 8 != 3:
			inner = [x for x in nodes if x.parent is not None]
			if inner:  # a node that already has a parent
				return inner[k % len(inner)], ValueError
		new = ParentedTree(LABELS[k % 3], [])
		x = M(new.label)
		s.reg(x, new)
		s.roots.append(x)
		return x, None

	def take(x):
		if isinstance(x, M):
			for n, y in enumerate(s.roots):
				if y is x:
					del s.roots[n]
					break
			x.parent = m

	def release(x):
		if isinstance(x, M):
			x.parent = None
			s.roots.append(x)

	if name in ('append', 'insert'):
		x, exc = free(c)
		func, args = ((real.append, (s.r(x), )) if name == 'append' else
				(real.insert, (b, s.r(x))))
		if exc:
			raises(exc, func, *args)
			return 'error'
		func(*args)
		take(x)
		if name == 'append':
			ch.append(x)
		else:
			ch.insert(b, x)
	elif name == 'extend':
		xs = []
		for k in (c, d):
			x, exc = free(k)
			if exc is None and not any(x is y for y in xs):
				xs.append(x)
		real.extend(iter([s.r(x) for x in xs]) if a % 2
				else [s.r(x) for x in xs])
		for x in xs:
			take(x)
		ch.extend(xs)
	elif name in ('pop', 'popdefault', 'delint', 'delpos'):
		if ch and c % 8:  # mostly in range
			b = b % (2 * len(ch)) - len(ch)
		idx = -1 if name == 'popdefault' else b
		if not -len(ch) <= idx < len(ch):
			raises(IndexError, dict(
					pop=lambda: real.pop(idx), popdefault=lambda: real.pop(),
					delint=lambda: real.__delitem__(idx),
					delpos=lambda: real.__delitem__((idx, )))[name])
			return 'error'
		x = ch.pop(idx)
		if name == 'pop':
			check(real.pop(idx) is s.r(x), 'pop(%d) result', idx)
		elif name == 'popdefault':
			check(real.pop() is s.r(x), 'pop() result')
		elif name == 'delint':
			del real[idx]
		else:
			del s.r(root)[real.treeposition + (idx, )]
		release(x)
	elif name == 'remove':
		if not ch:
			raises(ValueError, real.remove, 99)
			return 'error'
		x = s.r(ch[b % len(ch)])
		idx = [n for n, y in enumerate(ch) if s.r(y) == x][0]
		real.remove(x.copy(True) if isinstance(x, Tree) and c % 2 else x)
		release(ch.pop(idx))
	elif name == 'twin':
		# add an equal sibling; remove() goes by equality, so the first goes
		if not ch:
			return None
		x = ch[b % len(ch)]
		if isinstance(x, M):
			y = s.adopt(s.r(x).copy(True))
		else:
			y = x
		idx = c % (len(ch) + 1)
		real.insert(idx, s.r(y))
		ch.insert(idx, y)
		if isinstance(y, M):
			y.parent = m
		if d % 3:
			s.invariant()
			z = s.r((x, y)[d % 2])
			if d % 5 == 0 and isinstance(z, Tree):
				z = z.copy(True)
			idx = [n for n, a in enumerate(ch) if s.r(a) == z][0]
			real.remove(z)
			release(ch.pop(idx))
	elif name == 'delslice':
		sl = slice(None if b == 7 else b, None if c == 7 else c)
		old = ch[sl]
		del real[sl]
		del ch[sl]
		for x in old:
			release(x)
	elif name in ('setint', 'setpos'):
		x, exc = free(c)
		if ch and d % 8:  # mostly in range
			b = b % (2 * len(ch)) - len(ch)
		if name == 'setint':
			func, args = real.__setitem__, (b, s.r(x))
		else:
			if not -len(ch) <= b < len(ch):
				return None
			func, args = s.r(root).__setitem__, (
					real.treeposition + (b, ), s.r(x))
		if not -len(ch) <= b < len(ch):
			raises(IndexError, func, *args)
			return 'error'
		if exc and s.r(ch[b]) is s.r(x):
			func(*args)  # no-op
			return 'noop'
		if exc:
			raises(exc, func, *args)
			return 'error'
		func(*args)
		release(ch[b])
		take(x)
		ch[b] = x
	elif name in ('setslice', 'stepslice'):
		sl = slice(None if b == 7 else b, None if c == 7 else c)
		xs, exc = [], None
		for k in (d, d // 3)[:d % 3]:
			x, e = free(k)
			if not any(x is y for y in xs if isinstance(x, M)):
				xs.append(x)
				exc = exc or e
		val = [s.r(x) for x in xs]
		if name == 'stepslice':
			if len(range(*slice(b, c, 2).indices(len(ch)))) < 1:
				return None
			raises((ValueError, TypeError), real.__setitem__,
					slice(b, c, 2), val)
			raises((ValueError, TypeError), real.__delitem__, slice(b, c, 2))
			return 'error'
		if exc:
			raises(exc, real.__setitem__, sl, val)
			return 'error'
		real[sl] = iter(val) if a % 2 else val
		old = ch[sl]
		ch[sl] = xs
		for x in old:
			release(x)
		for x in xs:
			take(x)
	elif name == 'detach':
		check(real.detach() is real, 'detach() should return node')
		if m.parent is not None:
			n = [n for n, y in enumerate(m.parent.children) if y is m][0]
			del m.parent.children[n]
			release(m)
	elif name == 'disown':
		result = real.disown()
		same(len(result), len(ch), 'disown()')
		for x, y in zip(ch, result):
			check(s.r(x) is y if isinstance(x, M) else x == y, 'disown()')
			release(x)
		ch[:] = []
	elif name == 'spliceabove':
		if m.parent is None:
			return None
		new = real.spliceabove('X')
		x = M('X')
		s.reg(x, new)
		n = [n for n, y in enumerate(m.parent.children) if y is m][0]
		m.parent.children[n] = x
		x.parent = m.parent
		x.children = [m]
		m.parent = x
	elif name == 'splicebelow':
		new = real.splicebelow('Y')
		x = M('Y', ch)
		s.reg(x, new)
		m.children = [x]
		x.parent = m
	elif name == 'prune':
		if m.parent is None:
			return None
		real.prune()
		p = m.parent
		n = [n for n, y in enumerate(p.children) if y is m][0]
		p.children[n:n + 1] = ch
		for x in ch:
			if isinstance(x, M):
				x.parent = p
		m.children = []
		release(m)
	elif name == 'new':
		xs = []
		for k in (b, c, d):
			x, exc = free(k)
			if exc is None and not any(x is y for y in xs):
				xs.append(x)
		new = ParentedTree('N', iter([s.r(x) for x in xs]) if a % 2
				else [s.r(x) for x in xs])
		x = M('N')
		s.reg(x, new)
		m = x
		for y in xs:
			take(y)
		x.children = xs
		s.roots.append(x)
	elif name == 'badtype':
		for func in (lambda: real.append(Tree('A', [])),
				lambda: real.insert(0, Tree('A', [])),
				lambda: real.extend([Tree('A', [])]),
				lambda: real.__setitem__(slice(0, 1), [Tree('A', [])]),
				lambda: ParentedTree('A', [Tree('A', [])])):
			raises(TypeError, func)
		return 'error'
	elif name == 'dup':
		# the same node as multiple children of the same parent
		x, exc = free(4 * abs(c) + 1)
		if isinstance(x, M) and exc is None:
			xx = s.r(x)
			raises(ValueError, real.__setitem__, slice(b, d), [xx, 3, xx])
			raises(ValueError, ParentedTree, 'A', [xx, xx])
			if ch and isinstance(ch[-1], M):
				# the last one already has a parent; others are not affected
				raises(ValueError, ParentedTree, 'A', [xx, 3, s.r(ch[-1])])
				raises(ValueError, ParentedTree, 'A',
						[ParentedTree('B', []), xx, s.r(ch[-1])])
		return 'error'
	elif name == 'frozen':
		frozen = real.freeze()
		check(isinstance(frozen, ImmutableParentedTree), 'freeze() type')
		same(gens.unmk(frozen), gens.unmk(real), 'freeze()')
		same(gens.unmk(real.copy(True)), gens.unmk(real), 'copy(True)')
		for f, g in zip(frozen.subtrees(), real.subtrees()):
			check(f.root is frozen, 'root of frozen tree')
			check(f is frozen or f.parent[f.parent_index] is f, 'parent')
	else:
		raise ValueError(name)
	return name


@prop(st.tuples(gens.specs(maxleaves=5, preterm=False, unary=True),
		st.lists(st.tuples(st.sampled_from(OPS), pick, small, small,
			st.integers(0, 30)), min_size=3, max_size=20)),
		quick=4000, rule='sequence with at least 3 effective edits')
def edit_sequence(arg):
	"""After any sequence of edits, a ParentedTree has the structure that the
	same edits on plain lists give, and parent/parent_index/siblings/root/
	treeposition are consistent; failed edits leave everything unchanged."""
	spec, ops = arg
	s = Machine(spec)
	s.invariant()
	done = []
	for op in ops:
		before = [str(s.r(x)) for x in s.roots]
		result = step(s, op)
		if result == 'error':
			now = [str(s.r(x)) for x in s.roots]
			same(now[:len(before)], before, 'failed %s modified tree', op[0])
		s.invariant()
		if result:
			done.append(result)
	return done if len(set(done) - {'error', 'noop'}) >= 3 else ()


@prop(st.tuples(gens.specs(maxleaves=6, preterm=False, shuffle=True),
		st.lists(st.tuples(st.sampled_from(('append', 'extend', 'insert',
			'pop', 'remove', 'del', 'delslice', 'set', 'setslice', 'delpos',
			'setpos', 'getpos', 'get', 'getslice')), pick, small, small, st.integers(0, 9)),
			min_size=1, max_size=12)),
		quick=2000, rule='at least 2 operations took effect')
def plain_tree_as_list(arg):
	"""Operations on children of a plain Tree behave as those of a list."""
	spec, ops = arg
	tree = gens.mk(spec, Tree)
	done = 0
	for name, a, b, c, d in ops:
		nodes = list(tree.subtrees())
		positions = [p for p in tree.treepositions()
				if isinstance(tree[p], Tree)]
		node, pos = nodes[a % len(nodes)], positions[a % len(nodes)]
		check(tree[pos] is node, 'treepositions() order != subtrees() order')
		ref = list(node)
		val = Tree('N', [d]) if d % 2 else d

		def both(real, model):
			try:
				x = model()
			except (IndexError, ValueError) as err:
				raises(type(err), real)
				return None
			y = real()
			check(x is y or x == y, '%s: result %r instead of %r', name, y, x)
			return True
		ok = both(*dict(
			append=lambda: (lambda: node.append(val),
				lambda: ref.append(val)),
			extend=lambda: (lambda: node.extend(iter([val, d])),
				lambda: ref.extend(iter([val, d]))),
			insert=lambda: (lambda: node.insert(b, val),
				lambda: ref.insert(b, val)),
			pop=lambda: (lambda: node.pop(b), lambda: ref.pop(b)),
			remove=lambda: (lambda: node.remove(d), lambda: ref.remove(d)),
			delslice=lambda: (lambda: node.__delitem__(slice(b, c)),
				lambda: ref.__delitem__(slice(b, c))),
			set=lambda: (lambda: node.__setitem__(b, val),
				lambda: ref.__setitem__(b, val)),
			setslice=lambda: (
				lambda: node.__setitem__(slice(b, c), [val, d]),
				lambda: ref.__setitem__(slice(b, c), [val, d])),
			getpos=lambda: (lambda: tree[pos + (b, )], lambda: ref[b]),
			get=lambda: (lambda: node[b], lambda: ref[b]),
			getslice=lambda: (lambda: node[b:c:d or None],
				lambda: ref[b:c:d or None]),
			delpos=lambda: (lambda: tree.__delitem__(pos + (b, )),
				lambda: ref.__delitem__(b)),
			setpos=lambda: (lambda: tree.__setitem__(pos + (b, ), val),
				lambda: ref.__setitem__(b, val)),
			**{'del': lambda: (lambda: node.__delitem__(b),
				lambda: ref.__delitem__(b))})[name]())
		same(list(node), ref, 'children after %s', name)
		same(len(node), len(ref), 'len()')
		same(bool(node), bool(ref), 'truth value')
		if ref and not any(isinstance(x, Tree) for x in ref):
			same(node.index(ref[-1]), ref.index(ref[-1]), 'index()')
		done += bool(ok)
	raises(IndexError, tree.__setitem__, (), 1)
	raises(IndexError, tree.__delitem__, ())
	for func in (lambda: tree + tree, lambda: tree * 2, lambda: 2 * tree):
		raises(TypeError, func)
	return done >= 2

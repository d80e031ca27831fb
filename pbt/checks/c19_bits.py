"""Bit sets of arbitrary size."""
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.bit import fanout, bitcount, pyintbitcount, pyintnextset
from discodop import bitwrap
from discodop.bit import test as selftest

NEED = ('bit', 'bitwrap')
ASSUMPTIONS = ['positions are non-negative']

EDGE = sorted({a + b for a in (1 << 31, 1 << 32, 1 << 62, 1 << 63, 1 << 64,
		1 << 65, 1 << 127, 1 << 128, 1 << 129) for b in (-2, -1, 0, 1)})


@st.composite
def ints(draw, bits=200):
	"""Sparse, dense, and edge cases; runs of bits."""
	kind = draw(st.integers(0, 3))
	if kind == 0:
		result = draw(st.sampled_from(EDGE))
	elif kind == 1:
		result = draw(st.integers(0, (1 << bits) - 1))
	elif kind == 2:
		result = sum(1 << a for a in draw(st.sets(
				st.integers(0, bits - 1), max_size=6)))
	else:
		result = 0
		for _ in range(draw(st.integers(1, 4))):
			a, b = draw(st.integers(0, bits - 1)), draw(st.integers(1, 70))
			result |= ((1 << b) - 1) << a
	if draw(st.integers(0, 7)) == 0:
		result = ~result
	return result & ((1 << bits) - 1)


pos = st.integers(0, 70) | st.sampled_from([31, 32, 62, 63, 64, 65, 127, 128])


def bits(a):
	return [n for n in range(a.bit_length()) if (a >> n) & 1]


def first(seq, default):
	return min(seq, default=default)


@prop(st.tuples(ints(), st.integers(0, 210)), quick=6000,
		rule='does not fit in 64 bits')
def python_integers(arg):
	"""fan-out, bit count, and next set bit for integers of any size."""
	a, p = arg
	x = bits(a)
	same(fanout(a), sum(1 for n in x if n + 1 not in x), 'fanout(%d)', a)
	same(pyintbitcount(a), len(x), 'pyintbitcount(%d)', a)
	same(pyintnextset(a, p), first((n for n in x if n >= p), -1),
			'pyintnextset(%d, %d)', a, p)
	b = a & ((1 << 64) - 1)
	same(bitcount(b), len(bits(b)), 'bitcount(%d)', b)
	return a >= 1 << 64


@prop(st.tuples(ints(64), st.integers(0, 63)), quick=5000,
		rule='has a highest or lowest bit')
def single(arg):
	"""Operations on single words."""
	a, p = arg
	x = bits(a)
	same(bitwrap.single(a, p), dict(testbit=p in x,
			nextset=first((n for n in x if n >= p), -1),
			nextunset=first((n for n in range(p, 64) if n not in x), 64),
			bitlength=a.bit_length()), '%d, %d', a, p)
	same([bool(n) for n in bitwrap.small(a, p)],
			[p % 8 in x, p % 16 in x, p % 32 in x], 'small %d, %d', a, p)
	return bool(a >> 63 or a & 1)


@prop(st.tuples(ints(256), st.integers(1, 4), st.integers(0, 260)),
		quick=6000, rule='more than one word')
def arrays(arg):
	"""Operations on arrays."""
	a, slots, p = arg
	size = 64 * slots
	a &= (1 << size) - 1
	x = set(bits(a))
	got = bitwrap.array(a, p, slots)
	want = dict(abitcount=len(x), abitlength=a.bit_length(),
			anextset=first((n for n in x if n >= p), -1),
			anextunset=first((n for n in range(p, size) if n not in x),
				max(size, p // 64 * 64)),
			testbit=p in x if p < size else None,
			setbits=sorted(x),
			unsetbits=[n for n in range(size) if n not in x],
			unchanged=a)
	if p < size:
		want['set'] = a | 1 << p
		want['clear'] = (a | 1 << p) ^ 1 << p
	same(got, want, '%d, pos=%d, slots=%d', a, p, slots)
	return slots > 1 and len(x) > 1


@prop(st.tuples(ints(256), ints(256), st.integers(1, 4), st.booleans()),
		quick=4000, rule='a non-empty proper subset')
def sets(arg):
	"""Set operations."""
	a, b, slots, sub = arg
	mask = (1 << 64 * slots) - 1
	a, b = a & mask, b & mask
	if sub:
		b |= a
	same(bitwrap.sets(a, b, slots), dict(subset=a & b == a, union=a | b,
			intersect=a & b, intersectinplace=a & b, other=b,
			unioninplace=a | b, other2=b), '%d %d', a, b)
	return bool(a and a != b and a & b == a)


@prop(st.just(None), quick=1, rule='always')
def selftests(_arg):
	"""The module's own self-test passes."""
	selftest()
	return True

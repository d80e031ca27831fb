"""Expose inline functions of bit.pxd; compiled into the copy under test."""
from libc.stdint cimport uint8_t, uint16_t, uint32_t, uint64_t
from discodop.bit cimport (testbit, nextset, nextunset, bitlength, abitcount,
		abitlength, anextset, anextunset, iteratesetbits, iterateunsetbits,
		setintersectinplace, setunioninplace, setintersect, setunion, subset)

cdef extern from "macros.h":
	uint64_t TESTBIT(uint64_t a[], int b)
	void CLEARBIT(uint64_t a[], int b)
	void SETBIT(uint64_t a[], int b)

DEF MAX = 8


cdef int load(uint64_t *vec, a, int slots) except -1:
	for n in range(slots):
		vec[n] = (a >> (64 * n)) & 0xFFFFFFFFFFFFFFFF
	for n in range(slots, MAX):  # guard: should never be read or written
		vec[n] = 0xA5A5A5A5A5A5A5A5
	return 0


cdef store(uint64_t *vec, int slots):
	result = 0
	for n in range(slots):
		result |= int(vec[n]) << (64 * n)
	for n in range(slots, MAX):
		assert vec[n] == 0xA5A5A5A5A5A5A5A5, 'written out of bounds'
	return result


def single(a, uint32_t pos):
	cdef uint64_t vec = a
	return dict(testbit=testbit(vec, pos), nextset=nextset(vec, pos),
			nextunset=nextunset(vec, pos), bitlength=bitlength(vec))


def small(a, uint32_t pos):
	cdef uint8_t a8 = a & 0xFF
	cdef uint16_t a16 = a & 0xFFFF
	cdef uint32_t a32 = a & 0xFFFFFFFF
	return [testbit(a8, pos % 8), testbit(a16, pos % 16),
			testbit(a32, pos % 32)]


def array(a, int pos, int slots):
	cdef uint64_t vec[MAX]
	cdef uint64_t cur
	cdef int idx, x
	load(vec, a, slots)
	result = dict(abitcount=abitcount(vec, slots),
			abitlength=abitlength(vec, slots),
			anextset=anextset(vec, pos, slots),
			anextunset=anextunset(vec, pos, slots),
			testbit=bool(TESTBIT(vec, pos)) if pos < 64 * slots else None)
	items = []
	idx = 0
	cur = vec[0]
	x = iteratesetbits(vec, slots, &cur, &idx)
	while x >= 0 and len(items) < 1000:
		items.append(x)
		x = iteratesetbits(vec, slots, &cur, &idx)
	result['setbits'] = items
	items = []
	idx = 0
	cur = ~vec[0]
	x = iterateunsetbits(vec, slots, &cur, &idx)
	while x >= 0 and len(items) < 1000:
		items.append(x)
		x = iterateunsetbits(vec, slots, &cur, &idx)
	result['unsetbits'] = items
	result['unchanged'] = store(vec, slots)
	if pos < 64 * slots:
		SETBIT(vec, pos)
		result['set'] = store(vec, slots)
		CLEARBIT(vec, pos)
		result['clear'] = store(vec, slots)
	return result


def sets(a, b, int slots):
	cdef uint64_t v1[MAX]
	cdef uint64_t v2[MAX]
	cdef uint64_t dest[MAX]
	load(v1, a, slots)
	load(v2, b, slots)
	load(dest, 0, slots)
	result = dict(subset=subset(v1, v2, slots))
	setunion(dest, v1, v2, slots)
	result['union'] = store(dest, slots)
	setintersect(dest, v1, v2, slots)
	result['intersect'] = store(dest, slots)
	setintersectinplace(v1, v2, slots)
	result['intersectinplace'] = store(v1, slots)
	result['other'] = store(v2, slots)
	load(v1, a, slots)
	setunioninplace(v1, v2, slots)
	result['unioninplace'] = store(v1, slots)
	result['other2'] = store(v2, slots)
	return result

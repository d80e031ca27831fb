"""Tokenization, compressed files, and other utilities."""
import gzip
import os
import re
import shutil
import stat
import subprocess
import sys
import tempfile
from contextlib import contextmanager
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop import util
import grapheme

NEED = ('bit', )
ASSUMPTIONS = ['text in files has no bare carriage returns']
HAVE = [a for a in ('gz', 'zst', 'lz4') if a == 'gz'
		or shutil.which(dict(zst='zstd').get(a, a))]


@contextmanager
def scratch():
	path = tempfile.mkdtemp(prefix='util-', dir='.')
	try:
		yield path
	finally:
		shutil.rmtree(path)


pieces = st.sampled_from(("can't", "cannot", "I'll", "John's", "d'accord",
		"qu'il", "aujourd'hui", "2,500", "e.g.", "U.S.", "(", ")", "--", '"',
		"'", ",", ".", "...", "!", "don't", "Gonna", "'tis", "they've", 'é',
		'naïve', 'well-known', '$', '%', '/', "l'", "\u00a0", ' ', '\n',
		'gimme', "D'ye", "presqu'", 'a', 'b', '1', "'s", "n't"))
text = st.lists(pieces | st.text(max_size=3), max_size=12).map(' '.join) | st.lists(
		pieces, max_size=12).map(''.join) | st.text(max_size=30)


@prop(text, quick=4000, rule='text has more tokens than words')
def tokenization(arg):
	"""Tokenization only inserts or removes whitespace; punctuation at the end
	of a sentence and before whitespace is a separate token."""
	tokens = util.tokenize(arg)
	same(''.join(tokens), ''.join(arg.split()), 'text of tokens')
	check(all(a and not a.isspace() for a in tokens), 'empty token')
	for word in 'apple', 'bread':
		other = ' '.join(re.findall('[a-z]+', arg))
		for punct in '?!;:()"':
			toks = util.tokenize('%s %s%s %s' % (other, word, punct, other))
			check(word in toks and punct in toks, '%s%s is not split: %r',
					word, punct, toks)
		for end in ('.', '!', '?', '."', '.)'):
			toks = util.tokenize('%s %s%s' % (other, word, end))
			same(toks[-len(end) - 1:], [word] + list(end), 'final period')
		for quote in "'", ',':
			toks = util.tokenize('%s %s%s' % (other, word, quote))
			same(toks[-2:], [word, quote], 'at the end of text')
		toks = util.tokenize('%s, 2,500 %s' % (word, other))
		same(toks[:3], [word, ',', '2,500'], 'commas')
	return len(tokens) > len(arg.split())


@prop(st.tuples(text, st.sampled_from(['apple', 'bread', 'idea', 'état'])),
		quick=80, rule='all')
def contractions(arg):
	"""English and French contractions are separated as in PTB and FTB,
	regardless of case and preceding words."""
	other, word = arg
	other = ' '.join(re.findall('[a-z]+', other))
	for a in ("I", "we", "they", "John"):
		for b in ("'ll", "'re", "'ve", "'s", "'m", "'d", "n't"):
			for func in str.lower, str.upper:
				toks = util.tokenize('%s %s %s' % (other, func(a + b),
						word))
				same(toks[-3:], [func(a), func(b), word],
						'English contraction')
	for a, b in (('can', 'not'), ('d', "'ye"), ('gim', 'me'),
			('gon', 'na'), ('got', 'ta'), ('lem', 'me'), ('wan', 'na')):
		for func in str.lower, str.upper, str.title:
			toks = util.tokenize('%s %s %s' % (other, func(a + b), word))
			same(toks[-3:-1], [func(a + b)[:len(a)],
					func(a + b)[len(a):]], 'English contraction')
	for a in ("c", "d", "j", "l", "m", "n", "s", "t", "aujourd", "jusqu",
			"lorsqu", "presqu", "puisqu", "qu", "quelqu", "quoiqu"):
		for func in str.lower, str.upper, str.title:
			toks = util.tokenize("%s %s'%s" % (other, func(a), word))
			same(toks[-2:], [func(a) + "'", word], 'French contraction')
			if len(a) > 1:
				toks = util.tokenize("%s %s' %s" % (other, func(a), word))
				same(toks[-2:], [func(a) + "'", word],
						'French contraction and space')
	return True


@prop(st.tuples(st.text(alphabet='ab\u0301é日👍🏽\u200d👩', max_size=12),
		st.integers(0, 20), st.sampled_from(' .')), quick=1000,
		rule='text is padded')
def centering(arg):
	"""Text is centered by number of graphemes."""
	text_, width, fill = arg
	n = grapheme.length(text_)
	same(util.graphemelength(text_), n, 'length')
	got = util.graphemecenter(text_, width, fill)
	check(text_ in got, 'text')
	if n >= width:
		same(got, text_, 'no padding')
	else:
		left = (width - n) // 2
		same(got, fill * left + text_ + fill * (width - n - left), 'padding')
	return n < width


@prop(st.tuples(st.lists(st.text(alphabet=st.characters(
		exclude_characters='\r\n\x85\u2028\u2029\x0b\x0c\x1c\x1d\x1e',
		exclude_categories=('Cs', )), max_size=20), max_size=8),
		st.sampled_from([''] + ['.' + a for a in HAVE]),
		st.sampled_from(['utf8', 'utf-16', None])), quick=250,
		rule='compressed file')
def files(arg):
	"""Files are read back as written, compressed or not, as text or bytes."""
	lines, ext, enc = arg
	data = '\n'.join(lines)
	raw = data.encode(enc or 'utf8')
	with scratch() as path:
		fname = path + '/x y' + ext
		if ext == '.gz':
			with gzip.open(fname, 'wb') as out:
				out.write(raw)
		elif ext:
			cmd = {'.zst': 'zstd'}.get(ext, ext[1:])
			with util.genericcompressor(cmd, fname, encoding=enc) as out:
				out.write(raw if enc is None else data)
			raw = subprocess.run([cmd, '-dc', fname], check=True,
					capture_output=True).stdout
			same(raw.decode(enc or 'utf8'), data, 'compressed file')
		else:
			with open(fname, 'wb') as out:
				out.write(raw)
		with util.openread(fname, encoding=enc) as inp:
			got = inp.read()
		same(got, raw if enc is None else data, 'read')
		with util.openread(fname, encoding=enc) as inp:
			got = list(inp)
		same([a.rstrip(b'\n' if enc is None else '\n') for a in got],
				[a.encode('utf8') if enc is None else a for a in
				(lines[:-1] if lines and not lines[-1] else lines)], 'lines')
		same(util.readbytes(fname), raw, 'readbytes')
		fd = os.open(fname, os.O_RDONLY)
		if not ext:
			with util.openread(fd, encoding=enc) as inp:
				same(inp.read(), raw if enc is None else data, 'from fd')
		else:
			os.close(fd)
		if ext in ('.zst', '.lz4'):
			with open(fname, 'wb') as out:
				out.write(b'this is not compressed')
			raises(ValueError, util.readbytes, fname)
	raises(OSError, util.readbytes, path + '/nonexistent')
	return [ext] if ext else []


bound = st.none() | st.integers(-9, 9)


@prop(st.tuples(st.integers(0, 6), bound, bound,
		st.sampled_from([None, 1, 2, 3])), quick=1500,
		rule='negative or out of range')
def slices(arg):
	"""slice_bounds selects the same items as the slice."""
	n, start, stop, step = arg
	seq = list(range(n))
	if step in (None, 1):
		a, b, c = util.slice_bounds(seq, slice(start, stop, step))
		same(seq[a:b], seq[start:stop], 'items')
		check(0 <= a <= b <= n and c == 1, 'bounds %r', (a, b, c))
	else:
		raises(ValueError, util.slice_bounds, seq, slice(start, stop, step))
	a, b, c = util.slice_bounds(seq, slice(start, stop, step), allow_step=True)
	same(seq[a:b:c], seq[start:stop:step], 'items with step')
	return any(a is not None and not 0 <= a <= n for a in (start, stop))


@prop(st.tuples(st.lists(st.sampled_from(['none', 'exec', 'plain', 'dir']),
		min_size=1, max_size=4), st.booleans()), quick=150,
		rule='program in later directory')
def searchpath(arg):
	"""which returns the first match in the search path."""
	dirs, exception = arg
	with scratch() as path:
		path = os.path.abspath(path)
		names = []
		for n, a in enumerate(dirs):
			d = '%s/%d' % (path, n)
			names.append(d)
			if a == 'none':
				os.mkdir(d)
			elif a != 'dir':
				os.mkdir(d)
				with open(d + '/prog', 'w'):
					pass
				os.chmod(d + '/prog', 0o755)
		old = os.environ['PATH']
		os.environ['PATH'] = ':'.join([''] + names)
		try:
			want = [n for n, a in enumerate(dirs) if a in ('exec', 'plain')]
			if want:
				same(util.which('prog', exception), names[want[0]] + '/prog',
						'which')
			elif exception:
				raises(ValueError, util.which, 'prog')
			else:
				same(util.which('prog', exception=False), None, 'not found')
		finally:
			os.environ['PATH'] = old
	return bool(want) and want[0] > 0


@prop(st.tuples(st.integers(0, 255), st.text(alphabet='abé \n', max_size=30),
		st.sampled_from([0, 10, 70000])), quick=60, rule='non-zero exit status')
def processes(arg):
	"""run returns the exit status and complete output of a process; worker
	functions pass on results and report the traceback of exceptions."""
	code, out, n = arg
	rc, stdout, stderr = util.run([sys.executable, '-S', '-c',
			'import sys; sys.stdout.buffer.write(sys.stdin.buffer.read());'
			'sys.stderr.write("x" * %d); sys.exit(%d)' % (n, code)],
			stdin=tmp(out))
	same((rc, stdout.decode('utf8'), len(stderr)), (code, out, n), 'run')

	@util.workerfunc
	def func(a, b=0):
		"""doc"""
		return a // b
	same(func(code, b=3), code // 3, 'result of worker')
	same((func.__name__, func.__doc__), ('func', 'doc'), 'wrapped')
	err = raises(Exception, func, code)
	check('ZeroDivisionError' in str(err) and 'a // b' in str(err),
			'traceback: %s', err)
	return code != 0


SCRIPT = """#!%s -S
import sys
data = sys.stdin.buffer.read() if '--decompress' not in sys.argv else (
		open(sys.argv[-1], 'rb').read())
sys.stdout.buffer.write(data)
sys.stdout.buffer.write(' '.join(sys.argv[1:-1]).encode('utf8'))
sys.stderr.write('some message')
sys.exit(%d)
"""


@prop(st.tuples(st.sampled_from([0, 0, 1, 2, 77]), st.text(alphabet='abé \n',
		max_size=30), st.sampled_from(['utf8', None]), st.integers(1, 9)),
		quick=40, rule='the command fails')
def compressors(arg):
	"""Any program with the interface of gzip can be used; its failure is
	reported."""
	code, data, enc, level = arg
	raw = data.encode('utf8')
	with scratch() as path:
		path = os.path.abspath(path)
		with open(path + '/myzip', 'w') as out:
			out.write(SCRIPT % (sys.executable, code))
		os.chmod(path + '/myzip', 0o755)
		old = os.environ['PATH']
		os.environ['PATH'] = path + ':' + old

		def write():
			with util.genericcompressor('myzip', path + '/f.my', encoding=enc,
					compresslevel=level) as out:
				out.write(raw if enc is None else data)

		def read():
			with util.genericdecompressor('myzip', path + '/g.my',
					encoding=enc) as inp:
				return inp.read()

		with open(path + '/g.my', 'wb') as out:
			out.write(raw)
		try:
			if code:
				for func in write, read:
					err = raises(ValueError, func)
					check('myzip' in str(err) and '%d' % code in str(err),
							'message: %s', err)
			else:
				write()
				with open(path + '/f.my', 'rb') as inp:
					got = inp.read()
				check(got.startswith(raw), 'data: %r', got)
				got = read()
				check(got.startswith(raw if enc is None else data),
						'data: %r', got)
		finally:
			os.environ['PATH'] = old
		raises(ValueError, write)
	return code != 0


def tmp(data):
	result = tempfile.TemporaryFile()
	result.write(data.encode('utf8'))
	result.seek(0)
	return result

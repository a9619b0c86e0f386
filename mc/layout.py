"""Fixed-column records of the published universal-file formats: encoder and decoder, independent of pyuff.

A record is a list of fields (key, kind, width[, precision]):
    I  right-justified integer            E  real with an E exponent
    D  real with a D exponent             A  left-justified text
    X  blanks (key is ignored)
A key starting with '=' is a constant.
"""
import math


class BadLayout(Exception):
    """The text does not follow the layout."""


def real(v, width, prec, letter='E', style='1P'):
    """Fortran-like real: 1P gives 1.23456E+00, 0P gives 0.12346E+01."""
    if style == '0P' and v != 0:
        m, e = ('%.*e' % (prec - 1, v)).split('e')
        sign = '-' if m.startswith('-') else ''
        digits = m.lstrip('-').replace('.', '')
        e = int(e) + 1
        s = '%s0.%s%s%s%02d' % (sign, digits, letter, '-' if e < 0 else '+', abs(e))
    else:
        s = ('%.*e' % (prec, v)).replace('e', letter)
    if len(s) > width:
        raise BadLayout('%r does not fit %d columns' % (v, width))
    return s.rjust(width)


class Enc:
    """Freedom an encoder has within the layout."""

    def __init__(self, letter='E', dletter='D', style='1P', pad=False, trim=False, eol='\n', plain=False, full=False, blank=(), plus=False):
        self.letter, self.dletter, self.style, self.pad, self.trim, self.eol = letter, dletter, style, pad, trim, eol
        self.full = full        # E20.12 reals with all twelve digits
        self.blank = blank      # fields of records left blank
        self.plus = plus        # numbers that are not negative with a sign, where a column is left for it and a blank
        self.plain = plain      # delimiters without padding, also of the set number line

    def field(self, kind, width, prec, v):
        if kind == 'I':
            s = '%*d' % (width, int(v))
        elif kind == 'E':
            s = real(float(v), width, prec, self.letter, self.style)
        elif kind == 'D':
            s = real(float(v), width, prec, self.dletter, self.style if prec < 16 else '1P')
        elif kind == 'A':
            s = str(v)[:width].ljust(width)
        elif kind == 'X':
            s = ' ' * width
        if self.plus and kind in 'IED' and s.startswith('  ') and s.lstrip()[0] != '-':
            s = s[:-len(s.lstrip()) - 1] + '+' + s.lstrip()
        if len(s) != width:
            raise BadLayout('%r does not fit %d columns' % (v, width))
        return s

    def record(self, rec, values):
        out = ''
        for f in rec:
            key, kind, width = f[:3]
            prec = f[3] if len(f) > 3 else None
            if kind == 'X' or key in self.blank:
                kind, v = 'X', None
            elif key.startswith('='):
                v = float(key[1:]) if kind in 'ED' else int(key[1:]) if kind == 'I' else key[1:]
            else:
                v = values[key]
            out += self.field(kind, width, prec, v)
        return out

    def items(self, kind, width, prec, values, per_line):
        """Values of one kind, per_line on a line."""
        cells = [self.field(kind, width, prec, v) for v in values]
        return [''.join(cells[i:i + per_line]) for i in range(0, len(cells), per_line)]

    def finish(self, lines):
        if self.pad:
            lines = [s.ljust(80) for s in lines]
        if self.trim:
            lines = [s.rstrip() for s in lines]
        return lines

    def block(self, num, lines, extra=''):
        """A complete set, delimiters included, as text."""
        tag = '    -1'
        head = '%6d' % num + extra
        body = self.finish(lines)
        if self.pad:
            tag, head = tag.ljust(80), head.ljust(80)
        return ''.join(s + self.eol for s in [tag, head] + body + [tag])


def get(line, pos, width, kind):
    s = line[pos:pos + width]
    if kind == 'A':
        return s.strip()
    t = s.strip()
    if t == '':
        raise BadLayout('blank field in columns %d-%d of %r' % (pos + 1, pos + width, line))
    if ' ' in t:
        raise BadLayout('columns %d-%d of %r hold %r' % (pos + 1, pos + width, line, s))
    if len(s) == width and s[-1] == ' ':
        raise BadLayout('columns %d-%d of %r hold %r, not right-justified' % (pos + 1, pos + width, line, s))
    try:
        if kind == 'I':
            return int(t)
        v = float(t.replace('D', 'E').replace('d', 'e'))
        if math.isnan(v) or math.isinf(v):
            raise ValueError
        return v
    except ValueError:
        raise BadLayout('columns %d-%d of %r hold %r' % (pos + 1, pos + width, line, s))


def decode(rec, line, out):
    """Adds the fields of a record to out."""
    pos = 0
    for f in rec:
        key, kind, width = f[:3]
        if kind == 'X':
            pass
        else:
            v = get(line, pos, width, kind)
            if not key.startswith('='):
                out[key] = v
        pos += width
    return out


class Lines:
    """A cursor over the body lines of a set."""

    def __init__(self, lines):
        self.lines, self.i = list(lines), 0

    def next(self):
        if self.i >= len(self.lines):
            raise BadLayout('the set ends before its data')
        self.i += 1
        return self.lines[self.i - 1]

    def record(self, rec, out=None):
        return decode(rec, self.next(), {} if out is None else out)

    def items(self, kind, width, n, per_line):
        out = []
        while len(out) < n:
            line = self.next()
            k = min(per_line, n - len(out))
            for j in range(k):
                out.append(get(line, j * width, width, kind))
        return out

    def more(self):
        return self.i < len(self.lines)

    def end(self):
        if self.more():
            raise BadLayout('data after the end of the set: %r' % self.lines[self.i])


def split_blocks(data):
    """Splits bytes of a file of ASCII sets written by a program following the format: list of (number, header line, lines)."""
    lines = data.decode('utf-8').split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    lines = [s[:-1] if s.endswith('\r') else s for s in lines]
    out, cur = [], None
    for s in lines:
        if s.rstrip() == '    -1':
            if cur is None:
                cur = []
            else:
                out.append(cur)
                cur = None
        elif cur is None:
            raise BadLayout('text between sets: %r' % s)
        else:
            cur.append(s)
    if cur is not None:
        raise BadLayout('a set is not closed')
    res = []
    for block in out:
        if not block:
            raise BadLayout('a set without a number')
        res.append((get(block[0], 0, 6, 'I'), block[0][6:], block[1:]))
    return res

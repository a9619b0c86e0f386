"""Finite alphabets of field values."""

import re

INT_MAX = 2 ** 31 - 1


def ints(width, touch=True, deep=False):
    """Integers of every extreme that fits width columns (with a separating blank unless touch)."""
    w = width if touch else width - 1
    top = min(10 ** w - 1, INT_MAX)
    low = -min(10 ** (w - 1) - 1, INT_MAX) if w > 1 else 0
    out = [0, top, low, 1, 10 ** (w - 1) if 10 ** (w - 1) < top else 5]
    if w > 1:
        out.append(-1)
    wide = []
    if w > 9:
        # more than 32 bits, up to the width
        wide = [10 ** w - 1, -(10 ** (w - 1) - 1) if w > 10 else -999999999, 2 ** 31, 2 ** 32 + 1][:4 if w > 9 else 0]
        wide = [v for v in wide if len(str(v)) <= w]
    if deep:
        for k in range(1, min(w, 9) + 1):
            out += [10 ** k - 1, 10 ** (k - 1), 5 * 10 ** (k - 1) + 3]
            if k < w:
                out += [-(10 ** k - 1), -(10 ** (k - 1))]
    return uniq([v for v in out if low <= v <= top] + wide)


def uniq(v):
    out = []
    for x in v:
        if not any(x == y and type(x) is type(y) for y in out):
            out.append(x)
    return out


# reals for a column with 6 digits; the negative ones with a three-digit exponent fill a width of 13
REALS = [0.0, 1.0, -1.0, 123456.0, -9.87654e-12, 9.999996e5, 1.0e-5, -4.00001e10, 7.77777e99, -1.23456e-99, 2.5e-3, 1e6]
REALS_WIDE = [1.5e100, -1.5e100, 2.5e-300, -9.99999e-101, -1.23456e307, -1.5e-305, 2.22507e-308, 4.94066e-324]
REALS_FIXED = REALS + REALS_WIDE
# more digits than six
REALS_LONG = [1.0 / 3, -2.0 / 3, 9.99999999999e11, 123456789.012, 1.00000000001, -1.7976931348e307, 2.2250738585e-307, 4.656612873077e-10]
REALS_DOUBLE = [1.0 / 3, -2.0 / 3, 0.1, -1e-17, 9.999999999999999e22, 5e-324, 2.2250738585072014e-308, -1.7976931348623157e308, 4503599627370497.5,
                1 - 2 ** -53, 1 + 2 ** -52]


def texts(width, deep=False):
    """Text that starts with a non-blank and ends with a non-blank."""
    full = ''.join(chr(33 + (7 * k) % 94) for k in range(width))
    out = ['', 'x', full, ('a  b' + ' ' * width)[:max(1, width - 1)] + 'z' if width > 5 else 'a b'[:width], '-1', '\u017e\u0161\u010d\u20ac\u00e9'[:width],
           ('\u010d' * width), '12345'[:width], 'a\tb\x1a\ufeffc\x7fd'[:width], 'e-1{0}\\n"E+%sD-'[:width]]
    if width >= 12:
        out += ['x' * (width - 6) + '    -1', 'name    -1']
    if deep:
        out += [full[:width - 1], full[::-1], 'NONE'[:width], "'q'"[:width], '0', '1.0E+05'[:width], '\U0001d54f\u6f22'[:width], '#', '-' * width, '9' * width,
                'e', 'D'][:]
        if width >= 12:
            out += ['tail     -1', '-1    -1', 'x    -1 58'[:width], '    '.join(['-1'] * (width // 6 + 1))[:width].strip()]
    return uniq([t for t in out if len(t) <= width and t == t.strip()])


# what users write into descriptions and labels
WORDS = ['Hz', 's', 'm', 'N', 'NONE', 'None', 'none', 'g', 'm/s^2', 'rad', 'deg', 'rpm', 'dB', 'time', 'Time', 'Frequency', 'unknown', 'No. 1', 'model', 'default', '+X', '-Z', 'SI',
         '01-Jan-00', '00:00:00', '1', 'True']


def words(width):
    return [w for w in WORDS if len(w) <= width]


CODES = re.compile('type|_dir|direction|format|qualifier|data_ch|method|code|mode|run|units|characteristic|option|_exp')


def field(f, deep=False, touch=True, blank=True):
    """Alphabet of a header field (key, kind, width, ...)."""
    kind, width = f[1], f[2]
    if kind == 'I':
        return uniq(ints(width, touch, deep) + (list(range(2, 31)) if deep and width > 2 and CODES.search(f[0]) else []))
    if kind == 'A':
        return uniq([t for t in texts(width, deep) if blank or t] + words(width))
    if kind == 'E':
        return (REALS_FIXED if touch else REALS) + (REALS_LONG if deep else REALS_LONG[:2])
    if kind == 'D':
        return REALS_DOUBLE + REALS[:4] + ([] if not deep else REALS_FIXED)
    raise ValueError(kind)


COUNTS = list(range(1, 26))
EDGES = [31, 32, 33, 39, 40, 41, 47, 48, 49, 63, 64, 65, 79, 80, 81, 95, 96, 97, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 511, 512, 513,
         999, 1000, 1001, 1023, 1024, 1025]
BIG = [2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 16384, 32768, 65535, 65536, 65537]

"""What a numeral is and what it is worth."""
import decimal
import re
from fractions import Fraction

KDIGIT = {c: i for i, c in enumerate('〇一二三四五六七八九')}
SMALL = {'十': 1, '百': 2, '千': 3}
LARGE = {'万': 4, '億': 8, '兆': 12}
CHARS = '0123456789〇一二三四五六七八九十百千万億兆'
_D = '[0-9〇一二三四五六七八九]'
_TERM = re.compile(r'(?:({0}{{1,3}}(?:,{0}{{3}})+|{0}+)(?:\.({0}+))?)?([十百千万億兆]?)'.format(_D))


def to_int(s):
    """int() without its limit on the number of digits (which is left as it is for the code under test)."""
    return int(s) if len(s) < 4000 else int(decimal.Decimal(s))


def to_str(n):
    return str(n) if abs(n) < 1 << 10000 else '{:f}'.format(decimal.Decimal(n))


def digits(s):
    return ''.join(str(KDIGIT.get(c, c)) for c in s if c != ',')


def value(s):
    """(value, ordered) of a numeral, None if s is not one: a sum of groups of terms, each a number, a unit or both.
    ordered: every term fits below the last place of what stands before it."""
    total, sub = Fraction(0), Fraction(0)
    total_place = sub_place = None      # lowest decimal place written so far
    total_top = sub_top = 0             # places from the lowest to the highest of the group
    ordered = True
    i = 0
    if not s:
        return None
    while i < len(s):
        m = _TERM.match(s, i)
        if m.end() == i:
            return None
        num, frac, unit = m.groups()
        last = m.end() == len(s)
        v = length = None
        place = 0
        if num is not None:
            d = digits(num)
            f = digits(frac or '')
            if ',' in num and to_int(digits(num.split(',')[0])) == 0:
                return None
            v = to_int(d) + (Fraction(to_int(f), 10 ** len(f)) if f else 0)
            length, place = len(d), -len(f)
        if unit == '' and not last:
            return None
        k = SMALL.get(unit, 0)
        if v is None and unit in SMALL:
            v, length = 1, 1
        if v is not None:
            place += k
            length += k
            if sub_place is not None and sub_place < length:
                ordered = False
            if sub_place is None:
                sub_top = length
            sub += v * 10 ** k
            sub_place = place
        if unit in LARGE or last:
            if sub_place is None:
                if unit in LARGE:
                    return None
            else:
                k = LARGE.get(unit, 0)
                if total_place is not None and total_place < sub_top + k:
                    ordered = False
                total += sub * 10 ** k
                total_place = sub_place + k
                sub, sub_place = Fraction(0), None
        i = m.end()
    return total, ordered


def plain(x):
    """Plain decimal notation without superfluous zeros."""
    n = x.numerator
    if x.denominator == 1:
        return to_str(n)
    k = 0
    while (x * 10 ** k).denominator != 1:
        k += 1
    s = to_str((x * 10 ** k).numerator).rjust(k + 1, '0')
    return s[:-k] + '.' + s[-k:]


def denotes(norm, s, x):
    """norm is the plain decimal notation of x, with leading zeros only if the text starts with a zero."""
    p = plain(x)
    return norm == p or s[:1] in ('0', '〇') and norm[:1] == '0' and norm.lstrip('0') == p.lstrip('0')

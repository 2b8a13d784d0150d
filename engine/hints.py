"""Values of a counterexample, written for the harness."""
from fractions import Fraction
def dec(r, scale):
    f = Fraction(r)
    s = max(0, min(int(scale), 40))
    n = f * 10 ** s
    if n.denominator != 1:
        s = 0
        while (f * 10 ** s).denominator != 1 and s < 40: s += 1
        n = f * 10 ** s
        if n.denominator != 1: return None
    n = int(n)
    if s == 0: return str(n)
    t = str(abs(n)).rjust(s + 1, '0')
    return ('-' if n < 0 else '') + t[:-s] + '.' + t[-s:]
def encode(hs):
    out = []
    for h in hs:
        try:
            k = h[0]
            if k == 'Bool': out.append('true' if h[1] == 'True' else 'false')
            elif k == 'Int': out.append('I:' + h[1])
            elif k == 'Long': out.append('L:' + h[1])
            elif k == 'Dec' and h[1]:
                d = dec(h[1], h[2])
                if d: out.append('B:' + d)
            elif k in ('Dbl', 'Flt') and h[1] and h[1] != 'nonfinite':
                f = float(Fraction(h[1])); out.append('%s:%r' % ('D' if k == 'Dbl' else 'F', f))
            elif k in ('Dbl', 'Flt'): out.append('D:NaN'); out.append('D:Infinity')
            elif k in ('Str', 'Ver'):
                d = h[1]; t = None
                if d.get('isdec'): t = dec(d['dec'], d.get('scale', 0))
                elif d.get('isdate'): t = '2020-02-29'
                elif d.get('isdt'): t = '2020-02-29 10:11:12'
                elif d.get('istrue'): t = 'TRUE'
                elif d.get('isfalse'): t = 'False'
                elif d.get('isnull'): t = 'null'
                if t: out.append(('V:' if k == 'Ver' else '') + ('"%s"' % t if k == 'Str' else t))
                else: out.extend(['""', '"abc"', '"1.2.3"'])
            elif k == 'Date': out.append('d:2020-02-29')
            elif k == 'DT': out.append('t:2020-02-29T10:11:12')
            elif k == 'Coll': out.append('[I:1,"a"]')
            elif k == 'Arr': out.append('A[I:1,"a"]')
            elif k == 'Map': out.append('{"a"=I:1}')
        except Exception: pass
    return [o for i, o in enumerate(out) if o not in out[:i]][:60] or ['I:1']

"""Representatives of the classes of numbers that path conditions tell
apart, spelled as the strings a cell may hold."""
from terms import isknum, kval, subterms


def constants(paths):
    out = set()
    for p in paths:
        for a, b in p.lits:
            for t in subterms(a):
                if isknum(t) and t[1] != 'bool':
                    out.add(float(kval(t)))
        for t in subterms(p.value):
            if isknum(t) and t[1] != 'bool':
                out.add(float(kval(t)))
    return out


def spellings(consts, integer):
    cs = sorted(c for c in consts if c == c and abs(c) != float('inf'))
    pts = set()
    for c in cs:
        pts.update([c, c - 1e-9, c + 1e-9, c - 1, c + 1, -c])
    for a, b in zip(cs, cs[1:]):
        pts.add((a + b) / 2)
    pts.update([0.0, 1.0, -1.0, 1e300, -1e300, 0.5, -0.5])
    if cs:
        pts.update([cs[0] - 1000, cs[-1] + 1000])
    out = []
    if integer:
        for x in sorted(set(int(round(p)) for p in pts)):
            out.append(str(x))
        out += ['+3', ' 7 ', '-0', '007', '1' + '0' * 40, '-1' + '0' * 40,
                '12\n', '9999999999']
    else:
        for x in sorted(pts):
            out.append(repr(x))
        out += ['-0.0', '+0.25', ' 0.75 ', '1e0', '1E-3', '.5', '1.', '5e-1',
                'nan', 'NaN', '-nan', 'NAN', 'inf', '-inf', 'Infinity',
                '-Infinity', '1e400', '-1e400', '+inf', '1e-400', '0.50\n',
                '1', '0', '-1', '00.5']
    out += ['', ' ', 'abc', '1,5', '1 2', '--1', '1.5.2', '1_0', '0x10',
            '1L', '2.', '1.5', '2.0', '1e3', '- 1', '1/2', '1%', 'None']
    return out


def classify(text, integer):
    """the number a string denotes for the library, or None"""
    import evalt
    try:
        return evalt.py2int(text) if integer else evalt.py2float(text)
    except ValueError:
        return None

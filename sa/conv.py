# Run under Jython 2.7 only to obtain the exact Python 2 syntax tree of the
# sources (ast.parse); nothing of the analysed code is imported or executed.
import ast
import sys
import json


def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in n._fields:
            d[f] = conv(getattr(n, f, None))
        if hasattr(n, 'lineno'):
            d['l'] = n.lineno
            d['c'] = n.col_offset
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, unicode):
        return {'_u': n}
    if isinstance(n, str):
        return n
    if isinstance(n, bool) or n is None:
        return n
    if isinstance(n, float):
        return {'_f': repr(n)}
    if isinstance(n, (int, long)):
        return n
    return {'_x': type(n).__name__, 'r': repr(n)}

out = {}
for f in sys.argv[2:]:
    try:
        out[f] = conv(ast.parse(open(f).read(), f))
    except SyntaxError as e:
        out[f] = {'_': 'SyntaxError', 'msg': str(e)}
open(sys.argv[1], 'w').write(json.dumps(out, encoding='latin1'))

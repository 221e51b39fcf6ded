"""Regular languages of whole strings: automata of regexes and of path
conditions, with boolean operations and equivalence."""
import re
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        from re import _parser as sre_parse, _constants as C
    except ImportError:
        import sre_parse
        import sre_constants as C

from terms import isk, iskstr, kval

SIGMA = [chr(i) for i in range(128)] + ['\xe9', '\u0660']
N = len(SIGMA)
IDX = {c: i for i, c in enumerate(SIGMA)}


class Unsup(Exception):
    pass


class DFA(object):
    """complete automaton over SIGMA: trans[state][symbol], accepting set"""

    def __init__(self, trans, acc, start=0):
        self.trans, self.acc, self.start = trans, acc, start

    def accepts(self, w):
        s = self.start
        for c in w:
            s = self.trans[s][IDX.get(c, N - 2)]
        return s in self.acc

    def complement(self):
        return DFA(self.trans, set(range(len(self.trans))) - self.acc,
                   self.start)

    def product(self, o, f):
        ids = {(self.start, o.start): 0}
        todo = [(self.start, o.start)]
        trans, acc = [], set()
        while todo:
            a, b = todo.pop(0)
            row = []
            for i in range(N):
                n = (self.trans[a][i], o.trans[b][i])
                if n not in ids:
                    ids[n] = len(ids)
                    todo.append(n)
                row.append(ids[n])
            trans.append(row)
            if f(a in self.acc, b in o.acc):
                acc.add(len(trans) - 1)
        return DFA(trans, acc, 0)

    def __and__(self, o):
        return self.product(o, lambda x, y: x and y).minimal()

    def __or__(self, o):
        return self.product(o, lambda x, y: x or y).minimal()

    def minimal(self):
        n = len(self.trans)
        part = [1 if s in self.acc else 0 for s in range(n)]
        while True:
            sig = {}
            new = []
            for s in range(n):
                k = (part[s],) + tuple(part[t] for t in self.trans[s])
                new.append(sig.setdefault(k, len(sig)))
            if len(sig) == len(set(part)):
                break
            part = new
        m = {}
        part = [m.setdefault(x, len(m)) for x in part]
        trans = {}
        for s in range(n):
            trans.setdefault(part[s], [part[t] for t in self.trans[s]])
        return DFA([trans[i] for i in range(len(trans))],
                   {part[s] for s in self.acc}, part[self.start])

    def witness(self):
        """a shortest accepted string, None if the language is empty"""
        seen = {self.start: ''}
        todo = [self.start]
        while todo:
            s = todo.pop(0)
            if s in self.acc:
                return seen[s]
            for i in PREF:
                t = self.trans[s][i]
                if t not in seen:
                    seen[t] = seen[s] + SIGMA[i]
                    todo.append(t)
        return None

    def difference(self, o):
        """shortest string in exactly one of the two languages"""
        return self.product(o, lambda x, y: x != y).witness()

    def cover(self, limit=400):
        """accepted and rejected strings through every transition class"""
        seen = {self.start: ''}
        todo = [self.start]
        while todo:
            s = todo.pop(0)
            for i in PREF:
                t = self.trans[s][i]
                if t not in seen:
                    seen[t] = seen[s] + SIGMA[i]
                    todo.append(t)
        tail = self._tails()
        out = []
        for s, w in seen.items():
            done = set()
            for i in PREF:
                t = self.trans[s][i]
                cls = (t, kind(SIGMA[i]))
                if cls in done:
                    continue
                done.add(cls)
                for tl in tail.get(t, ['']):
                    out.append(w + SIGMA[i] + tl)
            for tl in tail.get(s, []):
                out.append(w + tl)
        out.append('')
        seen2 = set()
        res = []
        for w in out:
            if w not in seen2:
                seen2.add(w)
                res.append(w)
        return res[:limit * 10]

    def _tails(self):
        """a shortest accepting continuation of every state"""
        best = {s: '' for s in self.acc}
        changed = True
        while changed:
            changed = False
            for s in range(len(self.trans)):
                for i in PREF:
                    t = self.trans[s][i]
                    if t in best and (s not in best or len(best[s]) > len(
                            best[t]) + 1):
                        best[s] = SIGMA[i] + best[t]
                        changed = True
        return {s: sorted({'', w}) for s, w in best.items()}


def kind(c):
    return ('d' if c.isdigit() else 'a' if c.isalpha() else
            's' if c.isspace() else c)


PREF = sorted(range(N), key=lambda i: (
    0 if SIGMA[i].isalnum() and i < 128 else 1 if 32 < i < 127 else 2, i))


def empty():
    return DFA([[0] * N], set())


def total():
    return DFA([[0] * N], {0})


def word(w):
    trans = []
    for i in range(len(w) + 2):
        row = [len(w) + 1] * N
        if i < len(w):
            if w[i] not in IDX:
                raise Unsup(w)
            row[IDX[w[i]]] = i + 1
        trans.append(row)
    return DFA(trans, {len(w)})


# ------------------------------------------------------------ regexes
class NFA(object):
    """states carry a mode: 0 free, 1 only '' or a newline may follow,
    2 nothing may follow"""

    def __init__(self):
        self.eps = []
        self.step = []      # state -> (set of symbols, next)
        self.restrict = []  # state -> mode entered when passing (or 0)

    def new(self, restrict=0):
        self.eps.append([])
        self.step.append(None)
        self.restrict.append(restrict)
        return len(self.eps) - 1


def charset(items, flags):
    neg = False
    out = set()
    for op, av in items:
        if op == C.NEGATE:
            neg = True
        elif op == C.LITERAL:
            out.add(chr(av))
        elif op == C.RANGE:
            out.update(c for c in SIGMA if av[0] <= ord(c) <= av[1])
        elif op == C.CATEGORY:
            out |= category(av)
        else:
            raise Unsup(op)
    s = {IDX[c] for c in out if c in IDX}
    if flags & re.I:
        s = {i for i in range(N) if any(
            SIGMA[j].lower() == SIGMA[i].lower() for j in s)}
    return set(range(N)) - s if neg else s


def category(av):
    ascii_ = SIGMA[:128]
    dig = {c for c in ascii_ if c.isdigit()}
    wrd = {c for c in ascii_ if c.isalnum() or c == '_'}
    spc = set(' \t\n\r\x0b\x0c')
    al = set(SIGMA)
    return {C.CATEGORY_DIGIT: dig, C.CATEGORY_NOT_DIGIT: al - dig,
            C.CATEGORY_WORD: wrd, C.CATEGORY_NOT_WORD: al - wrd,
            C.CATEGORY_SPACE: spc, C.CATEGORY_NOT_SPACE: al - spc}[av]


def build(nfa, seq, cur, flags):
    for op, av in seq:
        if op == C.LITERAL:
            cur = sym(nfa, cur, charset([(op, av)], flags))
        elif op == C.NOT_LITERAL:
            cur = sym(nfa, cur, set(range(N)) - charset(
                [(C.LITERAL, av)], flags))
        elif op == C.ANY:
            cur = sym(nfa, cur, set(range(N)) - (
                set() if flags & re.S else {IDX['\n']}))
        elif op == C.IN:
            cur = sym(nfa, cur, charset(av, flags))
        elif op == C.BRANCH:
            end = nfa.new()
            for alt in av[1]:
                s = nfa.new()
                nfa.eps[cur].append(s)
                e = build(nfa, alt, s, flags)
                nfa.eps[e].append(end)
            cur = end
        elif op == C.SUBPATTERN:
            cur = build(nfa, av[-1], cur, flags)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 60 or hi != C.MAXREPEAT and hi > 60:
                raise Unsup('repeat')
            for _ in range(lo):
                cur = build(nfa, sub, cur, flags)
            if hi == C.MAXREPEAT:
                s = nfa.new()
                nfa.eps[cur].append(s)
                e = build(nfa, sub, s, flags)
                nfa.eps[e].append(s)
                cur = s
            else:
                end = nfa.new()
                for _ in range(hi - lo):
                    nfa.eps[cur].append(end)
                    cur = build(nfa, sub, cur, flags)
                nfa.eps[cur].append(end)
                cur = end
        elif op == C.AT:
            if av in (C.AT_END, C.AT_END_STRING):
                if flags & re.M and av == C.AT_END:
                    raise Unsup('multiline')
                s = nfa.new(1 if av == C.AT_END else 2)
            elif av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                s = nfa.new(3)
            else:
                raise Unsup(av)
            nfa.eps[cur].append(s)
            cur = s
        else:
            raise Unsup(op)
    return cur


def sym(nfa, cur, cs):
    s = nfa.new()
    m = nfa.new()
    nfa.eps[cur].append(m)
    nfa.step[m] = (cs, s)
    return s


def regex(pattern, how='match', flags=0):
    """language of the strings for which re.<how>(pattern, s) succeeds"""
    pattern = pattern.replace('\\Z', '\\Z')
    tree = sre_parse.parse(pattern, flags | re.ASCII)
    flags = tree.state.flags
    nfa = NFA()
    start = nfa.new()
    end = build(nfa, tree, start, flags)
    nl = IDX['\n']

    def close(confs):
        todo = list(confs)
        seen = set(confs)
        while todo:
            s, mode, at0 = todo.pop()
            for t in nfa.eps[s]:
                m = mode
                r = nfa.restrict[t]
                if r == 3:
                    if not at0:
                        continue
                elif r:
                    m = max(m, r)
                c = (t, m, at0)
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return frozenset(seen)

    # a configuration that reached the end of the pattern accepts whatever
    # its mode lets follow
    def advance(confs, i):
        out = set()
        for s, mode, at0 in confs:
            if mode == 2 or mode == 1 and i != nl:
                continue
            m = 2 if mode == 1 else 0
            if s == end and how != 'fullmatch':
                out.add((s, m, False))
            st = nfa.step[s]
            if st and i in st[0]:
                out.add((st[1], m, False))
        if how == 'search':
            out.add((start, 0, False))
        return close(out)

    first = close({(start, 0, True)})
    ids = {first: 0}
    order = [first]
    trans, acc = [], set()
    k = 0
    while k < len(order):
        confs = order[k]
        row = []
        for i in range(N):
            n = advance(confs, i)
            if n not in ids:
                ids[n] = len(ids)
                order.append(n)
                if len(order) > 3000:
                    raise Unsup('too many states')
            row.append(ids[n])
        trans.append(row)
        if any(s == end for s, m, z in confs):
            acc.add(k)
        k += 1
    return DFA(trans, acc).minimal()


# ------------------------------------------------------- path conditions
def mapped(d, f):
    """strings s with f(s) in the language, for a per-character f"""
    trans = [[row[IDX.get(f(SIGMA[i]), i)] for i in range(N)]
             for row in d.trans]
    return DFA(trans, d.acc, d.start)


def strlang(t, text, pred):
    """language of text such that pred (a DFA) accepts the string term t"""
    if t == text:
        return pred
    if t[0] == 'call' and t[1][0] == 'attr' and not t[3]:
        b, m = t[1][1], t[1][2]
        if m == 'lower' and not t[2]:
            return strlang(b, text, mapped(
                pred, lambda c: c.lower() if ord(c) < 128 else c))
        if m == 'upper' and not t[2]:
            return strlang(b, text, mapped(
                pred, lambda c: c.upper() if ord(c) < 128 else c))
    if t[0] == 'call' and t[1] == ('ext', '__builtin__.str') and \
            len(t[2]) == 1:
        return strlang(t[2][0], text, pred)
    raise Unsup(t)


def compiled(t):
    """(pattern, flags) of a compiled or literal regex term"""
    if iskstr(t):
        return t[2], 0
    if t[0] == 'call' and t[1] == ('ext', 're.compile') and not t[3] and \
            len(t[2]) == 1 and iskstr(t[2][0]):
        return t[2][0][2], 0
    raise Unsup(t)


def matchterm(t, text):
    """language of text on which a match term is not None"""
    if t[0] != 'call' or t[3]:
        raise Unsup(t)
    f, args = t[1], t[2]
    if f[0] == 'ext' and f[1] in ('re.match', 're.search') and \
            len(args) == 2:
        pat, fl = compiled(args[0])
        return strlang(args[1], text, regex(pat, f[1][3:], fl))
    if f[0] == 'attr' and f[2] in ('match', 'search') and len(args) == 1:
        pat, fl = compiled(f[1])
        return strlang(args[0], text, regex(pat, f[2], fl))
    raise Unsup(t)


def atom(a, text):
    """language of the strings text for which the atom is true"""
    h = a[0]
    if h == 'eq':
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if isk(y):
                if y[1] != 'str':
                    if y[1] == 'int' and x[0] == 'call' and x[1] == (
                            'ext', '__builtin__.len'):
                        return strlang(x[2][0], text, regex(
                            '(?s).{%d}\\Z' % y[2]))
                    raise Unsup(a)
                return strlang(x, text, word(y[2]))
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if y == text and x[0] == 'call' and x[1][0] == 'attr' and \
                    x[1][1] == text and not x[2]:
                f = {'lower': str.lower, 'upper': str.upper}.get(x[1][2])
                if f:
                    # fixed points of a per-character map
                    row = [0 if ord(c) > 127 or f(c) == c else 1
                           for c in SIGMA]
                    return DFA([row, [1] * N], {0})
                if x[1][2] == 'strip':
                    return regex(r'(?s)(\S(.*\S)?)?\Z')
        raise Unsup(a)
    if h == 'in' and a[2][0] in ('tuple', 'list', 'tuplist', 'set'):
        out = empty()
        items = a[2][1:] if a[2][0] == 'tuple' else [
            s[1] for s in a[2][1] if s[0] == 'one']
        if a[2][0] != 'tuple' and len(items) != len(a[2][1]):
            raise Unsup(a)
        for x in items:
            if not iskstr(x):
                raise Unsup(a)
            out = out | word(x[2])
        return strlang(a[1], text, out)
    if h == 'truth':
        t = a[1]
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'group', 'groups'):
            raise Unsup(a)
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'startswith' \
                and len(t[2]) == 1 and iskstr(t[2][0]):
            return strlang(t[1][1], text, regex(re.escape(t[2][0][2])))
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'endswith' \
                and len(t[2]) == 1 and iskstr(t[2][0]):
            return strlang(t[1][1], text, regex(
                '(?s).*' + re.escape(t[2][0][2]) + '\\Z'))
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'strip' \
                and not t[2]:
            return strlang(t[1][1], text, regex(r'\S', 'search'))
        if t == text or t[0] == 'call' and t[1][0] == 'attr' and \
                t[1][2] in ('lower', 'upper'):
            return strlang(t, text, word('').complement())
        return matchterm(t, text)
    if h == 'isnone':
        if a[1] == text:
            return empty()
        return matchterm(a[1], text).complement()
    raise Unsup(a)


def path_language(p, text):
    d = total()
    for a, b in p.lits:
        x = atom(a, text)
        d = d & (x if b else x.complement())
    return d

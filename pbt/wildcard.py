"""Wildcard patterns as documented: * ? [seq] [!seq]"""


def parse(pattern):
    res = []
    i = 0
    while i < len(pattern):
        c = pattern[i]
        if c == '*':
            res.append(('*',))
            i += 1
        elif c == '?':
            res.append(('?',))
            i += 1
        elif c == '[':
            j = i + 1
            if j < len(pattern) and pattern[j] == '!':
                j += 1
            if j < len(pattern) and pattern[j] == ']':
                j += 1
            while j < len(pattern) and pattern[j] != ']':
                j += 1
            if j >= len(pattern):
                res.append(('c', '['))
                i += 1
            else:
                body = pattern[i + 1 : j]
                neg = body.startswith('!')
                if neg:
                    body = body[1:]
                items = []
                k = 0
                while k < len(body):
                    if k + 2 < len(body) and body[k + 1] == '-':
                        items.append((body[k], body[k + 2]))
                        k += 3
                    else:
                        items.append((body[k], body[k]))
                        k += 1
                res.append(('s', neg, items))
                i = j + 1
        else:
            res.append(('c', c))
            i += 1
    return res


def one(tok, c):
    if tok[0] == '?':
        return True
    if tok[0] == 'c':
        return tok[1] == c
    hit = any(a <= c <= b for a, b in tok[2])
    return hit != tok[1]


def contains(name, pattern):
    """Does some part of the name match the pattern?"""
    toks = parse(pattern)

    def at(i):
        """Can toks match name[i:] up to some end? Set-of-positions simulation."""
        pos = {i}
        for t in toks:
            if t[0] == '*':
                pos = set(range(min(pos), len(name) + 1)) if pos else pos
            else:
                pos = {p + 1 for p in pos if p < len(name) and one(t, name[p])}
            if not pos:
                return False
        return True

    return any(at(i) for i in range(len(name) + 1))

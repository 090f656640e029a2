"""A small engine for flex regular expressions over bytes: exact longest-match semantics (lazily built DFA) and random
generation of strings a rule matches.  Independent of flex."""
import functools


class P:
    """parser: flex syntax -> AST.  ("c", frozenset) ("cat", [..]) ("alt", [..]) ("rep", a, lo, hi)"""
    def __init__(self, s, caseless):
        self.s, self.i, self.caseless = s.encode("utf8") if isinstance(s, str) else s, 0, caseless

    def fold(self, cs):
        if not self.caseless:
            return frozenset(cs)
        o = set(cs)
        for c in cs:
            if 65 <= c <= 90:
                o.add(c + 32)
            elif 97 <= c <= 122:
                o.add(c - 32)
        return frozenset(o)

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        return {ord("n"): 10, ord("t"): 9, ord("r"): 13, ord("a"): 7, ord("b"): 8, ord("f"): 12, ord("v"): 11, ord("0"): 0}.get(c, c)

    def parse(self):
        bol = False
        if self.s[:1] == b"^":
            bol = True
            self.i = 1
        a = self.alt()
        # an unquoted space ends a flex pattern
        assert self.i == len(self.s) or self.s[self.i] == 32, (self.s, self.i)
        return bol, a

    def alt(self):
        xs = [self.cat()]
        while self.i < len(self.s) and self.s[self.i] == ord("|"):
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def cat(self):
        xs = []
        while self.i < len(self.s) and self.s[self.i] not in b"|) ":
            xs.append(self.rep())
        return ("cat", xs)

    def rep(self):
        a = self.atom()
        while self.i < len(self.s):
            c = self.s[self.i]
            if c == ord("*"):
                a = ("rep", a, 0, None)
            elif c == ord("+"):
                a = ("rep", a, 1, None)
            elif c == ord("?"):
                a = ("rep", a, 0, 1)
            elif c == ord("{") and self.s[self.i + 1:self.i + 2].isdigit():
                j = self.s.index(b"}", self.i)
                lo, _, hi = self.s[self.i + 1:j].decode().partition(",")
                a = ("rep", a, int(lo), (int(hi) if hi else None) if "," in self.s[self.i:j].decode() else int(lo))
                self.i = j
            else:
                break
            self.i += 1
        return a

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == ord('"'):
            xs = []
            while self.s[self.i] != ord('"'):
                c = self.s[self.i]
                self.i += 1
                if c == ord("\\"):
                    c = self.esc()
                xs.append(("c", self.fold([c])))
            self.i += 1
            return ("cat", xs)
        if c == ord("("):
            a = self.alt()
            assert self.s[self.i] == ord(")")
            self.i += 1
            return a
        if c == ord("["):
            neg = self.s[self.i] == ord("^")
            if neg:
                self.i += 1
            cs = set()
            first = True
            while first or self.s[self.i] != ord("]"):
                first = False
                c = self.s[self.i]
                self.i += 1
                if c == ord("\\"):
                    c = self.esc()
                if self.s[self.i] == ord("-") and self.s[self.i + 1] != ord("]"):
                    self.i += 1
                    e = self.s[self.i]
                    self.i += 1
                    if e == ord("\\"):
                        e = self.esc()
                    cs.update(range(c, e + 1))
                else:
                    cs.add(c)
            self.i += 1
            cs = self.fold(cs)
            return ("c", frozenset(range(256)) - cs if neg else cs)
        if c == ord("."):
            return ("c", frozenset(range(256)) - {10})
        if c == ord("\\"):
            c = self.esc()
        return ("c", self.fold([c]))


def nfa(ast, nodes):
    """returns (start, end); nodes: list of (charset or None, [targets])"""
    def new():
        nodes.append([None, []])
        return len(nodes) - 1

    def b(a):
        k = a[0]
        if k == "c":
            s, e = new(), new()
            nodes[s] = [a[1], [e]]
            return s, e
        if k == "cat":
            s = e = new()
            for x in a[1]:
                p, q = b(x)
                nodes[e][1].append(p)
                e = q
            return s, e
        if k == "alt":
            s, e = new(), new()
            for x in a[1]:
                p, q = b(x)
                nodes[s][1].append(p)
                nodes[q][1].append(e)
            return s, e
        _, x, lo, hi = a
        s = e = new()
        for _ in range(lo):
            p, q = b(x)
            nodes[e][1].append(p)
            e = q
        if hi is None:
            p, q = b(x)
            t = new()
            nodes[e][1] += [p, t]
            nodes[q][1] += [p, t]
            e = t
        else:
            t = new()
            nodes[e][1].append(t)
            for _ in range(hi - lo):
                p, q = b(x)
                nodes[e][1].append(p)
                nodes[q][1].append(t)
                e = q
            if hi > lo:
                pass
            e = t
        return s, e
    return b(ast)


class Lexer:
    """rules: list of (flex regexp, action); longest match, earliest rule among equals."""
    def __init__(self, rules, caseless):
        self.nodes, self.starts, self.final, self.acts = [], [], {}, []
        for n, (r, act) in enumerate(rules):
            bol, ast = P(r, caseless).parse()
            s, e = nfa(ast, self.nodes)
            self.starts.append((bol, s))
            self.final[e] = n
            self.acts.append(act)
        self.cache = {}
        self.init = {b: self.close([s for q, s in self.starts if b or not q]) for b in (False, True)}

    def close(self, xs):
        seen = set()
        st = list(xs)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.nodes[x][0] is None:
                st += self.nodes[x][1]
        f = [self.final[x] for x in seen if x in self.final]
        return (frozenset(x for x in seen if self.nodes[x][0] is not None), min(f) if f else None)

    def step(self, st, c):
        k = (st, c)
        r = self.cache.get(k)
        if r is None:
            if len(self.cache) > 400000:
                self.cache.clear()
            t = [y for x in st[0] if c in self.nodes[x][0] for y in self.nodes[x][1]]
            r = self.cache[k] = self.close(t) if t else ()
        return r

    def match(self, data, pos, bol):
        """(length, action) of the longest match, or None"""
        st = self.init[bol]
        best = None
        i = pos
        n = len(data)
        while i < n:
            st = self.step(st, data[i])
            if not st:
                break
            i += 1
            if st[1] is not None:
                best = (i - pos, st[1])
        return None if best is None else (best[0], self.acts[best[1]])


def sample(d, ast, alpha):
    """random string of the AST's language; alpha: preferred bytes for classes"""
    k = ast[0]
    if k == "c":
        cs = ast[1]
        if len(cs) <= 2:
            return bytes([d.pick(sorted(cs, reverse=True))])
        pref = [c for c in alpha if c in cs]
        return bytes([d.pick(pref or sorted(cs))])
    if k == "cat":
        return b"".join(sample(d, x, alpha) for x in ast[1])
    if k == "alt":
        return sample(d, d.pick(ast[1]), alpha)
    _, x, lo, hi = ast
    n = d.int(lo, lo + 4 if hi is None else min(hi, lo + 4))
    return b"".join(sample(d, x, alpha) for _ in range(n))

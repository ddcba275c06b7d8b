"""An abstract domain of data frames: which rows of which source, in which order, labelled how, with which columns."""

import terms as T
from lib import subterms, undecided

ALL = ("call", "slice", (T.NONE, T.NONE, T.NONE), ())
DROP = {"head", "tail", "dropna", "nlargest", "nsmallest", "sample", "truncate", "first", "last"}
CHANGE = {"ffill", "bfill", "fillna", "shift", "interpolate", "cumsum", "diff", "abs", "clip"}
SAME = {"copy", "infer_objects", "convert_dtypes"}


def kw(t):
    """Named and positional arguments of a call or method term"""
    named, pos = {}, []
    args = t[3] if t[0] == "mcall" else tuple(("", a) for a in t[2]) + tuple(t[3])
    for k, v in args:
        if k == "" or k.isdigit():
            pos.append(v)
        else:
            named[k] = v
    return named, pos


def arg(t, i, *names):
    named, pos = kw(t)
    for n in names:
        if n in named:
            return named[n]
    return pos[i] if i is not None and len(pos) > i else None


def strings(t):
    """The strings of a literal list, or None"""
    if t is None:
        return None
    if t[0] == "str":
        return [t[1]]
    if t[0] in ("list", "tuple", "set") and all(s[0] == "item" and s[1][0] == "str" for s in t[1]):
        return [s[1][1] for s in t[1]]
    return None


def pairs(t):
    """A literal dict of strings, or None"""
    if t is not None and t[0] == "dict" and all(s[0] == "kv" and s[1][0] == "str" and s[2][0] == "str" for s in t[1]):
        return {s[1][1]: s[2][1] for s in t[1]}
    return None


class Frame:
    """base: the source of the rows; preds: (column, (values), kept?) chosen by; order: () as in the source or (column, stable?) keys;
    index: "rows" the labels of the source, "seq" numbered anew, ("col", name); cols: name -> value of the row, a term over ("src", column)
    """

    def __init__(self, base, cols, preds=frozenset(), order=(), index="rows", rest=()):
        self.base, self.cols, self.preds, self.order, self.index = base, dict(cols), frozenset(preds), tuple(order), index
        self.rest = tuple(rest)         # columns made of the keys of dict values

    def but(self, **how):
        d = dict(base=self.base, cols=self.cols, preds=self.preds, order=self.order, index=self.index, rest=self.rest)
        d.update(how)
        return Frame(**d)

    def rows(self):
        return (self.base, self.preds, self.order)


class Tables:
    """Evaluates terms to frames; leaf(term) gives the frames of the sources (or None)"""

    def __init__(self, leaf):
        self.leaf = leaf
        self.memo = {}

    def __call__(self, t):
        k = id(t)
        if k not in self.memo:
            self.memo[k] = (t, self.ev(t))
        return self.memo[k][1]

    def dunno(self, t, why="the table"):
        undecided(f"{why} {T.show(t)[:200]}")

    def ev(self, t):
        f = self.leaf(t)
        if f is not None:
            return f
        if t[0] == "copy":
            return self(t[1])
        if t[0] == "setcol":
            return self.setcol(t)
        if t[0] == "call" and t[1] == "pandas.DataFrame":
            a = arg(t, 0, "data")
            if a is None or len(t[2]) + len(t[3]) != 1:
                self.dunno(t)
            c = self.column(a)
            if c is not None:
                f, v = c
                if v[0] == "src" and f.index == "rows" and not f.order and not f.preds:
                    return f.but(cols={}, rest=(v[1],))
                self.dunno(t)
            return self(a)
        if t[0] == "call" and t[1] == "pandas.concat":
            return self.concat(t)
        if t[0] == "key":
            return self.select(t)
        if t[0] == "mcall":
            m = getattr(self, "m_" + t[2], None)
            if t[2] in SAME:
                return self(t[1])
            if m is not None:
                return m(t)
            if t[2] in DROP:
                if t[2] in ("head", "tail") and any(v[0] != "num" for _, v in t[3]):
                    self.dunno(t)
                f = self(t[1])
                return f.but(preds=f.preds | {(("rows of", t[2]), frozenset(), True)})
            if t[2] in CHANGE and self.is_table(t[1]):
                f = self(t[1])
                return f.but(cols={n: ("changed", t[2], v) for n, v in f.cols.items()}, rest=tuple(("changed", t[2], r) for r in f.rest))
        if t[0] == "res" and t[2] in CHANGE | DROP:      # in place or not: its result
            return self(("mcall", t[3], t[2], t[4]))
        if t[0] == "slice":
            f = self(t[1][1] if t[1][0] == "attr" and t[1][2] in ("iloc", "loc") else t[1])
            return self.part(f, t)
        self.dunno(t)

    def part(self, f, t):
        """The rows of a slice"""
        step = t[4] if len(t) > 4 else T.NONE
        if t[2:4] in ((T.NONE, T.NONE), (T.num(0), T.NONE)) and step in (T.NONE, T.num(1)):
            return f
        if t[2:4] == (T.NONE, T.NONE) and step == T.num(-1):
            return f.but(order=(((("reversed",),), True),) + f.order)
        if all(x[0] in ("num", "none") for x in t[2:]):
            return f.but(preds=f.preds | {(("rows of", "a slice"), frozenset(), True)})
        self.dunno(t)

    # -- columns
    def column(self, t):
        """(frame, value) of a column, or None"""
        while True:
            if t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "splat":
                t = t[1][0][1]
            elif t[0] == "mcall" and t[2] in ("tolist", "to_list", "to_numpy", "copy", "astype", "infer_objects"):
                t = t[1]
            elif t[0] == "attr" and t[2] in ("values", "array"):
                t = t[1]
            elif t[0] == "copy":
                t = t[1]
            else:
                break
        c = self.leaf_column(t)
        if c is not None:
            return c
        base, name = None, None
        if t[0] == "key" and t[2][0] == "str":
            base, name = t[1], t[2][1]
        elif t[0] == "key" and t[1][0] == "attr" and t[1][2] == "loc" and t[2][0] == "tuple" and len(t[2][1]) == 2 \
                and t[2][1][1][1][0] == "str":
            m = t[2][1][0][1]
            base, name = t[1][1] if m == ALL else ("key", ("attr", t[1][1], "loc"), m), t[2][1][1][1][1]
        elif t[0] == "attr" and isinstance(t[2], str) and self.is_table(t[1]):
            base, name = t[1], t[2]
        elif t[0] == "mcall" and t[2] in ("replace", "map"):
            c = self.column(t[1])
            m = arg(t, 0, "to_replace", "arg")
            if c is not None and m is not None and len(t[3]) == 1:
                return c[0], ("mapped" if t[2] == "replace" else "looked up", m, c[1])
            return None
        if base is None or not self.is_table(base):
            return None
        f = self(base)
        if name not in f.cols:
            if f.rest:
                return f, ("of", f.rest, name)
            return None
        return f, f.cols[name]

    def leaf_column(self, t):
        return None

    def is_table(self, t):
        """Could the term be a table?"""
        while True:
            if self.leaf(t) is not None:
                return True
            if t[0] in ("copy", "setcol", "mcall", "key", "attr", "slice"):
                t = t[1]
                continue
            if t[0] == "res" and t[2] in CHANGE | DROP:
                t = t[3]
                continue
            return t[0] == "call" and t[1] in ("pandas.DataFrame", "pandas.concat", "pandas.DataFrame.from_dict")

    # -- rows
    def mask(self, m, f):
        """Predicates of a mask that is about the rows of the frame f"""
        if m[0] in ("not",) or m[0] == "op" and m[1] == "Invert":
            ps = self.mask(m[1] if m[0] == "not" else m[2], f)
            if len(ps) != 1:
                self.dunno(m, "the rows selected by")
            (v, vals, yes), = ps
            return {(v, vals, not yes)}
        if m[0] == "op" and m[1] == "BitAnd":
            return self.mask(m[2], f) | self.mask(m[3], f)
        if m[0] == "op" and m[1] == "BitOr":
            a, b = self.mask(m[2], f), self.mask(m[3], f)
            if len(a) == len(b) == 1:
                (v, x, p), = a
                (w, y, q), = b
                if v == w and p and q:
                    return {(v, x | y, True)}
            self.dunno(m, "the rows selected by")
        if m[0] == "eq" or m[0] == "mcall" and m[2] in ("eq", "ne", "isin"):
            sides = ((m[1], m[2]), (m[2], m[1])) if m[0] == "eq" else ((m[1], arg(m, 0, "other", "values")),)
            for a, b in sides:
                c = self.column(a)
                if c is None or b is None:
                    continue
                if c[0].base != f.base or c[0].preds - f.preds:
                    self.dunno(m, "the rows of another table selected by")
                if m[0] == "mcall" and m[2] == "isin":
                    if b[0] not in ("list", "tuple", "set") or not all(s[0] == "item" for s in b[1]):
                        self.dunno(m, "the rows selected by")
                    return {(c[1], frozenset(s[1] for s in b[1]), True)}
                return {(c[1], frozenset([b]), m[0] == "eq" or m[2] == "eq")}
        self.dunno(m, "the rows selected by")

    def where(self, f, m):
        return f.but(preds=f.preds | self.mask(m, f)) if m != ALL else f

    def select(self, t):
        b, k = t[1], t[2]
        if b[0] == "attr" and b[2] == "loc":
            f = self(b[1])
            if k[0] == "tuple" and len(k[1]) == 2:
                f = self.where(f, k[1][0][1])
                cols = k[1][1][1]
                if cols == ALL:
                    return f
                names = strings(cols) if cols[0] != "str" else None
                if names is None:
                    self.dunno(t)
                return self.pick(f, names, t)
            return self.where(f, k)
        f = self(b)
        names = strings(k) if k[0] in ("list", "tuple") else None
        if names is not None:
            return self.pick(f, names, t)
        return self.where(f, k)

    def pick(self, f, names, t):
        miss = [n for n in names if n not in f.cols]
        if miss and f.rest:
            return f.but(cols={n: f.cols.get(n, ("of", f.rest, n)) for n in names}, rest=())
        if miss:
            self.dunno(t, f"the column {miss[0]} of")
        return f.but(cols={n: f.cols[n] for n in names}, rest=())

    def setcol(self, t):
        _, b, k, v = t
        f = self(b)
        if k[0] != "str":
            self.dunno(t)
        return f.but(cols={**f.cols, k[1]: self.value(v, f, t)})

    def value(self, v, f, t):
        """The value of a new column in the rows of f"""
        c = self.column(v)
        if c is not None:
            if (c[0].base, c[0].preds) != (f.base, f.preds):
                self.dunno(t, "the column of another table in")
            if c[0].index != f.index or c[0].index == "seq" and c[0].order != f.order:
                self.dunno(t, "the column of a differently labelled table in")
            return c[1]
        if v[0] in ("str", "num", "none", "bool") or not any(self.is_table(x) for x in subterms(v) if isinstance(x, tuple) and x):
            return ("const", v)
        return self.computed(v, f, t)

    def computed(self, v, f, t):
        self.dunno(t)

    # -- methods
    def m_sort_values(self, t):
        by = strings(arg(t, 0, "by"))
        f = self(t[1])
        named, pos = kw(t)
        if by is None or set(named) - {"by", "kind", "ignore_index", "axis", "ascending", "na_position"}:
            self.dunno(t)
        if named.get("ascending", T.const(True)) != T.const(True):
            self.dunno(t, "the descending order of")
        kind = named.get("kind")
        if kind is not None and kind[0] != "str":
            self.dunno(t)
        stable = len(by) > 1 or kind is not None and kind[1] in ("stable", "mergesort")
        cols = tuple(f.cols.get(b, ("name", b)) for b in by)
        order = ((cols, stable),) + tuple(o for o in f.order if o[0] != cols) if stable else ((cols, False),)
        return f.but(order=order, index="seq" if named.get("ignore_index") == T.const(True) else f.index)

    def m_sort_index(self, t):
        f = self(t[1])
        if t[3] == (("ascending", T.FALSE),):
            return f.but(order=(((("reversed",),), True),))
        if t[3] or f.index != "rows":
            self.dunno(t)
        return f.but(order=())

    def m_filter(self, t):
        names = strings(arg(t, 0, "items"))
        f = self(t[1])
        if names is None:
            self.dunno(t)
        cols = {n: f.cols[n] for n in names if n in f.cols}
        if f.rest:
            cols.update({n: ("of", f.rest, n) for n in names if n not in f.cols})
        return f.but(cols=cols, rest=())

    def m_rename(self, t):
        m = pairs(arg(t, None, "columns"))
        if m is None or len(t[3]) != 1:
            self.dunno(t)
        f = self(t[1])
        cols = {m.get(n, n): v for n, v in f.cols.items()}
        for old, new in m.items():
            if old not in f.cols and f.rest:
                cols[new] = ("of", f.rest, old)
        return f.but(cols=cols)

    def m_replace(self, t):
        f = self(t[1])
        m = arg(t, 0, "to_replace")
        if m is None or len(t[3]) != 1:
            self.dunno(t)
        if m[0] == "dict" and len(m[1]) == 1 and m[1][0][0] == "kv" and m[1][0][1][0] == "str" and m[1][0][1][1] in f.cols:
            n = m[1][0][1][1]
            return f.but(cols={**f.cols, n: ("mapped", m[1][0][2], f.cols[n])})
        return f.but(cols={n: ("mapped", m, v) for n, v in f.cols.items()}, rest=tuple(("mapped", m, r) for r in f.rest))

    def m_drop(self, t):
        f = self(t[1])
        names = strings(arg(t, None, "columns"))
        if names is not None and len(t[3]) == 1:
            return f.but(cols={n: v for n, v in f.cols.items() if n not in names})
        a = arg(t, 0, "labels", "index")
        if a is not None and len(t[3]) == 1 and a[0] == "attr" and a[2] == "index" and f.index == "rows":
            g = self(a[1])
            more = g.preds - f.preds
            if g.base == f.base and g.index == "rows" and not (f.preds - g.preds) and len(more) == 1:
                (v, vals, yes), = more
                return f.but(preds=f.preds | {(v, vals, not yes)})
            if g.base == f.base and g.index == "rows" and len(g.preds) == 1:
                (v, vals, yes), = g.preds
                return f.but(preds=f.preds | {(v, vals, not yes)})
        self.dunno(t)

    def m_set_index(self, t):
        f = self(t[1])
        n = strings(arg(t, 0, "keys"))
        named, _ = kw(t)
        if n is None or len(n) != 1 or set(named) - {"keys", "drop"}:
            self.dunno(t)
        cols = dict(f.cols)
        v = cols.get(n[0], ("name", n[0]))
        if named.get("drop") != T.const(False):
            cols.pop(n[0], None)
        return f.but(cols=cols, index=("col", v))

    def m_reset_index(self, t):
        f = self(t[1])
        named, pos = kw(t)
        if pos or set(named) - {"drop"}:
            self.dunno(t)
        if named.get("drop") == T.const(True):
            return f.but(index="seq")
        if isinstance(f.index, tuple) and f.index[0] == "col":
            name = f.index[1][1] if f.index[1][0] in ("src", "name") else None
            if name is None:
                self.dunno(t)
            return f.but(index="seq", cols={**f.cols, name: f.index[1]})
        return f.but(index="seq", cols={**f.cols, "index": ("label",)})

    def m_assign(self, t):
        f = self(t[1])
        cols = dict(f.cols)
        for k, v in t[3]:
            if k == "":
                self.dunno(t)
            cols[k] = self.value(v, f, t)
        return f.but(cols=cols)

    def m_drop_duplicates(self, t):
        self.dunno(t)

    def m_join(self, t):
        other = arg(t, 0, "other")
        if other is None or len(t[3]) != 1:
            self.dunno(t)
        return self.beside([self(t[1]), self(other)], t)

    # -- side by side
    def concat(self, t):
        fs = arg(t, 0, "objs")
        axis = arg(t, 1, "axis")
        named, _ = kw(t)
        if fs is None or fs[0] not in ("list", "tuple") or set(named) - {"objs", "axis", "ignore_index"}:
            self.dunno(t)
        if axis is not None and axis in (T.num(1), ("str", "columns")) and "ignore_index" not in named and all(s[0] == "item" for s in fs[1]):
            return self.beside([self(s[1]) for s in fs[1]], t)
        return self.below(fs[1], axis, named, t)

    def below(self, segs, axis, named, t):
        self.dunno(t)

    def beside(self, fs, t):
        """Frames put side by side by their labels"""
        first = fs[0]
        cols, rest = {}, ()
        for f in fs:
            if f.base != first.base or f.preds != first.preds:
                self.dunno(t, "different rows side by side in")
            if f.index != first.index:
                self.misaligned(t)
            if f.index != "rows" and f.order != first.order:
                self.misaligned(t)
            if any(n in cols for n in f.cols):
                self.dunno(t, "a column twice in")
            cols.update(f.cols)
            rest += f.rest
        return first.but(cols=cols, rest=rest)

    def misaligned(self, t):
        from lib import fail
        fail("columns of differently ordered or numbered rows are put side by side: a row mixes different entries")

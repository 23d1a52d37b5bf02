"""Random regular expressions as trees, rendered both as POSIX ERE (for the
configuration) and as Python bytes regexes (the oracle), plus sampling."""
import re
from hypothesis import strategies as st

LITS = "abcdjxyz019 -_.:/;"
SPECIAL = set(".[]()*+?{}|^$\\")


def lit(c):
    return ["lit", c]


def word(s):
    return ["seq", [lit(c) for c in s]]


def asts(alphabet="abjx01-_. ", words=("jupiter", "mars", "disk", "web"), semicolon=False, at=False):
    chars = alphabet + (";" if semicolon else "") + ("@" if at else "")
    lits = st.sampled_from(chars).map(lit)
    words_ = st.sampled_from(words).map(word)
    anyc = st.just(["any"])
    cls = st.builds(lambda neg, cs: ["cls", neg, "".join(sorted(set(cs)))], st.booleans(),
                    st.lists(st.sampled_from("abjx01" + (";" if semicolon else "")), min_size=1, max_size=3))
    negsemi = st.just(["cls", True, ";"])
    atom = st.one_of(lits, words_, anyc, cls, negsemi)
    rep = st.builds(lambda a, op: ["rep", a, op], st.one_of(lits, anyc, cls, negsemi, words_),
                    st.sampled_from(["*", "+", "?", "{1,2}", "{2}"]))
    item = st.one_of(atom, atom, rep)
    seq = st.lists(item, min_size=1, max_size=4).map(lambda xs: ["seq", xs])
    alt = st.lists(seq, min_size=2, max_size=3).map(lambda xs: ["alt", xs])
    group = alt.map(lambda a: ["grp", a])
    seq2 = st.lists(st.one_of(item, group), min_size=1, max_size=3).map(lambda xs: ["seq", xs])
    star = st.just(["rep", ["any"], "*"])
    plus = st.just(["rep", ["any"], "+"])
    return st.one_of(words_, seq, alt, seq2, star, plus)


def _esc(c, py):
    if c in SPECIAL:
        return "\\" + c
    return c


def _cls(neg, cs):
    # inside a bracket expression: none of our characters is special except order of '-' and ']'
    body = "".join(c for c in cs if c != "-") + ("-" if "-" in cs else "")
    return "[" + ("^" if neg else "") + body + "]"


def ere(a):
    k = a[0]
    if k == "lit":
        return _esc(a[1], False)
    if k == "any":
        return "."
    if k == "cls":
        return _cls(a[1], a[2])
    if k == "seq":
        return "".join("(" + ere(x) + ")" if x[0] == "alt" else ere(x) for x in a[1])
    if k == "alt":
        return "|".join(ere(x) for x in a[1])
    if k == "grp":
        return "(" + ere(a[1]) + ")"
    if k == "rep":
        s = ere(a[1])
        if a[1][0] in ("seq", "alt"):
            s = "(" + s + ")"
        return s + a[2]
    raise ValueError(k)


def py(a):
    k = a[0]
    if k == "lit":
        return re.escape(a[1])
    if k == "any":
        return "."
    if k == "cls":
        return _cls(a[1], a[2])
    if k == "seq":
        return "".join("(?:" + py(x) + ")" for x in a[1])
    if k == "alt":
        return "|".join("(?:" + py(x) + ")" for x in a[1])
    if k == "grp":
        return "(?:" + py(a[1]) + ")"
    if k == "rep":
        return "(?:" + py(a[1]) + ")" + a[2]
    raise ValueError(k)


_cache = {}


def compiled(a):
    s = py(a)
    if s not in _cache:
        if len(_cache) > 5000:
            _cache.clear()
        _cache[s] = re.compile(s.encode("latin-1"), re.DOTALL)
    return _cache[s]


def fullmatch(a, b):
    return compiled(a).fullmatch(b) is not None


def sample(draw, a):
    """A string of the language, with draw(strategy) as the source of choices."""
    k = a[0]
    if k == "lit":
        return a[1]
    if k == "any":
        return draw(st.sampled_from("aj0 x;@"))
    if k == "cls":
        pool = [c for c in "abjxk01 ;-"] if a[1] else list(a[2])
        pool = [c for c in pool if (c in a[2]) != a[1]] or ["z"]
        return draw(st.sampled_from(pool))
    if k == "seq":
        return "".join(sample(draw, x) for x in a[1])
    if k == "alt":
        return sample(draw, draw(st.sampled_from(a[1])))
    if k == "grp":
        return sample(draw, a[1])
    if k == "rep":
        lo, hi = {"*": (0, 3), "+": (1, 3), "?": (0, 1), "{1,2}": (1, 2), "{2}": (2, 2)}[a[2]]
        n = draw(st.integers(lo, hi))
        return "".join(sample(draw, a[1]) for _ in range(n))
    raise ValueError(k)


@st.composite
def samples(draw, a):
    return sample(draw, a)

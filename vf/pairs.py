"""Pairs of answers with known verdicts, from the generators of all comparison properties."""
from hypothesis import strategies as st


def kinds():
    from vf.checks import E02, E03, E04, E05, E06, E07, E08, E09
    return {
        "number": st.one_of(E02.same(), E02.differ(), E02.rounding().filter(bool), E02.arith_pair()),
        "expression": st.one_of(E03.equal().filter(bool), E03.different().filter(bool)),
        "collection": E04.case().filter(bool),
        "interval": E05.case().filter(bool),
        "matrix": E06.case().filter(bool),
        "relation": st.one_of(E07.rel_case().filter(bool), E07.def_case().filter(bool), E07.ne_case().filter(bool)),
        "decorated": st.one_of(E08.unit_case().filter(bool), E08.percent_case().filter(bool), E08.degree_case().filter(bool),
                               E08.base_case().filter(bool), E08.time_case().filter(bool), E08.money_case().filter(bool)),
        "complex": st.one_of(E09.pair_case().filter(bool), E09.list_case().filter(bool)),
    }


_k = None


def kind(name):
    global _k
    if _k is None:
        _k = kinds()
    return _k[name]


EXACT = ["expression", "collection", "interval", "matrix", "relation", "complex"]
ALL = ["number"] + EXACT + ["decorated"]


@st.composite
def pair(draw, names=None):
    n = draw(st.sampled_from(names or ALL))
    c = draw(kind(n))
    return {"a": c["a"], "b": c["b"], "want": c["want"], "src": n}

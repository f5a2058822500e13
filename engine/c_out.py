"""Printing: reads the object it prints and nothing outside it, changes nothing, and writes to its own stream only.
The text itself is left open."""
from spec import *
from c_frame import frame, NAME

P = ('C02',)


def stream(c):
    return Ptr(c.st.new_region('the stream', 'param', 272))


def strings(c):
    n = c.uint('n_strings')
    f = c.E.uf('strings', I, STR)
    p = Ptr(c.st.new_region('strings', 'param', 24))
    c.st.write(p, Vec(n, Arr(fn=lambda i: f(ex(i))), NAME, 32))
    return p


def printer(name, pattern, inputs, streams=(), result=None):
    """streams: the standard streams the function may write to (others take the stream as their first argument)"""
    contract(name, pattern, inputs=inputs, props=P, site=False)(lambda E, st, a: ret(st, a[result] if result is not None else None))
    REG[-1].streams = streams


printer('Serie::dump', r'^df::Serie::dump\(\) const$', lambda c: [c.serie('s')], ('cerr',))
printer('print(Array)', r'^df::print\(std::vector<double, A> const&\)$', lambda c: [c.array('v', small=True)], ('cerr',))
printer('operator<<(Serie)', r'^df::operator<<\(std::ostream&, df::Serie const&\)$', lambda c: [stream(c), c.serie('s', tail=True)], result=0)
printer('operator<<(Series)', r'^df::operator<<\(std::ostream&, std::vector<df::Serie, A> const&\)$', lambda c: [stream(c), c.series('list')], result=0)
printer('operator<<(Array)', r'^operator<<\(std::ostream&, std::vector<double, A> const&\)$', lambda c: [stream(c), c.array('v')], result=0)
printer('operator<<(Strings)', r'^operator<<\(std::ostream&, std::vector<std::basic_string', lambda c: [stream(c), strings(c)], result=0)
printer('utils::print', r'^df::utils::print\(df::Serie const&\)$', lambda c: [c.serie('s')], ('cout',))
printer('Dataframe::dump', r'^df::Dataframe::dump\(\) const$', lambda c: [frame(c)], ('cerr',))

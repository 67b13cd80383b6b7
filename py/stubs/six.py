"""The part of six that posidonius uses (six is not installed here)."""


def iteritems(d, **kw):
    return iter(d.items(**kw))


def iterkeys(d, **kw):
    return iter(d.keys(**kw))


def itervalues(d, **kw):
    return iter(d.values(**kw))


string_types = (str,)
integer_types = (int,)
text_type = str
PY2, PY3 = False, True

"""Resource versions, which are opaque: no order of theirs means anything."""

_MANY = 1009
_BY_VERSION = {}


def version(n):
    """The server's n-th version; neither rising as a number nor as a string."""
    v = str(n * 367 % _MANY + 95) if n < _MANY else f"{n}x"
    _BY_VERSION[v] = n
    return v


def number(v):
    return _BY_VERSION[v]

"""What harness files import; no solver here (also used in concrete replay)."""


class Case:
    """One harness entry: fn(h, **params) explored over all its symbolic inputs."""

    def __init__(self, name, fn, params=None, bounds='', reach=(), steps=200000):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.bounds = bounds
        self.reach = tuple(reach)
        self.steps = steps

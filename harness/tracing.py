"""Hooks that record what agents do, without depending on how Flee does it."""


class Recorder:
    """Data descriptor that reports assignments of one attribute."""

    def __init__(self, member, name, callback):
        self.member = member
        self.name = name
        self.callback = callback

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        if self.member is not None:
            return self.member.__get__(obj, owner)
        try:
            return obj.__dict__[self.name]
        except KeyError:
            raise AttributeError(self.name) from None

    def __set__(self, obj, value):
        try:
            old = self.__get__(obj, type(obj))
            had = True
        except AttributeError:
            old, had = None, False
        if self.member is not None:
            self.member.__set__(obj, value)
        else:
            obj.__dict__[self.name] = value
        self.callback(obj, had, old, value)

    def __delete__(self, obj):
        if self.member is not None:
            self.member.__delete__(obj)
        else:
            del obj.__dict__[self.name]


def watch(cls, name, callback):
    """Report every assignment to attribute `name` of instances of `cls`."""
    for c in cls.__mro__:
        if name in c.__dict__:
            setattr(c, name, Recorder(c.__dict__[name], name, callback))
            return
    setattr(cls, name, Recorder(None, name, callback))


def is_link(x):
    return hasattr(x, "startpoint") and hasattr(x, "endpoint")


class Movement:
    """Online monitor of agent movement; subclasses override the event methods."""

    def __init__(self, mod, mon):
        self.mon = mon
        self.serial = {}
        self.order = []
        watch(mod.Person, "location", self._on_location)

    def ident(self, a):
        k = id(a)
        if k not in self.serial:
            self.serial[k] = len(self.serial)
            self.order.append(a)  # keep it alive so that ids stay unique
        return self.serial[k]

    def _on_location(self, a, had, old, new):
        n = self.ident(a)
        if not had:
            self.created(n, a, new)
        elif new is not old:
            self.moved(n, a, old, new)

    def created(self, n, a, loc):
        pass

    def moved(self, n, a, old, new):
        pass

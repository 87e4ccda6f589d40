"""Uses of the cache utilities."""
import sa_mark


def find(f):
    return f()


def findn(f):
    return f(None)


def findp(f, base):
    return f(base)


def findk(f, base):
    return f(cache_base_dir=base)


def get(f):
    return f()


def get1(f, name):
    return f(name)


def getk(f, name):
    return f(name=name)


def get2(f, name, base):
    return f(name, base)


def get2k(f, name, base):
    return f(cache_base_dir=base, name=name)


def get3(f, name, base, create):
    return f(name, base, create)


def get3k(f, name, base, create):
    return f(create=create, name=name, cache_base_dir=base)


def getc(f, name, create):
    return f(name, create=create)


def twice(f, name, base):
    a = f(name, base)
    sa_mark.os()
    return a, f(name, base)


def findtwice(f):
    a = f()
    sa_mark.os()
    return a, f()

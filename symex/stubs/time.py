# Clock: the harness sets WORLD (see symex/harness.py), time is whatever the harness says
WORLD = None

def monotonic():
    return WORLD.monotonic()

def monotonic_ns():
    return WORLD.monotonic_ns()

def localtime():
    return None

def sleep(s):
    pass

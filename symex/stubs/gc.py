WORLD = None

def collect():
    pass

def mem_free():
    return WORLD.mem_free

def mem_alloc():
    return 0

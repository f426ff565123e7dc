TIMEOUTS = []

def set_timeout(callback, ms):
    TIMEOUTS.append((callback, ms))

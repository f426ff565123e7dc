import hwsim as _hw

def disable_autoreload():
    _hw.CALLS.append(("disable_autoreload",))

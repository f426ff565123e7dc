import hwsim as _hw

class Font:
    def __init__(self, path):
        self.path = path

def load_font(path):
    _hw.CREATED.append(("font", path, None))
    return Font(path)

class Group:
    def __init__(self, scale = 1, x = 0, y = 0):
        self.scale = scale
        self.x = x
        self.y = y
        self.content = []

    def append(self, el):
        self.content.append(el)


class FourWire:
    def __init__(self, *a, **k):
        pass


def release_displays():
    pass

import hwsim as _hw

class NeoPixel:
    """LED array: the colours set last"""
    def __init__(self, pin, n):
        self.pin = pin
        self.n = n
        self.data = [(0, 0, 0)] * n
        _hw.PIXELS.append(self)

    def __setitem__(self, i, v):
        if not 0 <= i < self.n:
            raise IndexError("index out of range")
        if len(v) != 3:
            raise ValueError("Expected tuple of length 3")
        self.data[i] = v

    def __getitem__(self, i):
        return self.data[i]

    def __len__(self):
        return self.n

import hwsim as _hw

class IncrementalEncoder:
    def __init__(self, pin_a, pin_b, divisor = 4):
        self.pins = (pin_a.name, pin_b.name)
        self.divisor = divisor
        _hw.CREATED.append(("encoder", self.pins, self))

    @property
    def position(self):
        return _hw.ENCODER.get(self.pins, 0)

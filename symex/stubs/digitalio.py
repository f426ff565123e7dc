import hwsim as _hw

class Direction:
    INPUT = "in"
    OUTPUT = "out"

class Pull:
    UP = "up"
    DOWN = "down"

class DigitalInOut:
    def __init__(self, pin):
        if pin.name in _hw.BUSY:
            raise ValueError(pin.name + " in use")
        self.pin = pin
        self.direction = None
        self.pull = None
        _hw.CREATED.append(("digital", pin, self))

    @property
    def value(self):
        if _hw.on_read:
            _hw.on_read(self.pin.name)
        level = _hw.LEVEL.get(self.pin.name, _hw.DEFAULT_LEVEL)
        if self.direction != Direction.INPUT or self.pull != Pull.UP:
            return False        # a floating input
        return level

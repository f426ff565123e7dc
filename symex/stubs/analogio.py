import hwsim as _hw

class AnalogIn:
    def __init__(self, pin):
        self.pin = pin
        _hw.CREATED.append(("analog", pin, self))

    @property
    def value(self):
        return _hw.ANALOG.get(self.pin.name, 0)

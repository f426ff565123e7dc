import hwsim as _hw

class UART(_hw.Port):
    def __init__(self, tx = None, rx = None, baudrate = 9600, timeout = 1):
        _hw.Port.__init__(self, "DIN")
        self.pins = (tx.name, rx.name)
        self.baudrate = baudrate
        self.timeout = timeout
        _hw.CREATED.append(("uart", self.pins, self))

class SPI:
    def __init__(self, clock, MOSI = None, MISO = None):
        self.pins = (clock.name, MOSI.name)
        self.locked = False
        self.baudrate = None
        _hw.CREATED.append(("spi", self.pins, self))

    def try_lock(self):
        if self.locked:
            return False
        self.locked = True
        return True

    def unlock(self):
        self.locked = False

    def configure(self, baudrate = 100000):
        if not self.locked:
            raise RuntimeError("Function requires lock")
        self.baudrate = baudrate

import hwsim as _hw

class ST7789:
    def __init__(self, bus, width, height, rowstart = 0, rotation = 0):
        self.bus = bus
        self.width = width
        self.height = height
        self.rowstart = rowstart
        self.rotation = rotation
        _hw.CREATED.append(("display", (width, height, rowstart, rotation), self))

    def show(self, splash):
        _hw.SHOWN.append(splash)

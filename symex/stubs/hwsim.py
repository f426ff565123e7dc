"""State of the simulated hardware (set and read by the harness); one instance per module universe"""

LEVEL = {}          # digital pins: name -> level, True is high (default: high)
ANALOG = {}         # analog pins: name -> value
ENCODER = {}        # (pin, pin) -> position
BUSY = ()           # pins which cannot be used as inputs
CREATED = []        # every driver object created, in order
PIXELS = []         # NeoPixel arrays
SHOWN = []          # splashes shown
CALLS = []          # calls of storage, supervisor
DEFAULT_LEVEL = True


class Port:
    """MIDI port on message level; on_idle is called when there is no message waiting"""
    def __init__(self, name):
        self.name = name
        self.queue = []
        self.sent = []

    def take(self):
        if not self.queue and on_idle:
            on_idle(self)
        if self.queue:
            return self.queue.pop(0)
        return None

    def put(self, msg):
        self.sent.append(msg)
        if on_send:
            on_send(self, msg)


on_idle = None
on_read = None      # called when a digital pin is read
on_send = None

"""The whole firmware as it is started on the device (code.py -> pyswitch.process), on simulated hardware

The scenario is a generator: it is resumed whenever the firmware polls MIDI and no message is waiting, and ends the
endless loop when it is done.
"""
import os
from symex import loader as L
from .common import flat_splash


def configurations():
    """All shipped configurations: name -> {module: path without extension}"""
    base = os.path.join(L.REPO, "content")
    std = {n: os.path.join(base, n) for n in ("config", "communication", "display", "inputs")}
    ret = {"default": dict(std)}
    ex = os.path.join(L.REPO, "examples")
    for d, dirs, files in os.walk(ex):
        dirs.sort()
        if any(f in ("inputs.py", "communication.py", "display.py") for f in files):
            c = dict(std)
            for n in c:
                if n + ".py" in files:
                    c[n] = os.path.join(d, n)
            ret[os.path.relpath(d, ex)] = c
    return ret


class Stop(BaseException):
    pass


class Firmware:
    def __init__(self, s, config, options = None):
        """config: name of a shipped configuration, options: entries set in the Config"""
        self.s = s
        for n, p in configurations()[config].items():
            s.U.roots.append((n, p))
        self.hw = s.load("hwsim")
        self.CC = s.obj("adafruit_midi.control_change:ControlChange")
        self.PC = s.obj("adafruit_midi.program_change:ProgramChange")
        self.SX = s.obj("adafruit_midi.system_exclusive:SystemExclusive")
        self.Message = s.obj("adafruit_midi.midi_message:MIDIMessage")
        if options:
            s.load("config").Config.update(options)
        self.sent = []
        self.hw.on_send = lambda port, msg: self.sent.append((port, msg))

    def run(self, scenario):
        gen = scenario(self)

        def idle(port):
            self.port = port
            try:
                next(gen)
            except StopIteration:
                raise Stop()
        self.hw.on_idle = idle
        try:
            self.s.load("pyswitch.process")
        except Stop:
            return
        self.s.unreachable("loop-ended")

    # -------- connected device: messages as tuples ("CC", control, value), ("PC", patch), ("SX", manufacturer, data)

    def connect(self, receiver):
        """receiver is called with every message sent"""
        def on_send(port, m):
            if isinstance(m, self.CC):
                receiver(("CC", m.control, m.value))
            elif isinstance(m, self.PC):
                receiver(("PC", m.patch))
            elif isinstance(m, self.SX):
                receiver(("SX", list(m.manufacturer_id), list(m.data)))
            else:
                receiver(("?",))
        self.hw.on_send = on_send

    def give(self, m):
        """The device sends a message"""
        self.receive(self.CC(m[1], m[2]) if m[0] == "CC" else self.PC(m[1]) if m[0] == "PC" else self.SX(m[1], m[2]))

    def pixels(self):
        return self.hw.PIXELS[0].data

    def elements(self):
        return flat_splash(self.s, self.hw.SHOWN[-1])

    def module(self, name):
        return self.s.load(name)

    # -------- hardware

    def inputs(self):
        """Pins of the digital, analog and encoder inputs in use"""
        ret = {"digital": [], "analog": [], "encoder": []}
        for kind, pin, o in self.hw.CREATED:
            if kind in ret:
                n = pin if kind == "encoder" else pin.name
                if n not in ret[kind]:
                    ret[kind].append(n)
        return ret

    def receive(self, msg):
        self.port.queue.append(msg)

    def nrpn(self, page, num, v, fn = 1):
        self.receive(self.SX([0, 0x20, 0x33], [0, 0, fn, 0, page, num, v >> 7, v & 127]))

    def string(self, page, num, codes, fn = 3):
        self.receive(self.SX([0, 0x20, 0x33], [0, 0, fn, 0, page, num] + list(codes) + [0]))

    def sense(self):
        """The Profiler announces itself (bidirectional protocol)"""
        self.receive(self.SX([0, 0x20, 0x33], [0, 0, 0x7e, 0, 0x7f, 0]))

    def push(self, pin, pressed):
        self.hw.LEVEL[pin] = not pressed

    def take(self):
        r = self.sent
        self.sent = []
        return r

    # -------- well formed output

    def bytes7(self, xs):
        s = self.s
        return s.And(*[s.And(x >= 0, x <= 127) for x in xs])

    def check_output(self):
        s = self.s
        for port, m in self.take():
            if isinstance(m, self.CC):
                s.check(self.bytes7([m.control, m.value]), "control-change")
            elif isinstance(m, self.PC):
                s.check(self.bytes7([m.patch]), "program-change")
            elif isinstance(m, self.SX):
                s.check(self.bytes7(list(m.manufacturer_id) + list(m.data)), "system-exclusive")
            else:
                # Raw data
                s.check(isinstance(m, self.Message), "message-type", lambda: "%s" % (m,))
                b = list(m.__bytes__())
                s.check(len(b) > 0 and s.And(b[0] >= 0x80, b[0] <= 255), "status-byte", lambda: "%s" % b)
                if b[-1] == 0xf7:
                    b = b[:-1]
                s.check(self.bytes7(b[1:]), "data-bytes", lambda: "%s" % b)
        for px in self.hw.PIXELS:
            for c in px.data:
                s.check(s.And(*[s.And(x >= 0, x <= 255) for x in c]), "led", lambda: "%s" % (c,))

    def check_display(self):
        """Everything on the screen is drawable"""
        s = self.s
        Rect = s.obj("adafruit_display_shapes.rect:Rect")
        s.check(len(self.hw.SHOWN) > 0, "display-shown")
        for x, y, e in flat_splash(s, self.hw.SHOWN[-1]):
            cols = [e.fill, e.outline] if isinstance(e, Rect) else [e.color]
            for c in cols:
                if c is None or isinstance(c, int):
                    continue
                s.check(len(c) == 3 and s.And(*[s.And(v >= 0, v <= 255) for v in c]), "display-colour", lambda: "%s" % (c,))
            if not isinstance(e, Rect):
                s.check(isinstance(e.text, str) or hasattr(e.text, "parts"), "display-text")

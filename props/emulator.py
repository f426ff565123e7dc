"""The firmware in the web emulator: the Python part of the web application, on a stand-in for the page"""
import os
import types
from symex import loader as L
from .firmware import configurations

NS = "dev"
WEB = os.path.join(L.REPO, "web/htdocs/python")
PINS = ["GP%d" % i for i in range(29)]


def codec(s):
    """Use the MIDI codec of the emulator instead of the message level stand-in"""
    s.U.roots.insert(0, ("adafruit_midi", os.path.join(WEB, "adafruit_midi")))
    s.U.roots.append(("wrappers", os.path.join(WEB, "wrappers")))
    s.U.roots.append(("mocks", os.path.join(WEB, "mocks")))
    s.U.roots.append(("PySwitchRunner", os.path.join(WEB, "PySwitchRunner")))
    shim = types.ModuleType("sys")
    shim.__dict__.update(L.sys.__dict__)
    shim.modules = s.U.modules
    s.U.set_module("sys", shim)
    return s.load("js")


class Client:
    """JavaScript client: delivers the code which generates the protocol"""
    def __init__(self, s, protocol):
        self.s = s
        self.protocol = protocol
        self.modules = None

    def getProtocolCode(self):
        self.modules = dict(self.s.U.modules)       # the modules the firmware uses (sys.modules is restored afterwards)
        if not self.protocol:
            return None
        return "from pyswitch.clients.kemper import KemperBidirectionalProtocol\nself.protocol = KemperBidirectionalProtocol(time_lease_seconds = 30)\n"


class Config(dict):
    def to_py(self):
        return dict(self)


class Settings:
    pass


class Levels(dict):
    """Switch levels by pin, as attributes of the page"""
    def __init__(self, js):
        self.js = js

    def __setitem__(self, pin, level):
        self.js.document.elements[NS + "-switch-gp" + pin[2:]].dataset.pushed = "false" if level else "true"


class Encoders(dict):
    def __init__(self, js):
        dict.__init__(self)
        self.js = js

    def __setitem__(self, pins, pos):
        dict.__setitem__(self, pins, pos)
        self.js.document.elements[NS + "-encoder-gp" + pins[0][2:]].dataset.position = pos


class Emulator:
    """Same interface as Firmware"""
    def __init__(self, s, config, options = None, in_channel = None, out_channel = None, protocol = True):
        self.s = s
        self.js = codec(s)
        for n, p in configurations()[config].items():
            if n in ("inputs", "display"):
                s.U.roots.append((n, p))
        els = self.js.document.elements
        for p in PINS:
            for k in ("switch", "potentiometer", "encoder"):
                els["%s-%s-gp%s" % (NS, k, p[2:])] = self.js.Element()
        for i in range(30):
            els["%s-led-%d" % (NS, i)] = self.js.Element()
        els[NS + "-display"] = self.js.Element()
        self.options = options or {}
        self.settings = Settings()
        if in_channel is not None:
            self.settings.inChannel = in_channel
        if out_channel is not None:
            self.settings.outChannel = out_channel
        self.client = Client(s, protocol)
        self.hw = types.SimpleNamespace(LEVEL = Levels(self.js), ENCODER = Encoders(self.js), on_send = None)
        self.midi = self.js.externalRefs.midiWrapper

    def module(self, name):
        """The modules in use by the firmware"""
        return self.client.modules[name]

    def run(self, scenario, ticks = None):
        s = self.s
        runner = s.obj("PySwitchRunner:PySwitchRunner")(container_id = "c", dom_namespace = NS, coverage = False)
        self.runner = runner
        timeouts = s.load("pyodide.ffi.wrappers").TIMEOUTS
        gen = scenario(self)
        runner.run(240, 240, self.client, Config(self.options), self.settings)
        for _ in gen:
            # The browser calls the tick scheduled last
            s.check(len(timeouts) == 1, "next-tick-scheduled")
            timeouts.pop()[0]()

    # -------- LEDs and screen

    def pixels(self):
        return [self.js.document.elements["%s-led-%d" % (NS, i)].dataset.color for i in range(30)]

    def elements(self):
        def flat(g, x = 0, y = 0):
            ret = []
            for e in g:
                ret += flat(e, x + e.x, y + e.y) if isinstance(e, list) else [(x, y, e)]
            return ret
        g = self.runner.display_driver.tft.splash
        return flat(g)

    def drawn(self):
        """What is on the canvas: everything after the last clear"""
        d = self.js.document.elements[NS + "-display"].drawn
        i = max(i for i, e in enumerate(d) if e == ("rect", 0, 0, 240, 240, "black"))
        ret = d[i + 1:]
        del d[:i]
        return ret

    # -------- connected device: messages as tuples

    def connect(self, receiver):
        def on_send(b):
            k = b[0] & 0xf0
            if k == 0xb0 and len(b) == 3:
                receiver(("CC", b[1], b[2]))
            elif k == 0xc0 and len(b) == 2:
                receiver(("PC", b[1]))
            elif b[0] == 0xf0 and b[-1] == 0xf7 and b[1] == 0:
                receiver(("SX", b[1:4], b[4:-1]))
            else:
                receiver(("?", b))
        self.midi.on_send = on_send

    def give(self, m):
        self.midi.messageQueue.append([0xb0, m[1], m[2]] if m[0] == "CC" else [0xc0, m[1]] if m[0] == "PC" else [0xf0] + m[1] + m[2] + [0xf7])

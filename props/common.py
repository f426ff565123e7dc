"""Environment models shared by the harnesses (run in symbolic and in concrete mode)."""


def job(prop_fn, name = None, expect = (), path_seconds = 20, **params):
    n = name or prop_fn.__name__
    if params and name is None:
        n += "[" + ",".join("%s=%s" % (k, getattr(v, "__name__", v)) for k, v in params.items()) + "]"
    return {"fn": prop_fn, "name": n, "params": params, "expect": list(expect), "path_seconds": path_seconds}


class Midi:
    """MIDI port: records a snapshot of everything sent, delivers a queue of messages"""

    def __init__(self, s):
        self.s = s
        self.CC = s.obj("adafruit_midi.control_change:ControlChange")
        self.PC = s.obj("adafruit_midi.program_change:ProgramChange")
        self.SX = s.obj("adafruit_midi.system_exclusive:SystemExclusive")
        self.Unknown = s.obj("adafruit_midi.midi_message:MIDIUnknownEvent")
        self.sent = []
        self.queue = []
        self.receive_calls = 0
        self.on_receive = None
        self.raw = []

    def snap(self, m):
        if isinstance(m, self.CC):
            return ("CC", m.control, m.value)
        if isinstance(m, self.PC):
            return ("PC", m.patch)
        if isinstance(m, self.SX):
            return ("SX", tuple(m.manufacturer_id), tuple(m.data))
        return ("?", type(m).__name__)

    def send(self, m):
        self.raw.append(m)
        x = self.snap(m)
        self.sent.append(x)
        self.s.observe("sent", flat(x))

    def receive(self):
        self.receive_calls += 1
        if self.on_receive:
            self.on_receive()
        if self.queue:
            return self.queue.pop(0)
        return None

    def take(self):
        r = self.sent
        self.sent = []
        return r


def flat(x):
    ret = []
    for v in x:
        if isinstance(v, (tuple, list)):
            ret += flat(v)
        else:
            ret.append(v)
    return ret


class SwitchModel:
    """Foot switch hardware"""
    def __init__(self):
        self.pushed = False

    def init(self):
        pass


class PotModel:
    def __init__(self):
        self.value = 0

    def init(self):
        pass


class EncoderModel:
    def __init__(self):
        self.position = 0

    def init(self):
        pass


class LedDriver:
    def __init__(self):
        self.leds = None

    def init(self, num):
        self.leds = [None for i in range(num)]


class Listener:
    """Client request listener"""
    def __init__(self, s = None, name = ""):
        self.values = []
        self.changed = 0
        self.terminated = 0
        self.log = []

    def parameter_changed(self, mapping):
        self.changed += 1
        self.values.append(mapping.value)
        self.log.append(("changed", mapping))

    def request_terminated(self, mapping):
        self.terminated += 1
        self.log.append(("terminated", mapping))


class Protocol:
    """Minimal bidirectional protocol: all mappings are bidirectional"""
    def __init__(self, bidirectional = True):
        self.all = bidirectional

    def init(self, midi, client):
        pass

    def is_bidirectional(self, mapping):
        return self.all

    def feedback_value(self, mapping):
        return self.all

    def update(self):
        pass

    def receive(self, midi_message):
        return False

    def get_color(self):
        return (0, 0, 0)


class Label:
    """Recording stand-in for a DisplayLabel"""
    def __init__(self):
        self.text = ""
        self.back_color = (0, 0, 0)
        self.text_color = None
        self.override_text = None
        self.updates = 0

    def update_label(self):
        self.updates += 1


class EnableCallback:
    """Enable callback whose answer the harness controls"""
    def __init__(self, state = True):
        self.state = state

    def init(self, appl):
        pass

    def enabled(self, action):
        return self.state


def controller(s, inputs = (), config = None, protocol = None, ui = None, midi = None):
    """The real application controller on top of the modelled hardware"""
    Controller = s.obj("pyswitch.controller.controller:Controller")
    midi = midi or Midi(s)
    led = LedDriver()
    appl = Controller(
        led_driver = led,
        midi = midi,
        protocol = protocol,
        config = config if config is not None else {},
        inputs = list(inputs),
        ui = ui
    )
    appl.test_midi = midi
    return appl


def generic_mapping(s, kind, name = "M", response = True, request = False, set = True, n = 0):
    """A CC or NRPN parameter"""
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    CC = s.obj("adafruit_midi.control_change:ControlChange")
    PC = s.obj("adafruit_midi.program_change:ProgramChange")
    SX = s.obj("adafruit_midi.system_exclusive:SystemExclusive")
    man = [0x00, 0x20, 0x33]
    if kind == "cc":
        return C.get(
            name = name,
            set = CC(20 + n, 0) if set else None,
            request = SX(man, [2, 0x7f, 0x41, 0, 4, n]) if request else None,
            response = CC(20 + n, 0) if response else None
        )
    if kind == "pc":
        return C.get(name = name, set = PC(0) if set else None, response = PC(0) if response else None)
    return C.get(
        name = name,
        set = SX(man, [2, 0x7f, 0x01, 0, 4, n]) if set else None,
        request = SX(man, [2, 0x7f, 0x41, 0, 4, n]) if request else None,
        response = SX(man, [2, 0x7f, 0x01, 0, 4, n]) if response else None
    )


# ---------------------------------------------------------------- all shipped parameters

def kemper_factories(s):
    """All parameter factories of the Kemper client: list of (module, name, args) (real code, found by inspection)"""
    import inspect
    from symex import loader as L
    import os
    d = os.path.join(L.REPO, "content", "lib", "pyswitch", "clients", "kemper", "mappings")
    if not os.path.isdir(d):
        d = os.path.join(L.REPO, "clients", "kemper", "mappings")
    ret = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f.startswith("_"):
            continue
        modname = "pyswitch.clients.kemper.mappings." + f[:-3]
        m = s.load(modname)
        for n in sorted(vars(m)):
            fn = vars(m)[n]
            if not n.startswith("MAPPING_") or not callable(fn) or getattr(fn, "__module__", "") != modname:
                continue
            ret += [(modname, n, fn, a) for a in _args(fn)]
    k = s.load("pyswitch.clients.kemper").KemperMappings
    for n in sorted(vars(k)):
        if n.startswith("_"):
            continue
        fn = getattr(k, n)
        ret += [("pyswitch.clients.kemper", n, fn, a) for a in _args(fn)]
    return ret


def _args(fn):
    import inspect
    ps = [p for p in inspect.signature(fn).parameters.values() if p.default is p.empty]
    if not ps:
        return [()]
    ranges = {"slot_id": range(10), "num": range(1, 5), "rig": range(5)}
    if len(ps) == 1 and ps[0].name in ranges:
        return [(i,) for i in ranges[ps[0].name]]
    return []


# ---------------------------------------------------------------- display

class Display:
    """Display driver and font loader; .shown is the splash shown last"""
    def __init__(self, width = 240, height = 240):
        self.width = width
        self.height = height
        self.tft = self
        self.shown = None
        self.shows = 0

    def show(self, splash):
        self.shown = splash
        self.shows += 1

    def get(self, path):
        return path


def flat_splash(s, group):
    """All elements of a splash in drawing order, as (x, y, element): absolute position of the group containing it"""
    Group = s.obj("displayio:Group")
    ret = []
    for e in group.content:
        if isinstance(e, Group):
            ret += [(x + e.x, y + e.y, el) for x, y, el in flat_splash(s, e)]
        else:
            ret.append((0, 0, e))
    return ret


def splash_rects(s, group):
    Rect = s.obj("adafruit_display_shapes.rect:Rect")
    return [e for x, y, e in flat_splash(s, group) if isinstance(e, Rect)]


def splash_texts(s, group):
    T = s.obj("adafruit_display_text.label:Label")
    return [e for x, y, e in flat_splash(s, group) if isinstance(e, T)]

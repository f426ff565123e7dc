"""Runs the firmware on stand-ins for the hardware libraries (cwd must be the repository)."""
import os
import sys
import types
import time
import re
import typing
import functools
import traceback
import importlib.util

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "content", "lib"))


class Clock:
    ms = 1000000

clock = Clock()
time.monotonic = lambda: (clock.ms + 0.5) / 1000


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    if "." in name:
        p, n = name.rsplit(".", 1)
        if p not in sys.modules:
            module(p)
        setattr(sys.modules[p], n, m)
    return m


class MIDIMessage:
    _STATUS = 0

    @staticmethod
    def register_message_type():
        pass

class MIDIUnknownEvent(MIDIMessage):
    _STATUS = None

    def __init__(self, status = 0):
        self.status = status

class CC(MIDIMessage):
    _STATUS = 0xb0

    def __init__(self, control, value, channel = None):
        self.control, self.value = control, value

class PC(MIDIMessage):
    _STATUS = 0xc0

    def __init__(self, patch, channel = None):
        self.patch = patch

class SX(MIDIMessage):
    _STATUS = 0xf0

    def __init__(self, manufacturer_id, data):
        self.manufacturer_id, self.data = bytes(manufacturer_id), bytes(data)

class Group:
    def __init__(self, scale = 1, x = 0, y = 0):
        self.content = []

    def append(self, x):
        self.content.append(x)

class Bag:
    def __init__(self, *a, **k):
        self.__dict__.update(k)

class Keyboard:
    log = []

    def __init__(self, devices):
        pass

    def send(self, *codes):
        Keyboard.log.append(codes)

module("micropython", const = lambda x: x)
module("displayio", Group = Group)
module("adafruit_display_text", label = types.SimpleNamespace(Label = Bag), wrap_text_to_pixels = lambda t, w, f: [t])
module("adafruit_display_shapes.rect", Rect = Bag)
module("adafruit_midi.midi_message", MIDIMessage = MIDIMessage, MIDIUnknownEvent = MIDIUnknownEvent)
module("adafruit_midi.control_change", ControlChange = CC)
module("adafruit_midi.program_change", ProgramChange = PC)
module("adafruit_midi.system_exclusive", SystemExclusive = SX)
module("gc", collect = lambda: None, mem_free = lambda: 100000, mem_alloc = lambda: 1000)
module("usb_hid", devices = [])
module("adafruit_hid.keyboard", Keyboard = Keyboard)


def snap(m):
    if isinstance(m, CC):
        return ("CC", m.control, m.value)
    if isinstance(m, PC):
        return ("PC", m.patch)
    if isinstance(m, SX):
        return ("SX", list(m.manufacturer_id), list(m.data))
    return ("RAW", list(m.__bytes__()))


class Midi:
    def __init__(self):
        self.sent, self.queue = [], []

    def send(self, m):
        self.sent.append(snap(m))

    def receive(self):
        return self.queue.pop(0) if self.queue else None

    def take(self):
        r, self.sent = self.sent, []
        return r


class Switch:
    pushed = False

    def init(self):
        pass

class Pot:
    value = 0

    def init(self):
        pass

class Encoder:
    position = 0

    def init(self):
        pass

class Leds:
    def init(self, n):
        self.leds = [None] * n

class Label:
    def __init__(self):
        self.text, self.back_color, self.text_color, self.override_text = "", (0, 0, 0), (9, 9, 9), None

    def update_label(self):
        pass

class Bidirectional:
    """Protocol which gives immediate feedback (yes) or none"""
    def __init__(self, yes = True):
        self.yes = yes

    def init(self, midi, client):
        pass

    def is_bidirectional(self, mapping):
        return self.yes

    def feedback_value(self, mapping):
        return self.yes

    def update(self):
        pass

    def receive(self, m):
        return False

    def get_color(self):
        return (0, 0, 0)


class Listener:
    def __init__(self):
        self.log = []

    def parameter_changed(self, m):
        self.log.append(m.value)

    def request_terminated(self, m):
        self.log.append("terminated")


def app(inputs = (), config = None, protocol = None, ui = None, midi = None):
    from pyswitch.controller.controller import Controller
    a = Controller(Leds(), midi or Midi(), protocol, config or {}, list(inputs), ui)
    a.midi = midi or a.client.midi
    return a

def switches(*actions, config = None, protocol = None, extra = (), leds = 1):
    """One switch for each action"""
    hws = [Switch() for x in actions]
    a = app([{"assignment": {"model": h, "pixels": list(range(i * leds, (i + 1) * leds))}, "actions": x if isinstance(x, list) else [x]} for i, (h, x) in enumerate(zip(hws, actions))] + list(extra), config, protocol or Bidirectional(False))
    a.hws = hws
    return a

def press(a, i = 0):
    a.midi.take()
    a.hws[i].pushed = True
    a.inputs[i].process()
    return a.midi.take()

def release(a, i = 0):
    a.midi.take()
    a.hws[i].pushed = False
    a.inputs[i].process()
    return a.midi.take()

def click(a, i = 0):
    return press(a, i) + release(a, i)

K = [0, 0x20, 0x33]

def nrpn(page, n, v, f = 1):
    return SX(K, [0, 0, f, 0, page, n, v >> 7, v & 127])

def rig_id(a, r):
    a.client.receive(CC(32, r >> 7))
    a.client.receive(PC(r & 127))

def mapping(name, **kw):
    from pyswitch.controller.client import ClientParameterMapping
    return ClientParameterMapping.get(name = name, **kw)

def equal(got, want, what = ""):
    if got != want:
        print("FAIL", what, "got", got, "instead of", want)
        sys.exit(1)

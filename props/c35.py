"""Device definitions and hardware drivers on simulated pins, start-up (boot.py)"""
import os
from symex import loader as L
from .common import *

BOUNDS = {
    "quick": "every level of all 29 pins at the same time (and, for single switches, histories of 2 to 3 level changes); all pedal values and wheel positions; every LED of all devices with any two colours set; every received and sent message object; any display size and pixel offset",
    "thorough": "histories of 3 to 6 level changes"
}
OUTSIDE = "electrical behaviour and the binary drivers themselves (levels are what the digital, analog and encoder objects report)"

# Documented pins (comments of the device definitions, MIDI Captain pinout)
SWITCHES = {
    "pa_midicaptain_10": {
        "PA_MIDICAPTAIN_10_SWITCH_1": 1, "PA_MIDICAPTAIN_10_SWITCH_2": 25, "PA_MIDICAPTAIN_10_SWITCH_3": 24, "PA_MIDICAPTAIN_10_SWITCH_4": 23,
        "PA_MIDICAPTAIN_10_SWITCH_UP": 20, "PA_MIDICAPTAIN_10_SWITCH_A": 9, "PA_MIDICAPTAIN_10_SWITCH_B": 10, "PA_MIDICAPTAIN_10_SWITCH_C": 11,
        "PA_MIDICAPTAIN_10_SWITCH_D": 18, "PA_MIDICAPTAIN_10_SWITCH_DOWN": 19
    },
    "pa_midicaptain_mini_6": {
        "PA_MIDICAPTAIN_MINI_SWITCH_1": 1, "PA_MIDICAPTAIN_MINI_SWITCH_2": 25, "PA_MIDICAPTAIN_MINI_SWITCH_3": 24,
        "PA_MIDICAPTAIN_MINI_SWITCH_A": 9, "PA_MIDICAPTAIN_MINI_SWITCH_B": 10, "PA_MIDICAPTAIN_MINI_SWITCH_C": 11
    },
    "pa_midicaptain_nano_4": {
        "PA_MIDICAPTAIN_NANO_SWITCH_1": 1, "PA_MIDICAPTAIN_NANO_SWITCH_2": 25, "PA_MIDICAPTAIN_NANO_SWITCH_A": 9, "PA_MIDICAPTAIN_NANO_SWITCH_B": 10
    }
}
# Inputs without LEDs
EXTRA = {"pa_midicaptain_10": {"PA_MIDICAPTAIN_10_WHEEL_BUTTON": 0}}
EXP_SWITCHES = {"pa_midicaptain_10": {"PA_MIDICAPTAIN_10_EXP_SWITCH_1": 27, "PA_MIDICAPTAIN_10_EXP_SWITCH_2": 28}}


def levels(s, prefix = ""):
    return {"GP%d" % i: s.bool("%slevel%d" % (prefix, i)) for i in range(29)}


def set_levels(s, lv):
    hw = s.load("hwsim")
    for k in lv:
        hw.LEVEL[k] = lv[k]


def switches(s, device, exp):
    """A switch is pushed exactly if its own pin is low"""
    m = s.load("pyswitch.hardware.devices." + device)
    pins = dict(EXP_SWITCHES[device]) if exp else dict(SWITCHES[device], **EXTRA.get(device, {}))
    for n in pins:
        s.check(getattr(m, n)["model"].pushed is None, "no-state-before-init")
    for n in pins:
        getattr(m, n)["model"].init()
    lv = levels(s)
    set_levels(s, lv)
    for n, pin in pins.items():
        p = getattr(m, n)["model"].pushed
        s.check(s.eq(p, s.Not(lv["GP%d" % pin])), n)


def history(s, device, n):
    """The controller runs exactly the actions of the switches whose pins fall"""
    m = s.load("pyswitch.hardware.devices." + device)
    Action = s.obj("pyswitch.controller.actions:Action")
    log = []

    class Rec(Action):
        def __init__(self, n):
            Action.__init__(self, {})
            self.n = n
        def push(self):
            log.append((self.n, True))
        def release(self):
            log.append((self.n, False))

    pins = dict(SWITCHES[device], **EXTRA.get(device, {}))
    names = list(pins)
    appl = controller(s, [{"assignment": getattr(m, x), "actions": [Rec(x)]} for x in names])
    hw = s.load("hwsim")
    state = {x: False for x in names}
    for i in range(n):
        x = s.choice("which%d" % i, names + ["other"])
        if x == "other":
            # a pin no switch is connected to
            hw.LEVEL["GP22"] = s.flag("level%d" % i)
        else:
            state[x] = s.flag("pressed%d" % i)
            hw.LEVEL["GP%d" % pins[x]] = not state[x]
            exp = [(x, state[x])]
        before = dict(last) if i else {y: False for y in names}
        last = dict(state)
        appl.tick()
        exp = [(y, state[y]) for y in names if state[y] != before[y]]
        s.check(log == exp, "actions", lambda: "%s, expected %s" % (log, exp))
        del log[:]


def leds(s, device):
    """Three LEDs for each switch, in the order of the switches; a colour set lights exactly these"""
    m = s.load("pyswitch.hardware.devices." + device)
    names = list(SWITCHES[device])
    Action = s.obj("pyswitch.controller.actions:Action")
    A = s.load("pyswitch.hardware.adafruit")
    Controller = s.obj("pyswitch.controller.controller:Controller")
    appl = Controller(
        led_driver = A.AdafruitNeoPixelDriver(),
        midi = Midi(s),
        inputs = [{"assignment": getattr(m, x), "actions": []} for x in names]
    )
    hw = s.load("hwsim")
    s.check(len(hw.PIXELS) == 1, "one-array")
    px = hw.PIXELS[0]
    s.check(px.n == 3 * len(names), "number-of-leds")
    s.check(px.pin is s.load("board").GP7, "led-pin")
    used = []
    for i, x in enumerate(names):
        ps = list(getattr(m, x)["pixels"])
        s.check(sorted(ps) == [3 * i, 3 * i + 1, 3 * i + 2], "pixels", lambda: "%s: %s" % (x, ps))
    a = s.choice("a", range(len(names)))
    b = s.choice("b", range(len(names)))
    ca = tuple(s.int("a%d" % k, 0, 255) for k in range(3))
    cb = tuple(s.int("b%d" % k, 0, 255) for k in range(3))
    before = list(px.data)
    for sw, c in ((a, ca), (b, cb)):
        appl.inputs[sw].color = c
        appl.inputs[sw].brightness = 1
    for i in range(px.n):
        exp = cb if i // 3 == b else (ca if i // 3 == a else before[i])
        s.check(s.eq(tuple(px[i]), tuple(exp)), "led", lambda: "LED %d: %s instead of %s" % (i, px[i], exp))


def strobe_order(s, device):
    """The strobe tuner runs around the device: upper row left to right, then lower row right to left"""
    m = s.load("pyswitch.hardware.devices." + device)
    names = list(SWITCHES[device])
    n = len(names)
    i = s.choice("i", range(n))
    exp = i if i < n // 2 else n - 1 - (i - n // 2)
    s.check(getattr(m, names[i])["strobeOrder"] == exp, "order")
    s.check(isinstance(getattr(m, names[i])["name"], str), "name")


def pedals(s, n):
    m = s.load("pyswitch.hardware.devices.pa_midicaptain_10")
    hw = s.load("hwsim")
    p = [m.PA_MIDICAPTAIN_10_EXP_PEDAL_1["model"], m.PA_MIDICAPTAIN_10_EXP_PEDAL_2["model"]]
    w = m.PA_MIDICAPTAIN_10_WHEEL_ENCODER["model"]
    s.check(p[0].value is None and p[1].value is None and w.position is None, "no-value-before-init")
    for x in p + [w]:
        x.init()
    for i in range(n):
        v = [s.int("v%d%d" % (i, j), 0, 65535) for j in range(2)]
        e = s.int("e%d" % i, -1000, 1000)
        hw.ANALOG["GP27"], hw.ANALOG["GP28"] = v
        hw.ENCODER[("GP2", "GP3")] = e
        s.check(s.eq(p[0].value, v[0]), "pedal-1")
        s.check(s.eq(p[1].value, v[1]), "pedal-2")
        s.check(s.eq(w.position, e), "wheel")
    for kind, pin, o in hw.CREATED:
        if kind == "encoder":
            s.check(o.divisor == 2, "wheel-divisor")


def midi_ports(s, port):
    """Messages pass the devices unchanged in both directions, with the channels configured; unknown events are not sent"""
    m = s.load("pyswitch.hardware.devices.pa_midicaptain")
    hw = s.load("hwsim")
    CC = s.obj("adafruit_midi.control_change:ControlChange")
    Unknown = s.obj("adafruit_midi.midi_message:MIDIUnknownEvent")
    kw = {}
    if s.flag("in_channel"):
        kw["in_channel"] = s.choice("in", [0, 1, 15])
    if s.flag("out_channel"):
        kw["out_channel"] = s.choice("out", [0, 1, 15])
    if s.flag("buf"):
        kw["in_buf_size"] = s.int("size", 1, 1000)
    codecs = []
    lib = s.load("adafruit_midi")
    base = lib.MIDI

    class Codec(base):
        def __init__(self, *a, **k):
            base.__init__(self, *a, **k)
            codecs.append(self)
    lib.MIDI = Codec
    d = (m.PA_MIDICAPTAIN_USB_MIDI if port == "usb" else m.PA_MIDICAPTAIN_DIN_MIDI)(**kw)
    s.check(len(codecs) == 1, "one-codec")
    c = codecs[0]
    s.check(c.in_channel == kw.get("in_channel", None), "in-channel")
    s.check(c.out_channel == kw.get("out_channel", 0), "out-channel")
    s.check(s.eq(c.in_buf_size, kw.get("in_buf_size", 100)), "buffer-size")
    if port == "usb":
        ports = s.load("usb_midi").ports
        s.check(c.midi_in is ports[0] and c.midi_out is ports[1], "usb-ports")
        p = s.load("usb_midi").PORT
    else:
        us = [o for k, x, o in hw.CREATED if k == "uart"]
        s.check(len(us) == 1 and us[0].pins == ("GP16", "GP17") and us[0].baudrate == 31250, "uart")
        s.check(us[0].timeout <= 0.01, "non-blocking")
        s.check(c.midi_in is us[0] and c.midi_out is us[0], "uart-ports")
        p = us[0]
    msgs = [CC(s.int("c%d" % i, 0, 127), s.int("v%d" % i, 0, 127)) for i in range(3)]
    p.queue = list(msgs)
    for x in msgs:
        s.check(d.receive() is x, "received")
    s.check(d.receive() is None, "nothing-left")
    for i, x in enumerate(msgs):
        d.send(x)
        d.send(Unknown(s.int("status%d" % i, 0xf1, 0xff)))
    s.check(len(p.sent) == 3 and all(x is y for x, y in zip(p.sent, msgs)), "sent")


def display(s):
    """The display is set up with the configured geometry and left unlocked"""
    A = s.load("pyswitch.hardware.adafruit")
    hw = s.load("hwsim")
    w, h, r = s.int("w", 1, 320), s.int("h", 1, 320), s.int("row", 0, 320)
    own = s.flag("own")
    d = A.AdafruitST7789DisplayDriver(width = w, height = h, row_start = r, rotation = 90) if own else A.AdafruitST7789DisplayDriver()
    d.init()
    if not own:
        w, h, r = 240, 240, 80
    ds = [o for k, x, o in hw.CREATED if k == "display"]
    spi = [o for k, x, o in hw.CREATED if k == "spi"]
    s.check(len(ds) == 1 and len(spi) == 1, "one-display")
    s.check(d.tft is ds[0], "driver")
    s.check(s.eq([ds[0].width, ds[0].height, ds[0].rowstart], [w, h, r]), "geometry")
    s.check(ds[0].rotation == (90 if own else 180), "rotation")
    s.check(s.eq([d.width, d.height], [w, h]), "size")
    s.check(spi[0].pins == ("GP14", "GP15") and not spi[0].locked and spi[0].baudrate == 24000000, "bus")


def fonts(s, n):
    """Fonts are loaded once and never mixed up"""
    A = s.load("pyswitch.hardware.adafruit")
    hw = s.load("hwsim")
    loader = A.AdafruitFontLoader()
    seen = {}
    for i in range(n):
        p = s.choice("font%d" % i, ["/fonts/A.pcf", "/fonts/B.pcf", "/fonts/C.pcf"])
        f = loader.get(p)
        s.check(f.path == p, "font")
        s.check(p not in seen or seen[p] is f, "cached")
        seen[p] = f
    s.check(len([1 for k, x, o in hw.CREATED if k == "font"]) == len(seen), "loaded-once")


def boot(s):
    """The USB drive is only available if switch 1 is held while booting; else the memory is writable for the device"""
    s.U.roots.append(("boot", os.path.join(L.REPO, "content", "boot")))
    lv = levels(s)
    set_levels(s, lv)
    s.load("boot")
    calls = s.load("hwsim").CALLS
    held = s.Not(lv["GP1"])
    s.check(("disable_autoreload",) in calls, "no-autoreload")
    s.check(s.eq(("disable_usb_drive",) in calls, s.Not(held)), "usb-drive")
    s.check(s.eq(("remount", "/", False) in calls, s.Not(held)), "writable")
    s.check(len(calls) <= 3, "nothing-else")


def jobs(tier):
    ret = []
    for d in SWITCHES:
        ret.append(job(switches, device = d, exp = False))
        ret.append(job(history, device = d, n = (6 if d.endswith("4") else 5 if d.endswith("6") else 3) if tier == "thorough" else (2 if d.endswith("10") else 3)))
        ret.append(job(leds, device = d))
        ret.append(job(strobe_order, device = d))
    ret.append(job(switches, device = "pa_midicaptain_10", exp = True))
    ret.append(job(pedals, n = 3))
    ret.append(job(midi_ports, port = "usb"))
    ret.append(job(midi_ports, port = "din"))
    ret.append(job(display))
    ret.append(job(fonts, n = 5))
    ret.append(job(boot))
    return ret

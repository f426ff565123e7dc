"""Tuner mode: tuner display, switches and LEDs while tuning"""
from .common import *

BOUNDS = {
    "quick": "tuner display: histories of 3 received notes (0..127) and deviances (0..16383), zoom 0.5, 1, 2, 2.4, 2.5 and any calibration limits, several positions and sizes; tuner mode: histories of 5 steps (press or release one of two switches, tuner state 0..2 or any value received, foreign message, update) with and without processing the actions",
    "thorough": "display histories of 4, mode histories of 6 steps"
}
OUTSIDE = "two switches pressed at once in tuner mode; a switch held while the device enters or leaves tuner mode: whether its release message is still sent"
NOTES = ('C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B')


def nrpn(appl, page, num, v):
    SX = appl.test_midi.SX
    appl.client.receive(SX([0, 0x20, 0x33], [0, 0, 1, 0, page, num, v >> 7, v & 127]))


def display(s, n, zoom, geom, names = None, ask = ("note", "dev")):
    """Note name, marker position and colours"""
    K = s.load("pyswitch.clients.kemper")
    El = s.load("pyswitch.ui.elements")
    UI = s.load("pyswitch.ui.UiController")
    B = s.obj("pyswitch.ui.ui:DisplayBounds")
    x, y, w, h, width, height = geom
    lo = s.int("lo", 0, 16383)
    hi = s.int("hi", 0, 16383)
    s.assume(lo <= hi)
    names = names or NOTES
    IN, OUT, NEUTRAL = (1, 2, 3), (4, 5, 6), (7, 8, 9)
    root = El.TunerDisplay(
        mapping_note = K.KemperMappings.TUNER_NOTE(), mapping_deviance = K.KemperMappings.TUNER_DEVIANCE(),
        bounds = B(x, y, w, h), layout = {"font": "/f"}, deviance_height = height, deviance_width = width, deviance_zoom = zoom,
        color_in_tune = IN, color_out_of_tune = OUT, color_neutral = NEUTRAL, calibration_high = hi, calibration_low = lo,
        note_names = names if names is not NOTES else None
    )

    class Root:
        def init(self, appl, listener):
            pass

        def get_root(self):
            return root

    d = Display()
    ui = UI.UiController(d, d, Root())
    appl = controller(s, ui = ui, protocol = K.KemperBidirectionalProtocol(30))
    appl.init()
    s.check(d.shown is root.splash, "shown")
    rects = splash_rects(s, d.shown)
    text = splash_texts(s, d.shown)
    s.check(len(rects) == 2 and len(text) == 1, "elements")
    text = text[0]
    middle, marker = rects
    for r in rects:
        s.check(s.And(r.y == y + h - height, r.height == height, r.width == width), "vertical")
    mx = middle.x
    s.check(s.eq(middle.fill, NEUTRAL), "middle-color")
    last = []
    intune = None
    expected = ""
    for i in range(n):
        op = s.choice("op%d" % i, ask)
        if op == "note":
            v = s.int("note%d" % i, 0, 127)
            nrpn(appl, 0x7d, 0x54, v)
            # decide the name without forking over all notes in the oracle
            k = v % 12
            s.check(s.Or(*[s.And(k == j, text.text == names[j]) for j in range(12)]), "note", lambda: "%s for %s" % (text.text, v))
            expected = text.text
        else:
            v = s.int("dev%d" % i, 0, 16383)
            nrpn(appl, 0x7c, 0x0f, v)
            s.check(text.text == expected, "note-kept")
            intune = s.And(v >= lo, v <= hi)
            # exact position 16384 * (x - geom.x) / (w - width), limited to the display
            zn, zd = {1: (1, 1), 2: (2, 1), 2.4: (12, 5), 2.5: (5, 2), 0.5: (1, 2)}[zoom]
            pos = (v - 8192) * zn + 8192 * zd
            pos = s.ite(pos < 0, 0, s.ite(pos > 16384 * zd, 16384 * zd, pos)) * (w - width)
            at = (marker.x - x) * 16384 * zd
            s.check(s.And(at <= pos + 16384 * zd, at >= pos - 2 * 16384 * zd), "marker", lambda: "%s for %s" % (marker.x, v))
            for ov, ox in last:
                s.check(s.And(s.Implies(v > ov, marker.x >= ox), s.Implies(v < ov, marker.x <= ox), s.Implies(v == ov, marker.x == ox) if zoom != 2.4 else True), "monotonic")
            last.append((v, marker.x))
        if intune is not None:
            s.check(s.eq(tuple(marker.fill), tuple(s.ite(intune, a, b) for a, b in zip(IN, OUT))), "marker-color")
            s.check(s.eq(tuple(text.color), tuple(s.ite(intune, a, b) for a, b in zip(IN, OUT))), "note-color")
        s.check(middle.x == mx, "middle")


def mode(s, n, process, strobe = False, first = None):
    """Entering and leaving tuner mode"""
    K = s.load("pyswitch.clients.kemper")
    El = s.load("pyswitch.ui.elements")
    UI = s.load("pyswitch.ui.UiController")
    T = s.load("pyswitch.clients.kemper.actions.tuner")
    C = s.load("pyswitch.clients.local.actions.custom")
    P = s.obj("pyswitch.controller.actions:PushButtonAction")
    B = s.obj("pyswitch.ui.ui:DisplayBounds")

    lab = [El.DisplayLabel(layout = {"font": "/f", "backColor": (0, 0, 0)}, bounds = B(0, 0, 10, 10)) for _ in range(2)]
    default = El.DisplayElement(bounds = B(0, 0, 240, 240), children = lab + [El.DisplayLabel(layout = {"font": "/f"}, bounds = B(10 * i, 0, 10, 10)) for i in range(4)])
    cb = K.TunerDisplayCallback(splash_default = default, process_overridden_actions = process, strobe = strobe)
    d = Display()
    ui = UI.UiController(d, d, cb)
    hws = [SwitchModel(), SwitchModel()]
    appl = controller(s, [
        {"assignment": {"model": hws[0], "pixels": (0, 1)}, "actions": [T.TUNER_MODE(display = lab[0], color = (200, 100, 50), mode = P.LATCH)]},
        {"assignment": {"model": hws[1], "pixels": (2, 3)}, "actions": [C.CUSTOM_MESSAGE(message = [1, 2], message_release = [3], display = lab[1], color = (10, 20, 30), text = "Cu")]},
    ], {"updateInterval": 200}, protocol = K.KemperBidirectionalProtocol(255), ui = ui)
    midi = appl.test_midi
    appl.init()
    s.world.ms = 1000
    appl.tick()
    leds = appl.led_driver.leds
    splash = d.shown
    before = [tuple(l) for l in leds], [(l.text, l.back_color) for l in lab]

    on = False
    down = None        # switch pressed
    how = None         # pressed in tuner mode or not
    for i in range(n):
        midi.take()
        midi.raw.clear()
        was = on
        ops = ["tuner1", "value", "foreign", "wait"] + (["down0", "down1"] if down is None else ["up"])
        if i == 0 and first:
            ops = [first]
        op = s.choice("op%d" % i, ops)
        sends = []
        if op.startswith("down"):
            down = int(op[4:])
            how = on
            hws[down].pushed = True
            if not on or process:
                if down == 0:
                    # the tuner switch itself
                    if not on:
                        sends = [("CC", 31, 1)]
                        on = True
                    else:
                        sends = [("CC", 31, 0)]
                        on = False
                else:
                    sends = [(1, 2)]
        elif op == "up":
            hws[down].pushed = False
            if how and on:
                sends = [("CC", 31, 0)]
                on = False
                if process and down == 1:
                    sends.append((3,))
            elif how is False and not on and down == 1:
                sends = [(3,)]
            elif down == 1:
                # mode changed while pressed: unspecified
                sends = None
            down = None
        elif op == "tuner1":
            nrpn(appl, 0x7f, 0x7e, 1)
            on = True
        elif op == "value":
            v = s.int("v%d" % i, 0, 3)
            nrpn(appl, 0x7f, 0x7e, v)
            on = bool(v == 1)
        elif op == "foreign":
            nrpn(appl, 4, 1, s.int("f%d" % i, 0, 3))
        else:
            s.advance(250)
        if was and not on:
            how = None if down is not None else how
        appl.tick()
        got = [raw_of(midi, m) for m in midi.raw if not is_beacon(midi, m)]
        if sends is None:
            s.check(got in ([], [(3,)]), "sent-nothing-else", lambda: "%s" % (got,))
        else:
            s.check(len(got) == len(sends) and s.eq(got, sends), "sent", lambda: "%s instead of %s" % (got, sends))
        s.check((d.shown is splash) == (not on), "display")
        if on and not was and not process:
            s.check(all(s.eq(tuple(l), (0, 0, 0)) for l in leds), "dark", lambda: "%s" % (leds,))
        if not on:
            s.advance(250)
            appl.tick()
            midi.take()
            s.check(s.eq([tuple(l) for l in leds], before[0]), "leds-restored", lambda: "%s instead of %s" % (leds, before[0]))
            s.check(s.eq([(l.text, l.back_color) for l in lab], before[1]), "labels-restored", lambda: "%s" % ([(l.text, l.back_color) for l in lab],))


def is_beacon(midi, m):
    return isinstance(m, midi.SX) and tuple(m.manufacturer_id) == (0, 0x20, 0x33)


def raw_of(midi, m):
    """Raw messages: their bytes"""
    return tuple(m.__bytes__()) if midi.snap(m)[0] == "?" else midi.snap(m)


def jobs(tier):
    q = tier == "quick"
    ret = []
    geoms = ((0, 0, 240, 240, 5, 40), (7, 11, 100, 80, 4, 30), (3, 0, 64, 40, 1, 10))
    for z in (1, 2, 2.4, 2.5, 0.5):
        for g in geoms:
            ret.append(job(display, n = 2, zoom = z, geom = g, ask = ("dev",)))
    ret.append(job(display, n = 3 if q else 4, zoom = 1, geom = geoms[0]))
    ret.append(job(display, n = 2 if q else 3, zoom = 2.5, geom = geoms[0]))
    ret.append(job(display, n = 3, zoom = 2.5, geom = geoms[1], ask = ("dev",)))
    ret.append(job(display, n = 3, zoom = 1, geom = geoms[0], names = tuple("N%d" % i for i in range(12)), ask = ("note",)))
    n = 5 if q else 6
    for p in (False, True):
        for f in ("tuner1", "down0", "down1", "value", "wait"):
            ret.append(job(mode, n = n, process = p, first = f))
    return ret

"""Shipped on/off and trigger actions: which messages they send on presses and releases"""
from .common import *
from .c10 import Model
from .c18 import make

BOUNDS = {
    "quick": "every shipped looper, fixed effect, tap tempo, tuner mode, rig volume boost, morph button, amplifier and binary switch action: histories of 6 presses and releases with waiting times 0..2000 ms, all 14 bit values reported before, all boost values and on/off values, default and custom colours and texts, default and other modes",
    "thorough": "histories of 10 presses and releases"
}


def nrpn(page, n):
    return lambda v: ("SX", (0, 0x20, 0x33), (2, 0x7f, 1, 0, page, n, v >> 7, v & 127))


def cc(n):
    return lambda v: ("CC", n, v)

RED, WHITE, BLUE, LIGHT_BLUE = (255, 0, 0), (255, 255, 255), (0, 0, 255), (100, 100, 255)

# action: module, factory, args, message, mode, text, colour, reports its state
TABLE = {
    "LOOPER_REC_PLAY_OVERDUB": ("looper", (), nrpn(125, 88), "MOMENTARY", "Rec", RED, False),
    "LOOPER_STOP": ("looper", (), nrpn(125, 89), "MOMENTARY", "Stop", WHITE, False),
    "LOOPER_TRIGGER": ("looper", (), nrpn(125, 90), "MOMENTARY", "Trigger", LIGHT_BLUE, False),
    "LOOPER_REVERSE": ("looper", (), nrpn(125, 91), "MOMENTARY", "Reverse", (100, 255, 100), False),
    "LOOPER_HALF_SPEED": ("looper", (), nrpn(125, 92), "MOMENTARY", "HalfSpd", (255, 125, 0), False),
    "LOOPER_CANCEL": ("looper", (), nrpn(125, 93), "MOMENTARY", "Undo", (255, 255, 0), False),
    "LOOPER_ERASE": ("looper", (), nrpn(125, 94), "MOMENTARY", "Erase", (255, 100, 100), False),
    "TAP_TEMPO": ("tempo", (), cc(30), "MOMENTARY", "Tap", (73, 110, 41), False),
    "TUNER_MODE": ("tuner", (), cc(31), "HOLD_MOMENTARY", "Tuner", WHITE, True),
}
for _i, (_n, _text, _col) in enumerate(((1, "Transpose", WHITE), (6, "Gate", LIGHT_BLUE), (11, "Comp", BLUE), (16, "Boost", RED), (21, "Wah", (255, 125, 0)), (26, "Chorus", BLUE), (36, "Air", BLUE), (41, "Doubler", BLUE))):
    TABLE["FIXED_EFFECT_STATE%d" % _i] = ("fixed_fx", (_i,), nrpn(5, _n), "HOLD_MOMENTARY", _text, _col, True)
FIXED_IDS = ("TRANSPOSE", "GATE", "COMP", "BOOST", "WAH", "CHORUS", "AIR", "DBL_TRACKER")


def shipped(s, action, n, custom):
    """Presses and releases at any times; sends 1 when switched on and 0 when switched off"""
    mod, args, msg, mode, text, col, state_known = TABLE[action]
    m = s.load("pyswitch.clients.kemper.actions." + mod)
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    if mod == "fixed_fx":
        args = (getattr(m, "FIXED_SLOT_ID_" + FIXED_IDS[args[0]]),)
    kw = {"use_leds": True}
    if custom:
        col = (s.int("r", 1, 255), s.int("g", 0, 255), s.int("b", 0, 255))
        kw["color"] = col
        if action != "TAP_TEMPO":
            text = kw["text"] = "foo"
        if mode == "HOLD_MOMENTARY":
            mode = s.choice("mode", ["MOMENTARY", "LATCH", "ENABLE", "ONE_SHOT"])
            kw["mode"] = getattr(PB, mode)
    a = getattr(m, action.rstrip("01234567"))(*args, **kw)
    lb = Label()
    a.label = lb
    hws, appl = make(s, [a], protocol = Protocol(False))
    midi = appl.test_midi
    sw = appl.inputs[0]
    s.world.ms = s.int("t0", 0, 10000)
    appl.update()
    s.check(lb.text == text, "text", lambda: str(lb.text))
    s.check(s.eq(sw.color, col), "colour")
    ref = Model(mode, 600)
    midi.take()
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 2000))
        hws[0].pushed = i % 2 == 0
        sw.process()
        got = [x for x in midi.take() if not (x[0] == "SX" and x[2][2] == 0x41)]
        exp = ref.push(s.world.ms) if i % 2 == 0 else ref.release(s.world.ms)
        want = [msg(1 if x else 0) for x in exp]
        s.check(s.eq(got, want), "messages", lambda: "step %d: %s instead of %s" % (i, got, want))
        s.check(a.state == ref.state, "state")
        s.check(s.eq(sw.color, col), "colour")
        s.check(abs(sw.brightness - (0.3 if ref.state and state_known else 0.02)) < 0.0001, "brightness")
        s.check(lb.text == text, "text")


def boost(s, n, remember, mode):
    """Rig volume boost: volume is set to the boost value and back"""
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    m = s.load("pyswitch.clients.kemper.actions.rig_volume_boost")
    k = s.int("boost", 0, 64)
    kw = {} if remember else {"remember_off_value": False}
    if mode:
        kw["mode"] = getattr(PB, mode)
    a = m.RIG_VOLUME_BOOST(k * 0.015625, use_leds = False, **kw)
    hws, appl = make(s, [a], {"maxRequestLifetimeMillis": 1000000}, protocol = Protocol(False))
    midi = appl.test_midi
    sw = appl.inputs[0]
    appl.update()
    on = (16383 * k) // 64
    msg = nrpn(4, 1)
    old = None
    ref = Model(mode or "HOLD_MOMENTARY", 600)
    last = None
    down = False
    for i in range(n):
        op = s.choice("op%d" % i, ["volume", "switch"]) if i < n - 1 else "switch"
        if op == "volume":
            appl.update()
            v = s.int("v%d" % i, 0, 16383)
            if last is not None:
                s.assume(v != last)
            last = v
            appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 1, v >> 7, v & 127]))
            ref.state = bool(v >= on)
            if not ref.state:
                old = v
        else:
            down = not down
            s.advance(s.int("dt%d" % i, 0, 2000))
            midi.take()
            hws[0].pushed = down
            sw.process()
            got = [x for x in midi.take() if x[2][2] == 1]
            exp = ref.push(s.world.ms) if down else ref.release(s.world.ms)
            off = 8191 if not remember else old
            want = [msg(on if x else off) for x in exp if x or off is not None]
            s.check(s.eq(got, want), "volume-message", lambda: "%s: %s instead of %s" % (exp, got, want))
        s.check(a.state == ref.state, "state")


def morph_button(s, n):
    m = s.load("pyswitch.clients.kemper.actions.morph")
    a = m.MORPH_BUTTON(use_leds = True, color = (1, 1, 1))
    hws, appl = make(s, [a], protocol = Protocol(False))
    sw = appl.inputs[0]
    midi = appl.test_midi
    appl.update()
    midi.take()
    for i in range(n):
        if s.flag("received%d" % i):
            v = s.int("v%d" % i, 0, 16383)
            appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 0, 11, v >> 7, v & 127]))
            s.check(midi.take() == [], "nothing-sent-on-receive")
        hws[0].pushed = i % 2 == 0
        sw.process()
        got = [x for x in midi.take() if x[0] == "CC"]
        s.check(s.eq(got, [("CC", 80, 1 - i % 2)]), "morph-message", lambda: str(got))
        s.check(abs(sw.brightness - 0.3) < 0.0001, "always-bright")


def silent_display(s, n):
    """Morph state display: never sends anything"""
    m = s.load("pyswitch.clients.kemper.actions.morph")
    a = m.MORPH_DISPLAY(use_leds = True, morph_color_base = (1, 1, 1), morph_color_morphed = (1, 1, 1))
    hws, appl = make(s, [a], protocol = Protocol(False))
    sw = appl.inputs[0]
    midi = appl.test_midi
    appl.update()
    midi.take()
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 2000))
        if s.flag("received%d" % i):
            v = s.int("v%d" % i, 0, 16383)
            appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 0, 11, v >> 7, v & 127]))
        hws[0].pushed = i % 2 == 0
        sw.process()
        got = [x for x in midi.take() if not (x[0] == "SX" and x[2][2] == 0x41)]
        s.check(got == [], "nothing-sent", lambda: str(got))


def binary(s, n):
    """Generic switch: values and mode as configured"""
    m = s.load("pyswitch.clients.local.actions.binary_switch")
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    kind = s.choice("kind", ["cc", "nrpn"])
    top = 127 if kind == "cc" else 16383
    mp = generic_mapping(s, kind)
    kw = {}
    on, off = 1, 0
    if s.flag("values"):
        on = kw["value_on"] = s.int("on", 0, top)
        off = kw["value_off"] = s.int("off", 0, top)
    mode = s.choice("mode", [None, "MOMENTARY_INVERSE", "DISABLE", "ONE_SHOT", "LATCH"])
    if mode:
        kw["mode"] = getattr(PB, mode)
    a = m.BINARY_SWITCH(mp, use_leds = False, color = (1, 1, 1), **kw)
    hws, appl = make(s, [a], protocol = Protocol(False))
    sw = appl.inputs[0]
    midi = appl.test_midi
    s.world.ms = s.int("t0", 0, 10000)
    ref = Model(mode or "HOLD_MOMENTARY", 600)
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 2000))
        hws[0].pushed = i % 2 == 0
        sw.process()
        got = midi.take()
        exp = ref.push(s.world.ms) if i % 2 == 0 else ref.release(s.world.ms)
        vals = [on if x else off for x in exp]
        want = [("CC", 20, v) if kind == "cc" else nrpn(4, 0)(v) for v in vals]
        s.check(s.eq(got, want), "messages", lambda: "step %d: %s instead of %s" % (i, got, want))


def jobs(tier):
    q = tier == "quick"
    n = 6 if q else 10
    ret = []
    for a in TABLE:
        for c in (False, True):
            ret.append(job(shipped, action = a, n = n, custom = c))
    for r in (False, True):
        for mode in (None, "MOMENTARY", "LATCH", "MOMENTARY_INVERSE"):
            ret.append(job(boost, remember = r, n = 5 if q else 6, mode = mode))
    ret.append(job(morph_button, n = 4))
    ret.append(job(silent_display, n = 4))
    ret.append(job(binary, n = n))
    return ret

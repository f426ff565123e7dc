"""On/off parameters: state from received values, restoring the old value, display"""
from .common import *
from .c18 import make

BOUNDS = {
    "quick": "histories of 5 steps (value 0..16383 received, switch pressed and released in latch mode), all 6 comparison modes, all reference, on and off values, off value fixed or restored, with and without immediate feedback of set values; lists of values; all display options",
    "thorough": "histories of 7 steps"
}
MODES = ("EQUAL", "GREATER", "GREATER_EQUAL", "LESS", "LESS_EQUAL", "NO_STATE_CHANGE")


def compare(s, mode, v, ref):
    return {"EQUAL": v == ref, "GREATER": v > ref, "GREATER_EQUAL": v >= ref, "LESS": v < ref, "LESS_EQUAL": v <= ref}[mode]


def nrpn(n, v):
    return ("SX", (0, 0x20, 0x33), (2, 0x7f, 0x01, 0, 4, n, v >> 7, v & 127))


def history(s, mode, auto, feedback, n):
    """Received values switch the state, pressing sends the on value or the off value (or restores the old one)"""
    BC = s.obj("pyswitch.controller.callbacks:BinaryParameterCallback")
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    on = s.int("on", 0, 16383)
    ref = s.int("ref", 0, 16383) if s.flag("separate-reference") else on
    off = None if auto else s.int("off", 0, 16383)
    kw = {"value_enable": on, "value_disable": "auto" if auto else off, "comparison_mode": getattr(BC, mode), "led_brightness_on": 0.5, "led_brightness_off": 0.25, "color": (100, 100, 100)}
    if ref is not on:
        kw["reference_value"] = ref
    if mode == "GREATER_EQUAL":
        del kw["comparison_mode"]              # it is the default
    mp = generic_mapping(s, "nrpn", request = not feedback)
    a = PB({"mode": PB.LATCH, "callback": BC(mp, **kw), "useSwitchLeds": True})
    hws, appl = make(s, [a], protocol = Protocol(feedback))
    midi = appl.test_midi
    sw = appl.inputs[0]
    appl.update()
    state = False
    last = None                  # last value known
    old = None                   # value to be restored
    for i in range(n):
        op = s.choice("op%d" % i, ["receive", "switch"]) if i < n - 1 else "switch"
        if op == "receive":
            v = s.int("v%d" % i, 0, 16383)
            appl.update()
            midi.take()
            appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, v >> 7, v & 127]))
            s.check(midi.take() == [], "nothing-sent-on-receive")
            new = last is None or bool(v != last)
            last = v
            if new:
                if mode != "NO_STATE_CHANGE":
                    state = bool(compare(s, mode, v, ref))
                if not state:
                    old = v
            else:
                # no new value: might belong to a request sent before the state has been changed by the user
                s.assume(mode != "NO_STATE_CHANGE")
                if a.state != state:
                    state = bool(compare(s, mode, v, ref))
                    if not state:
                        old = v
        else:
            midi.take()
            hws[0].pushed = True
            sw.process()
            got = [m for m in midi.take() if m[2][2] == 1]
            hws[0].pushed = False
            sw.process()
            s.check([m for m in midi.take() if m[2][2] == 1] == [], "nothing-sent-on-release")
            state = not state
            exp = on if state else old if auto else off
            want = [] if exp is None else [nrpn(0, exp)]
            s.check(s.eq(got, want), "message", lambda: "%s: %s instead of %s" % (state, got, want))
            if feedback and exp is not None:
                new = last is None or bool(exp != last)
                last = exp
                # the value set counts as received one
                if mode != "NO_STATE_CHANGE" and new:
                    state = bool(compare(s, mode, exp, ref))
                if not state:
                    old = exp
        s.check(a.state == state, "state", lambda: "%s: %s instead of %s" % (op, a.state, state))
        s.check(sw.brightness == (0.5 if state else 0.25), "led", lambda: "%s: %s shown as %s" % (op, state, sw.brightness))


def lists(s, n):
    """Several values sent at once, some of them restored"""
    BC = s.obj("pyswitch.controller.callbacks:BinaryParameterCallback")
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    CC = s.obj("adafruit_midi.control_change:ControlChange")
    on = [s.int("on%d" % i, 0, 127) for i in range(2)]
    autos = s.choice("autos", [(False, False), (True, False), (False, True), (True, True)])
    off = ["auto" if autos[i] else s.int("off%d" % i, 0, 127) for i in range(2)]
    mp = C.get(name = "L", set = [CC(20, 0), CC(21, 0)], response = CC(22, 0))
    a = PB({"mode": PB.LATCH, "callback": BC(mp, value_enable = list(on), value_disable = list(off), comparison_mode = BC.EQUAL), "useSwitchLeds": True})
    hws, appl = make(s, [a], protocol = Protocol(False))
    midi = appl.test_midi
    sw = appl.inputs[0]
    appl.update()
    state = False
    last = old = None
    for i in range(n):
        if s.choice("op%d" % i, ["receive", "switch"]) == "receive":
            v = s.int("v%d" % i, 0, 127)
            appl.update()
            appl.client.receive(midi.CC(22, v))
            if last is None or bool(v != last):
                state = bool(v == on[0])
            else:
                s.assume(v != last)
            last = v
            if not state:
                old = v
        else:
            midi.take()
            hws[0].pushed = True
            sw.process()
            got = midi.take()
            hws[0].pushed = False
            sw.process()
            state = not state
            if state:
                want = [("CC", 20, on[0]), ("CC", 21, on[1])]
            elif old is None and (autos[0] or autos[1]):
                want = []
            else:
                want = [("CC", 20 + k, old if autos[k] else off[k]) for k in range(2)]
            if state and old is None and (autos[0] or autos[1]) and not got:
                want = []            # waits for the first value: also possible
            s.check(s.eq(got, want), "messages", lambda: "%s: %s instead of %s" % (state, got, want))
        s.check(a.state == state, "state")


def separate_off(s, n):
    """Separate parameter for switching off"""
    BC = s.obj("pyswitch.controller.callbacks:BinaryParameterCallback")
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    on, off = s.int("on", 0, 16383), s.int("off", 0, 16383)
    a = PB({"mode": PB.LATCH, "callback": BC(generic_mapping(s, "nrpn", name = "A", n = 1), mapping_disable = generic_mapping(s, "nrpn", name = "B", n = 2), value_enable = on, value_disable = off), "useSwitchLeds": True})
    hws, appl = make(s, [a], protocol = Protocol(False))
    from .c18 import click
    for i in range(n):
        x, y = click(appl, hws, 0)
        s.check(s.eq(x, [nrpn(2, off) if i % 2 else nrpn(1, on)]), "message")
        s.check(y == [], "release")


def display(s, response, internal):
    """Brightness, label colour and text for both states"""
    BC = s.obj("pyswitch.controller.callbacks:BinaryParameterCallback")
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    cfg = s.choice("config", [{}, {"displayDimFactorOn": 0.75, "displayDimFactorOff": 0.25, "ledBrightnessOn": 0.5, "ledBrightnessOff": 0.125}])
    D = {"dim_on": cfg.get("displayDimFactorOn", 1), "dim_off": cfg.get("displayDimFactorOff", 0.2), "led_on": cfg.get("ledBrightnessOn", 0.3), "led_off": cfg.get("ledBrightnessOff", 0.02)}
    kw = {}
    E = dict(D)
    for k, p, other in (("dim_on", "display_dim_factor_on", "off"), ("dim_off", "display_dim_factor_off", "on"), ("led_on", "led_brightness_on", "off"), ("led_off", "led_brightness_off", "on")):
        v = s.choice(k, [None, other, 0.625])
        if v is not None:
            kw[p] = v
            E[k] = v if v == 0.625 else D[k[:3] + "_" + other]
    texts = s.choice("texts", ["none", "one", "two"])
    if texts != "none":
        kw["text"] = "foo"
    if texts == "two":
        kw["text_disabled"] = "bar"
    col = (s.int("r", 0, 255), s.int("g", 0, 255), s.int("b", 0, 255))
    if s.flag("callback"):
        kw["color_callback"] = lambda action, value: col
    else:
        kw["color"] = col
    mp = generic_mapping(s, "nrpn", response = response)
    a = PB({"mode": PB.LATCH, "callback": BC(mp, use_internal_state = internal, comparison_mode = BC.NO_STATE_CHANGE, **kw), "useSwitchLeds": True})
    lb = Label()
    a.label = lb
    hws, appl = make(s, [a], protocol = Protocol(False), config = cfg)
    sw = appl.inputs[0]
    from .c18 import click
    a.update_displays()
    for i in range(3):
        shown = i % 2 == 1 and (response or internal)
        f = E["led_on"] if shown else E["led_off"]
        d = E["dim_on"] if shown else E["dim_off"]
        s.check(s.eq(sw.color, col), "colour")
        s.check(abs(sw.brightness - f) < 0.00001, "brightness", lambda: "%s instead of %s" % (sw.brightness, f))
        s.check(s.eq(lb.back_color, dimmed(s, col, d)), "label-colour")
        s.check(lb.text == ("" if texts == "none" else "bar" if texts == "two" and not shown and (response or internal) else "foo"), "text", lambda: "%d: %s" % (i, lb.text))
        click(appl, hws, 0)


def dimmed(s, col, d):
    """Real colour scaling (decided in its own property)"""
    return s.obj("pyswitch.colors:dim_color")(col, d)


def jobs(tier):
    q = tier == "quick"
    n = 5 if q else 7
    ret = []
    for m in MODES:
        for auto in (False, True):
            for fb in (False, True):
                ret.append(job(history, mode = m, auto = auto, feedback = fb, n = n))
    ret.append(job(lists, n = 5 if q else 6))
    ret.append(job(separate_off, n = 4))
    for r, i in ((True, False), (False, False), (False, True)):
        ret.append(job(display, response = r, internal = i))
    return ret

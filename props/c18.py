"""Bank up/down, with and without preselect"""
from .common import *
from .c17 import receive_rig, has_color

BOUNDS = {
    "quick": "histories of 5 steps (bank up, bank down, rig select, rig ID 0..624 received) on two bank switches and a rig switch, no or 10 or 3 available banks with preselect; all rig IDs for colours, texts and brightness options; blinking over 5 updates at any times",
    "thorough": "histories of 6 steps, 7 updates"
}


def mod(s, v, m):
    return v % m


def make(s, specs, config = None, protocol = None):
    """Controller with one switch for each action"""
    hws = [SwitchModel() for a in specs]
    inputs = []
    px = 0
    for hw, a in zip(hws, specs):
        inputs.append({"assignment": {"model": hw, "pixels": [px]}, "actions": [a]})
        px += 1
    return hws, controller(s, inputs, protocol = protocol or Protocol(False), config = config or {})


def click(appl, hws, i):
    hws[i].pushed = True
    appl.inputs[i].process()
    a = appl.test_midi.take()
    hws[i].pushed = False
    appl.inputs[i].process()
    return a, appl.test_midi.take()


def preselect(s, n, max_bank, rig_bank, known):
    B = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    kw = {"preselect": True, "use_leds": False, "color": (1, 1, 1)}
    if max_bank:
        kw["max_bank"] = max_bank
    hws, appl = make(s, [B.BANK_UP(**kw), B.BANK_DOWN(**kw), R.RIG_SELECT(3, bank = rig_bank, use_leds = False, color = (1, 1, 1))])
    midi = appl.test_midi
    m = max_bank or 125
    top = 624 if m > 20 else m * 5 + 14
    cur = None
    pre = None
    for i in range(n):
        op = s.choice("op%d" % i, (["rig"] if known else ["up", "down", "select"]) if i == 0 else ["up", "down", "select", "rig"] if i < n - 1 else ["up", "down", "select"])
        if op == "rig":
            cur = s.int("rig%d" % i, 0, top)
            receive_rig(appl, cur)
            s.check(midi.take() == [], "nothing-sent-on-receive")
        elif op in ("up", "down"):
            a, b = click(appl, hws, 0 if op == "up" else 1)
            s.check(b == [], "nothing-sent-on-release")
            if cur is None:
                s.check(a == [], "nothing-sent-while-unknown")
            else:
                base = cur // 5 if pre is None else pre
                pre = (base + (1 if op == "up" else -1)) % m
                s.check(s.eq(a, [("CC", 47, pre)]), "preselected-bank", lambda: "%s instead of %s" % (a, pre))
        else:
            a, b = click(appl, hws, 2)
            exp = [("CC", 52, 1)]
            if pre is None and rig_bank:
                exp = [("CC", 47, rig_bank - 1)] + exp
            s.check(s.eq(a, exp), "rig-select", lambda: "%s instead of %s" % (a, exp))
            s.check(s.eq(b, [("CC", 52, 0)]), "rig-select-release")
            pre = None


def direct(s, n):
    """Without preselect, the device does the work"""
    B = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    hws, appl = make(s, [B.BANK_UP(use_leds = False, color = (1, 1, 1)), B.BANK_DOWN(use_leds = False, color = (1, 1, 1))])
    for i in range(n):
        op = s.choice("op%d" % i, ["up", "down", "rig"])
        if op == "rig":
            receive_rig(appl, s.int("rig%d" % i, 0, 624))
            s.check(appl.test_midi.take() == [], "nothing-sent-on-receive")
        else:
            a, b = click(appl, hws, 0 if op == "up" else 1)
            s.check(s.eq(a, [("CC", 48 if op == "up" else 49, 0)]), "message")
            s.check(b == [], "nothing-sent-on-release")


def display(s, up, pre, mode, dim, kind):
    B = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    label = Label()
    calls = []

    def color_cb(action, bank, rig):
        return (100, 50, 10)

    def text_cb(action, bank, rig):
        calls.append((bank, rig))
        return "T"

    kw = {"display": label, "preselect": pre, "dim_factor": dim, "led_brightness": dim}
    if mode == "target":
        kw["display_mode"] = R.RIG_SELECT_DISPLAY_TARGET_RIG
    if kind == "callbacks":
        kw["color_callback"] = color_cb
        kw["text_callback"] = text_cb
    elif kind == "fixed":
        kw["color"] = (100, 50, 10)
        kw["text"] = "T"
    config = {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.25, "displayDimFactorOn": 0.75, "displayDimFactorOff": 0.5}
    df = {"off": 0.5, "on": 0.75}.get(dim, dim)
    lb = {"off": 0.25, "on": 0.5}.get(dim, dim)
    hws, appl = make(s, [(B.BANK_UP if up else B.BANK_DOWN)(**kw)], config)
    appl.inputs[0].actions[0].update()
    s.check(label.text == ("T" if kind == "fixed" else "Bank up" if up else "Bank dn"), "initial-text")
    s.check(s.eq(tuple(label.back_color), tuple(int(255 * df) for i in range(3))), "initial-color")
    s.check(s.eq(tuple(appl.led_driver.leds[0]), tuple(int(255 * lb) for i in range(3))), "initial-led")
    cur = s.int("rig", 0, 624)
    receive_rig(appl, cur)
    bank = cur // 5
    target = s.ite(bank == 124, 0, bank + 1) if up else s.ite(bank == 0, 124, bank - 1)
    x = target if mode == "target" else bank
    if kind == "plain":
        s.check(label.text == ("Bank up" if up else "Bank dn"), "text")
        s.check(has_color(s, label.back_color, x, df), "label-color", lambda: "%s for %s" % (label.back_color, cur))
        s.check(has_color(s, appl.led_driver.leds[0], x, lb), "led-color", lambda: "%s for %s" % (appl.led_driver.leds[0], cur))
    else:
        s.check(label.text == "T", "text")
        s.check(s.eq(tuple(label.back_color), tuple(int(c * df) for c in (100, 50, 10))), "label-color")
        s.check(s.eq(tuple(appl.led_driver.leds[0]), tuple(int(c * lb) for c in (100, 50, 10))), "led-color")
    if kind == "callbacks":
        s.check(len(calls) == 1 and s.eq(calls[0], (x, cur % 5)), "callback-arguments", lambda: repr(calls))


def blink(s, n, level):
    """A preselecting bank switch blinks until a rig is selected"""
    B = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    kw = {"preselect": True, "color": (100, 100, 100), "led_brightness": level}
    hws, appl = make(s, [B.BANK_UP(**kw), B.BANK_DOWN(**kw), R.RIG_SELECT(3, use_leds = False)], {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.25})
    leds = appl.led_driver.leds
    s.world.ms = s.int("t0", 401, 2000)
    receive_rig(appl, 7)
    off, on = {"off": (25, 50), "on": (50, 25), 0.5: (50, 5)}[level]
    off, on = (off,) * 3, (on,) * 3
    s.check(s.eq(tuple(leds[0]), off), "not-blinking")
    by = s.choice("by", [0, 1])
    click(appl, hws, by)
    last = None
    state = False

    def update():
        for inp in appl.inputs:
            for a in inp.actions:
                a.update()
                a.callback.update()

    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 1000))
        update()
        now = s.world.ms
        if last is None or bool(now > last + 400):
            last = now
            state = not state
        s.check(s.eq(tuple(leds[by]), on if state else off), "blinking", lambda: "%s instead of %s" % (leds[by], on if state else off))
        s.check(s.eq(tuple(leds[1 - by]), off), "other-not-blinking")
    click(appl, hws, 2)
    receive_rig(appl, 13)
    for i in range(2):
        s.advance(s.int("end%d" % i, 0, 1000))
        update()
        s.check(s.And(s.eq(tuple(leds[0]), off), s.eq(tuple(leds[1]), off)), "blinking-ends")


def jobs(tier):
    q = tier == "quick"
    n = 5 if q else 6
    ret = [job(direct, n = n), job(blink, n = 5 if q else 7, level = "off"), job(blink, n = 3, level = "on"), job(blink, n = 3, level = 0.5)]
    for mb, rb in ((None, None), (10, 7), (3, None)):
        ret.append(job(preselect, n = n, max_bank = mb, rig_bank = rb, known = True))
    ret.append(job(preselect, n = 3, max_bank = None, rig_bank = 9, known = False))
    for up in (True, False):
        for pre in (True, False):
            for mode in ("current", "target"):
                for dim, kind in (("off", "plain"), ("on", "callbacks"), (0.5, "fixed"), ("on", "plain")):
                    ret.append(job(display, up = up, pre = pre, mode = mode, dim = dim, kind = kind))
    return ret

"""Parameter up/down"""
from .common import *

BOUNDS = {
    "quick": "histories of 4 steps (press/release/value received/elapsed time 0..3000 ms) of the whole controller, any offset -max..max, repeat intervals 200, 500 and none, NRPN, CC and limited ranges; all parameter values for the display",
    "thorough": "histories of 5 steps, all combinations of kinds, intervals and directions"
}


class Override:
    """Override of a switch, consumes everything"""
    def push(self):
        return False

    def release(self):
        return False


def make(s, kind, offset, repeat, maximum = None, label = None, **kw):
    UD = s.obj("pyswitch.clients.local.actions.param_change:PARAMETER_UP_DOWN")
    mp = generic_mapping(s, kind)
    cfg = dict(mapping = mp, offset = offset, display = label, **kw)
    if repeat != "default":
        cfg["repeat_interval_millis"] = repeat
    if maximum:
        cfg["max_value"] = maximum
    hw = SwitchModel()
    appl = controller(s, [{"assignment": {"model": hw, "pixels": [0, 1]}, "actions": [UD(**cfg)]}], protocol = Protocol())
    return mp, hw, appl


def steps(s, n, kind, repeat, maximum, sign, known):
    mx = maximum or (16383 if kind == "nrpn" else 127)
    off = s.int("offset", 0, mx)
    if sign < 0:
        off = -off
    interval = 200 if repeat == "default" else repeat
    mp, hw, appl = make(s, kind, off, repeat, maximum, use_leds = False)
    midi = appl.test_midi
    s.world.ms = s.int("t0", 0, 1000)

    def msg(v):
        return ("SX", (0, 0x20, 0x33), (2, 0x7f, 0x01, 0, 4, 0, v >> 7, v & 127)) if kind == "nrpn" else ("CC", 20, v)

    cur = None
    held = False             # held down, after having changed the value
    last_update = 0
    last_step = None
    for i in range(n):
        if i:
            s.advance(s.int("dt%d" % i, 0, 3000))
        op = s.choice("op%d" % i, (["receive"] if known else ["switch"]) if i == 0 else ["receive", "switch", "none"] if i == 2 else ["switch", "none"])
        rec = None
        if op == "switch":
            hw.pushed = not hw.pushed
        elif op == "receive":
            rec = s.int("v%d" % i, 0, mx)
            midi.queue.append(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, rec >> 7, rec & 127]) if kind == "nrpn" else midi.CC(20, rec))
        appl.tick()
        sent = midi.take()
        exp = []
        now = s.world.ms

        def step(v):
            x = v + off
            x = s.ite(x < 0, 0, s.ite(x > mx, mx, x))
            exp.append(msg(x))
            return x

        if op == "switch" and hw.pushed:
            if cur is not None:
                cur = step(cur)
                held = True
                last_step = now
        elif op == "switch":
            held = False
        if rec is not None:
            cur = rec
        if now > last_update + 200:
            last_update = now
            if held and interval and now > last_step + interval:
                cur = step(cur)
                last_step = now
        s.check(s.eq(sent, exp), "steps", lambda: "sent %s, expected %s" % (sent, exp))
        if cur is not None:
            s.check(s.eq(mp.value, cur), "parameter-value", lambda: "%s instead of %s" % (mp.value, cur))


def lost_release(s, n, how):
    """A switch released while its action is disabled or overridden does not repeat any more, nothing is sent while disabled"""
    en = EnableCallback()
    off = s.int("offset", 1, 100)
    mp, hw, appl = make(s, "nrpn", off, "default", use_leds = False, enable_callback = en)
    midi = appl.test_midi
    s.world.ms = s.int("t0", 0, 1000)
    v = s.int("v", 0, 16000)
    midi.queue.append(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, v >> 7, v & 127]))
    appl.tick()
    hw.pushed = True
    s.advance(s.int("dt1", 0, 500))
    appl.tick()
    s.check(len(midi.take()) >= 1, "pressed")
    if how == "disabled":
        en.state = False
    else:
        appl.inputs[0].override_action = Override()
    for i in range(n):
        s.advance(s.int("wait%d" % i, 0, 1000))
        appl.tick()
        sent = midi.take()
        s.check(how != "disabled" or sent == [], "nothing-sent-while-disabled", lambda: "%s" % (sent,))
    hw.pushed = False
    appl.tick()
    midi.take()
    back = s.flag("back")
    for i in range(n):
        s.advance(s.int("later%d" % i, 0, 1000))
        if back and i == n - 1:
            en.state = True
            appl.inputs[0].override_action = None
        appl.tick()
        sent = midi.take()
        s.check(sent == [], "nothing-sent-after-release", lambda: "%s" % (sent,))


def display(s, kind, maximum, sign, preview):
    """Label and LEDs show the value in percent"""
    mx = maximum or (16383 if kind == "nrpn" else 127)
    label = Label()
    pre = Label()
    kw = {"text": "Vol {val} pct", "color": (200, 100, 50), "led_brightness": 0.5}
    if preview:
        kw["change_display"] = pre
    off = sign * s.int("offset", 1, mx)
    mp, hw, appl = make(s, kind, off, None, maximum, label, **kw)
    midi = appl.test_midi
    # initial: unknown
    s.world.ms = 1000
    appl.tick()
    s.check(label.text == "Vol ? pct", "unknown-value")
    v = s.int("v", 0, mx)
    midi.queue.append(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, v >> 7, v & 127]) if kind == "nrpn" else midi.CC(20, v))
    s.advance(10)
    appl.tick()

    def percent(text, v, what):
        ks = s.numbers(text)
        s.check(len(ks) == 1, what + "-number")
        k = ks[0]
        s.check(s.And(2 * (k * mx - v * 100) <= mx, 2 * (v * 100 - k * mx) <= mx), what, lambda: "%s for %s of %s" % (text, v, mx))
        return k

    def leds(v):
        x = v if sign > 0 else mx - v
        for p in (1,):
            for h, c in enumerate((200, 100)):
                d = 2 * mx * appl.led_driver.leds[p][h] - c * x
                s.check(s.And(d <= 2 * mx, -d <= 2 * mx), "led-brightness", lambda: "%s for %s" % (appl.led_driver.leds[p], v))
        for h, c in enumerate((200, 100, 50)):
            d = mx * label.back_color[h] - c * x
            s.check(s.And(d <= mx, -d <= mx), "label-color", lambda: "%s for %s" % (label.back_color, v))

    label.back_color = (99, 77, 55)
    k = percent(label.text, v, "percent")
    s.check(s.eq(label.text, s.text("Vol # pct", k)), "label-text")
    s.check(pre.override_text is None, "no-preview-without-change")

    hw.pushed = True
    s.advance(10)
    appl.tick()
    x = v + off
    x = s.ite(x < 0, 0, s.ite(x > mx, mx, x))
    if preview:
        k = percent(pre.override_text, x, "preview")
        s.check(s.eq(pre.override_text, s.text("M: #%", k)), "preview-text")
    if bool(x != v):
        percent(label.text, x, "percent")
        leds(x)
    # Changed on the device
    w = s.int("w", 0, mx)
    midi.queue.append(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, w >> 7, w & 127]) if kind == "nrpn" else midi.CC(20, w))
    s.advance(10)
    appl.tick()
    if bool(w != x):
        percent(label.text, w, "percent")
        leds(w)


def jobs(tier):
    q = tier == "quick"
    n = 4 if q else 5
    ret = [job(lost_release, n = n - 2, how = h) for h in ("disabled", "overridden")]
    for kind, rep, mx in (("nrpn", "default", None), ("cc", 500, None), ("nrpn", None, 1000), ("cc", 0, 100)):
        for sign in (1, -1):
            for known in (True, False):
                if q and (rep, sign, known) not in (("default", 1, True), ("default", -1, True), ("default", 1, False), (500, 1, True), (None, -1, True)):
                    continue
                ret.append(job(steps, n = n if known else 4, kind = kind, repeat = rep, maximum = mx, sign = sign, known = known, path_seconds = 60))
    for kind, mx in (("nrpn", None), ("cc", None), ("cc", 100)):
        for sign in (1, -1):
            if q and kind == "cc" and mx is None and sign < 0:
                continue
            ret.append(job(display, kind = kind, maximum = mx, sign = sign, preview = True, path_seconds = 120))
    return ret

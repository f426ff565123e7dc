"""Rig up/down"""
from .common import *

BOUNDS = {
    "quick": "histories of 6 steps, with display 3 or 4 (switch pressed/released, rig ID 0..624 received, device follows the last selection), up and down, keeping or changing banks, current or target display; unknown rig at the start or not; switches hidden while they are held (2 presses)",
    "thorough": "histories of 7 steps"
}

BANKS = 125
COLORS = 5


def target(s, rid, up, keep):
    """Specification: the next or previous rig"""
    bank, rig = rid // 5, rid % 5
    if keep:
        nrig = s.ite(rig == 4, 4, rig + 1) if up else s.ite(rig == 0, 0, rig - 1)
        return bank * 5 + nrig
    if up:
        return s.ite(rid == BANKS * 5 - 1, 0, rid + 1)
    return s.ite(rid == 0, BANKS * 5 - 1, rid - 1)


def receive_rig(appl, rid):
    m = appl.test_midi
    appl.client.receive(m.CC(32, rid >> 7))
    appl.client.receive(m.PC(rid & 127))


def bank_color(s, bank):
    cols = s.obj("pyswitch.clients.kemper:BANK_COLORS")
    return [s.And(bank % COLORS == i) for i in range(COLORS)], cols


def has_color(s, got, bank, factor = None):
    """<got> is the bank color of <bank>"""
    cols = s.obj("pyswitch.clients.kemper:BANK_COLORS")
    return s.And(*[s.Implies(bank % COLORS == i, s.eq(tuple(got), tuple(int(c * factor) if factor is not None else c for c in cols[i]))) for i in range(COLORS)])


def history(s, n, up, keep, mode, known):
    R = s.load("pyswitch.clients.kemper.actions.rig_up_down")
    sel = s.load("pyswitch.clients.kemper.actions.rig_select")
    factory = R.RIG_UP if up else R.RIG_DOWN
    label = Label() if mode else None
    kw = {"keep_bank": keep, "display": label, "use_leds": False}
    if mode == "current":
        kw["display_mode"] = sel.RIG_SELECT_DISPLAY_CURRENT_RIG
    if not mode:
        kw["color"] = (1, 1, 1)
    hw = SwitchModel()
    appl = controller(s, [{"assignment": {"model": hw}, "actions": [factory(**kw)]}], protocol = Protocol(False))
    sw = appl.inputs[0]
    midi = appl.test_midi

    cur = None
    selected = None              # device: rig selected by the last messages
    pressed = None               # rig whose selection has been sent with the running press

    def show():
        if not label or cur is None:
            return
        x = cur if mode == "current" else target(s, cur, up, keep)
        s.check(s.eq(label.text, s.text("Rig #-#", x // 5 + 1, x % 5 + 1)), "label-text", lambda: "%s for %s" % (label.text, cur))
        s.check(has_color(s, label.back_color, x // 5), "label-color")

    for i in range(n):
        op = s.choice("op%d" % i, (["rig"] if known else ["switch"]) if i == 0 else ["switch"] if mode is None and i % 2 else ["switch", "rig"])
        exp = []
        if op == "rig":
            cur = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, cur)
            show()
        elif not hw.pushed:
            hw.pushed = True
            sw.process()
            if cur is not None:
                t = target(s, cur, up, keep)
                if bool(t != cur):
                    if bool(t // 5 != cur // 5):
                        exp.append(("CC", 47, t // 5))
                    exp.append(("CC", 50 + t % 5, 1))
                    pressed = t % 5
                    selected = t
        else:
            hw.pushed = False
            sw.process()
            if pressed is not None:
                exp.append(("CC", 50 + pressed, 0))
                pressed = None
        sent = midi.take()
        s.check(s.eq(sent, exp), "messages", lambda: "sent %s, expected %s" % (sent, exp))


def hidden(s, n, up, keep):
    """Switch which is hidden (other page) or overridden while it is held, several times"""
    R = s.load("pyswitch.clients.kemper.actions.rig_up_down")
    en = EnableCallback()
    hw = SwitchModel()
    act = (R.RIG_UP if up else R.RIG_DOWN)(keep_bank = keep, use_leds = False, color = (1, 1, 1), enable_callback = en)
    appl = controller(s, [{"assignment": {"model": hw}, "actions": [act]}], protocol = Protocol(False))
    midi = appl.test_midi

    for i in range(n):
        cur = s.int("rig%d" % i, 0, 624)
        receive_rig(appl, cur)
        midi.take()
        t = target(s, cur, up, keep)
        s.assume(t != cur)
        exp = [("CC", 47, t // 5)] if bool(t // 5 != cur // 5) else []

        hw.pushed = True
        appl.inputs[0].process()
        sent = midi.take()
        s.check(s.eq(sent, exp + [("CC", 50 + t % 5, 1)]), "messages", lambda: "sent %s for rig %s" % (sent, cur))

        if i < n - 1 and s.flag("hidden%d" % i):
            en.state = False
        hw.pushed = False
        appl.inputs[0].process()
        sent = midi.take()
        s.check(s.eq(sent, [("CC", 50 + t % 5, 0)] if en.state else []), "release", lambda: "sent %s for rig %s" % (sent, cur))
        en.state = True


def leds(s, up, keep, mode, kind):
    """LEDs and color/text overrides"""
    R = s.load("pyswitch.clients.kemper.actions.rig_up_down")
    sel = s.load("pyswitch.clients.kemper.actions.rig_select")
    factory = R.RIG_UP if up else R.RIG_DOWN
    label = Label()
    calls = []

    def color_cb(action, bank, rig):
        calls.append((bank, rig))
        return (1, 2, 3)

    def text_cb(action, bank, rig):
        calls.append((bank, rig))
        return "T"

    kw = {"keep_bank": keep, "display": label}
    if mode == "current":
        kw["display_mode"] = sel.RIG_SELECT_DISPLAY_CURRENT_RIG
    if kind == "callbacks":
        kw["color_callback"] = color_cb
        kw["text_callback"] = text_cb
    elif kind == "fixed":
        kw["color"] = (1, 2, 3)
        kw["text"] = "T"
    appl = controller(s, [{"assignment": {"model": SwitchModel(), "pixels": [0, 1]}, "actions": [factory(**kw)]}], protocol = Protocol(False), config = {"ledBrightnessOn": 0.5})
    cur = s.int("rig", 0, 624)
    receive_rig(appl, cur)
    x = cur if mode == "current" else target(s, cur, up, keep)
    for p in range(2):
        got = appl.led_driver.leds[p]
        if kind == "plain":
            s.check(has_color(s, got, x // 5, 0.5), "led-color", lambda: "%s for rig %s" % (got, cur))
        else:
            s.check(s.eq(tuple(got), (0, 1, 1)), "led-color")
    if kind != "plain":
        s.check(label.text == "T", "text-override")
        s.check(s.eq(label.back_color, (1, 2, 3)), "color-override")
    if kind == "callbacks":
        s.check(len(calls) == 2, "callback-calls")
        for b, r in calls:
            s.check(s.And(b >= 0, b < BANKS, r >= 0, r < 5), "callback-range")


def jobs(tier):
    n = 6 if tier == "quick" else 7
    ret = [job(hidden, n = 2 if tier == "quick" else 3, up = x, keep = x) for x in (True, False)]
    for up in (True, False):
        for keep in (True, False):
            ret.append(job(history, n = n, up = up, keep = keep, mode = None, known = True))
            for mode in ("target", "current"):
                ret.append(job(history, n = n - 3 if mode == 'target' and keep else n - 2, up = up, keep = keep, mode = mode, known = True))
                for k in ("plain", "fixed", "callbacks"):
                    ret.append(job(leds, up = up, keep = keep, mode = mode, kind = k))
        ret.append(job(history, n = n, up = up, keep = True, mode = None, known = False))
    return ret

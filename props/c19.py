"""Rig select"""
from .common import *
from .c17 import receive_rig
from .c18 import make, click

BOUNDS = {
    "quick": "histories of 4 steps (click, rig ID 0..624 received, also before the release) for all kinds of settings (rig, bank, off rig, off bank fixed or automatic, excluded rigs); texts and colours for all rig IDs and both display modes; histories of 3 steps with preselected banks; switches hidden while they are held (2 presses)",
    "thorough": "histories of 5 steps, display after 3 received rig IDs"
}
OUTSIDE = "automatic off bank together with excluded rigs; bank_off without bank; displays between a preselection and the next rig ID (see C20)"

CASES = {
    # rig, bank, rig_off, bank_off, exclude
    "rig": (4, None, None, None, None),
    "rig-bank": (2, 30, None, None, None),
    "toggle": (1, None, 5, None, None),
    "toggle-bank": (3, 2, 1, 125, None),
    "bank-off": (3, 2, None, 7, None),
    "auto": (3, None, "auto", None, None),
    "auto-exclude": (3, None, "auto", None, (4, 1)),
    "auto-both": (3, 2, "auto", "auto", None),
    "auto-bank": (2, 9, None, "auto", None),
    "auto-rig": (2, 9, "auto", 4, None),
    "reselect": (None, None, None, None, None),
    "reselect-bank": (None, 12, None, None, None),
}


class Model:
    def __init__(self, s, case):
        self.s = s
        self.rig, self.bank, rig_off, bank_off, self.exclude = CASES[case]
        self.auto_rig = rig_off == "auto"
        self.auto_bank = bank_off == "auto"
        self.rig_off = 1 if self.auto_rig else rig_off        # numbers starting from 1
        self.bank_off = 1 if self.auto_bank else bank_off
        self.cur = None

    @property
    def cbank(self):
        return self.cur // 5

    @property
    def crig(self):
        return self.cur % 5

    def state(self):
        """We are on the rig of this switch"""
        if self.cur is None or self.rig is None:
            return False
        return self.s.And(self.crig == self.rig - 1, True if self.bank is None else self.cbank == self.bank - 1)

    def received(self, v):
        self.cur = v
        on = bool(self.state())
        if on:
            return
        excluded = self.exclude and bool(self.s.Or(*[self.crig == x - 1 for x in self.exclude]))
        if self.auto_rig and not excluded:
            self.rig_off = self.crig + 1
            if self.auto_bank:
                self.bank_off = self.cbank + 1
        elif self.auto_bank and bool(self.cbank != self.bank - 1):
            self.bank_off = self.cbank + 1

    def target(self):
        """Bank (None: stay) and rig (None: none) to be selected by the next press, counted from 0"""
        on = bool(self.state())
        bank = None
        if self.bank is not None:
            bank = (self.bank_off if on and self.bank_off is not None else self.bank) - 1
        if on and self.rig_off is not None:
            rig = self.rig_off - 1
        elif self.rig is not None:
            rig = self.rig - 1
        elif self.cur is not None:
            rig = self.crig
        else:
            rig = None
        return bank, rig


def action(s, case, **kw):
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    rig, bank, rig_off, bank_off, exclude = CASES[case]
    if "display_mode" in kw:
        kw["display_mode"] = getattr(R, "RIG_SELECT_DISPLAY_" + kw["display_mode"])
    if exclude:
        kw["auto_exclude_rigs"] = exclude
    return R.RIG_SELECT(rig = rig, bank = bank, rig_off = rig_off, bank_off = bank_off, **kw)


def hidden(s, n, case):
    """Switch which is hidden (other page) while it is held"""
    en = EnableCallback()
    hws, appl = make(s, [action(s, case, use_leds = False, color = (1, 1, 1), enable_callback = en)])
    midi = appl.test_midi
    m = Model(s, case)
    for i in range(n):
        v = s.int("rig%d" % i, 0, 624)
        receive_rig(appl, v)
        m.received(v)
        bank, rig = m.target()
        exp = ([("CC", 47, bank)] if bank is not None else []) + [("CC", 50 + rig, 1)]
        midi.take()

        hws[0].pushed = True
        appl.inputs[0].process()
        sent = midi.take()
        s.check(s.eq(sent, exp), "messages", lambda: "sent %s instead of %s" % (sent, exp))

        if i < n - 1 and s.flag("hidden%d" % i):
            en.state = False
        hws[0].pushed = False
        appl.inputs[0].process()
        sent = midi.take()
        s.check(s.eq(sent, [("CC", 50 + rig, 0)] if en.state else []), "release", lambda: "sent %s" % (sent,))
        en.state = True


def history(s, n, case, known, held = False):
    hws, appl = make(s, [action(s, case, use_leds = False, color = (1, 1, 1))])
    midi = appl.test_midi
    m = Model(s, case)
    hw = hws[0]

    def press(down):
        hw.pushed = down
        appl.inputs[0].process()
        return midi.take()

    for i in range(n):
        op = "click" if held and i > 0 else s.choice("op%d" % i, (["rig"] if known else ["click"]) if i == 0 else ["click", "rig"] if i < n - 1 else ["click"])
        if op == "rig":
            v = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, v)
            m.received(v)
            s.check(midi.take() == [], "nothing-sent-on-receive")
        else:
            bank, rig = m.target()
            exp = []
            if bank is not None:
                exp.append(("CC", 47, bank))
            if rig is not None:
                exp.append(("CC", 50 + rig, 1))
            sent = press(True)
            s.check(s.eq(sent, exp), "messages", lambda: "sent %s, expected %s at rig %s" % (sent, exp, m.cur))
            if i == n - 1 or held:
                # The device reports a rig before the switch is released
                v = s.int("late%d" % i, 0, 624)
                receive_rig(appl, v)
                m.received(v)
                s.check(midi.take() == [], "nothing-sent-on-receive")
            sent = press(False)
            exp = [("CC", 50 + rig, 0)] if rig is not None else []
            s.check(s.eq(sent, exp), "release", lambda: "sent %s, expected %s" % (sent, exp))


def preselected(s, n, case, up):
    """A preselected bank: the rig of the switch is selected there, the off state plays no role"""
    B = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    fn = B.BANK_UP if up else B.BANK_DOWN
    hws, appl = make(s, [action(s, case, use_leds = False, color = (1, 1, 1)), fn(preselect = True, use_leds = False, color = (1, 1, 1))])
    m = Model(s, case)
    v = s.int("first", 0, 624)
    receive_rig(appl, v)
    m.received(v)
    pre = False
    for i in range(n):
        op = s.choice("op%d" % i, ["bank", "click", "rig"] if i < n - 1 else ["click"])
        if op == "rig":
            v = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, v)
            m.received(v)
        elif op == "bank":
            click(appl, hws, 1)
            pre = True
        else:
            bank, rig = m.target()
            if pre:
                bank, rig = None, m.rig - 1 if m.rig is not None else m.crig
                pre = False
            exp = [("CC", 47, bank)] if bank is not None else []
            exp.append(("CC", 50 + rig, 1))
            sent, rel = click(appl, hws, 0)
            s.check(s.eq(sent, exp), "messages-preselected", lambda: "sent %s, expected %s at rig %s" % (sent, exp, m.cur))
            s.check(s.eq(rel, [("CC", 50 + rig, 0)]), "release", lambda: str(rel))


def display(s, n, case, mode, kind):
    label = Label()
    calls = []

    def color_cb(action, bank, rig):
        calls.append((bank, rig))
        return (100, 50, 10)

    def text_cb(action, bank, rig):
        calls.append((bank, rig))
        return "T"

    kw = {"display": label, "display_mode": mode}
    if kind == "callbacks":
        kw["color_callback"] = color_cb
        kw["text_callback"] = text_cb
    elif kind == "fixed":
        kw["color"] = (100, 50, 10)
        kw["text"] = "T"
    hws, appl = make(s, [action(s, case, **kw)], {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.25, "displayDimFactorOff": 0.5})
    leds = appl.led_driver.leds
    cols = s.obj("pyswitch.clients.kemper:BANK_COLORS")
    m = Model(s, case)
    appl.inputs[0].actions[0].update()
    s.check(label.text == "", "initial-text")
    for i in range(n):
        v = s.int("rig%d" % i, 0, 624)
        receive_rig(appl, v)
        m.received(v)
        on = bool(m.state())
        bank, rig = m.target()
        if mode == "CURRENT_RIG":
            bank, rig = m.cbank, m.crig
        elif bank is None:
            bank = m.cbank
        if kind == "plain":
            col = [s.ite(bank % 5 == 0, cols[0][h], s.ite(bank % 5 == 1, cols[1][h], s.ite(bank % 5 == 2, cols[2][h], s.ite(bank % 5 == 3, cols[3][h], cols[4][h])))) for h in range(3)]
            s.check(s.eq(label.text, s.text("Rig #-#", bank + 1, rig + 1)), "text", lambda: "%s at %s" % (label.text, m.cur))
        else:
            col = (100, 50, 10)
            s.check(label.text == "T", "text")
        bright = on and mode == "TARGET_RIG"
        s.check(s.eq(tuple(label.back_color), tuple(c if bright else c // 2 for c in col)), "label-color", lambda: "%s at %s" % (label.back_color, m.cur))
        s.check(s.eq(tuple(leds[0]), tuple(c // 2 if bright else c // 4 for c in col)), "led-color", lambda: "%s at %s" % (leds[0], m.cur))
        s.check(s.And(*[s.And(b >= 0, b < 125, r >= 0, r < 5) for b, r in calls]), "callback-range")


def jobs(tier):
    q = tier == "quick"
    n = 4 if q else 5
    ret = []
    for c in CASES:
        ret.append(job(history, n = n, case = c, known = True))
        ret.append(job(history, n = n, case = c, known = True, held = True))
        if c in ("rig-bank", "reselect", "reselect-bank", "toggle-bank"):
            ret.append(job(history, n = 3, case = c, known = False))
        for mode in ("CURRENT_RIG", "TARGET_RIG"):
            ret.append(job(display, n = 2 if q else 3, case = c, mode = mode, kind = "plain"))
        ret.append(job(preselected, n = 3 if q else 4, case = c, up = c in ("rig", "toggle", "auto")))
    for c in ("rig", "toggle", "auto", "rig-bank"):
        ret.append(job(hidden, n = 2 if q else 3, case = c))
    for c in ("toggle-bank", "auto-both"):
        for k in ("fixed", "callbacks"):
            ret.append(job(display, n = 1, case = c, mode = "TARGET_RIG", kind = k))
    return ret

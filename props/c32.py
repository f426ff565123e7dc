"""Morph state displays"""
from .common import *
from .c18 import make, click
from .c17 import receive_rig, has_color
from .c31 import nrpn

FULL = 16383


class Reporting(Protocol):
    """The device reports values any time, sent ones are not reflected"""
    def feedback_value(self, mapping):
        return False


BOUNDS = {
    "quick": "blending: all 16384 reported values for 5 pairs of colours, fixed colours; shared morph state: histories of 5 steps (morph button, rig select with or without morph simulation, rig up, bank up, rig and morph values received) with a display and a button; rig select with morph display: histories of 4 steps",
    "thorough": "shared morph state over 6 steps, rig select with morph display over 5 steps"
}
OUTSIDE = "the morph colour between a change of the state and the next report of the device; the first report after the morph display has been enabled by something else than its own switch; combinations of several rig select switches with morph displays"

PAIRS = [((255, 0, 0), (0, 0, 255)), ((0, 0, 0), (255, 255, 255)), ((10, 200, 30), (11, 20, 30)), ((255, 255, 254), (0, 1, 2)), ((7, 7, 7), (7, 7, 7))]


def blended(s, got, base, morphed, v):
    """<got> is the colour between base and morphed for v"""
    got = tuple(got)
    c = [len(got) == 3]
    for g, b, m in zip(got, base, morphed):
        lo, hi = min(b, m), max(b, m)
        d = FULL * (g - b) - (m - b) * v
        if not isinstance(v, int):
            c.append(s.And(g >= lo, g <= hi, d <= FULL, d >= -FULL))
        elif v in (0, FULL):
            c.append(g == (m if v else b))
        else:
            c.append(s.And(g >= lo, g <= hi, d <= FULL, d >= -FULL))
    return s.And(*c)


def blend(s, button, fixed):
    M = s.load("pyswitch.clients.kemper.actions.morph")
    base, morphed = s.choice("pair", PAIRS)
    label = Label()
    kw = {"morph_color_base": base, "morph_color_morphed": morphed, "display": label}
    if s.flag("defaults"):
        base, morphed = (255, 0, 0), (0, 0, 255)
        kw = {"display": label}
    text = "Morph"
    if s.flag("own_text"):
        text = kw["text"] = "Mo"
    fix = None
    if fixed:
        fix = kw["color"] = (s.int("r", 0, 255), s.int("g", 0, 255), s.int("b", 0, 1))
    hws, appl = make(s, [(M.MORPH_BUTTON if button else M.MORPH_DISPLAY)(**kw)], protocol = Reporting(), config = {"ledBrightnessOn": 0.4, "ledBrightnessOff": 0.1, "displayDimFactorOff": 0.3})
    sw = appl.inputs[0]

    def shown(v, what):
        for c in (sw.color, label.back_color):
            if fix is not None:
                s.check(s.eq(tuple(c), fix), "fixed-" + what, lambda: "%s" % (c,))
            else:
                s.check(blended(s, c, base, morphed, v), "colour-" + what, lambda: "%s for %s between %s and %s" % (c, v, base, morphed))
        s.check(label.text == text, "text-" + what)
        s.check(abs(sw.brightness - 0.4) < 0.0001, "brightness-" + what)

    appl.update()
    shown(0, "start")
    v = report(s, 1)
    nrpn(appl, 0, 0x0b, v)
    shown(v, "reported")
    if s.flag("again"):
        v = report(s, 2)
        nrpn(appl, 0, 0x0b, v)
        shown(v, "second")
    appl.update()
    shown(v, "updated")
    s.check(appl.test_midi.take() == [], "nothing-sent")
    a, b = click(appl, hws, 0)
    if button:
        s.check(a == [("CC", 80, 1)] and b == [("CC", 80, 0)], "button-messages", lambda: "%s %s" % (a, b))
    else:
        s.check(a == [] and b == [], "display-sends-nothing", lambda: "%s %s" % (a, b))
        shown(v, "after-press")


# reported levels where all values have been covered by blend()
LEVELS = [0, 5000, FULL]


def toggled(s, x):
    return 0 if bool(x > 0) else FULL


def report(s, i):
    """Any morph value; both ends are told apart as only these have an exact colour"""
    k = s.choice("end%s" % i, ["any", "base", "full"])
    return s.int("v%s" % i, 1, FULL - 1) if k == "any" else 0 if k == "base" else FULL


def state(s, n, morph, momentary, other):
    """The morph state shown is shared and follows the last action or changed report"""
    M = s.load("pyswitch.clients.kemper.actions.morph")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    U = s.load("pyswitch.clients.kemper.actions.rig_up_down")
    B = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    S = s.load("pyswitch.clients.kemper.actions.bank_select")
    quiet = {"use_leds": False, "color": (1, 1, 1)}
    bank = s.choice("bank", [None, 2])
    kw = {"rig_btn_morph": morph, "momentary_morph": momentary}
    hws, appl = make(s, [
        M.MORPH_BUTTON(),
        M.MORPH_DISPLAY(),
        R.RIG_SELECT(3, bank = bank, **kw, **quiet),
        U.RIG_UP(**quiet),
        B.BANK_UP(**quiet),
        S.BANK_SELECT(4, **quiet)
    ], protocol = Reporting())
    appl.update()
    ov = 0
    last = None
    rig = None
    for i in range(n):
        ops = ["value", "button", "select"] + ([other] if i < n - 2 else [])
        op = s.choice("op%d" % i, ["value", "rig"] if i == 0 else ["rig", "button", "select", "value"] if i == 1 else ops if i < n - 1 else ["value"])
        if op == "value":
            v = last
            if last is None or s.flag("new%d" % i):
                v = s.choice("v%d" % i, [x for x in LEVELS if x != last][:2])
                ov = v
            last = v
            nrpn(appl, 0, 0x0b, v)
            for j in (0, 1) if i == n - 1 else ():
                s.check(blended(s, appl.inputs[j].color, (255, 0, 0), (0, 0, 255), ov), "colour", lambda: "%s shows %s for %s" % (["button", "display"][j], appl.inputs[j].color, ov))
            s.check(appl.test_midi.take() == [], "nothing-sent")
        elif op == "button":
            a, b = click(appl, hws, 0)
            s.check(a == [("CC", 80, 1)] and b == [("CC", 80, 0)], "button-messages")
            ov = toggled(s, ov)
        elif op == "rig":
            rig = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, rig)
        elif op == "select":
            same = rig is not None and bool(s.And(rig % 5 == 2, True if bank is None else rig // 5 == bank - 1))
            hold = momentary and morph and s.flag("hold%d" % i)
            if hold:
                # A report while the switch is held
                hws[2].pushed = True
                appl.inputs[2].process()
                if last is not None:
                    nrpn(appl, 0, 0x0b, last)
                    s.check(blended(s, appl.inputs[1].color, (255, 0, 0), (0, 0, 255), FULL if same else 0), "held-colour", lambda: "%s" % (appl.inputs[1].color,))
                hws[2].pushed = False
                appl.inputs[2].process()
                appl.test_midi.take()
                ov = 0
            else:
                a, b = click(appl, hws, 2)
                s.check(s.eq(a + b, ([("CC", 47, bank - 1)] if bank else []) + [("CC", 52, 1), ("CC", 52, 0)]), "select-messages", lambda: "%s %s" % (a, b))
                ov = toggled(s, ov) if same and morph and not momentary else 0
        elif op == "up":
            click(appl, hws, 3)
            if rig is not None and bool(rig % 5 != 4):
                ov = 0
        elif op == "bank":
            click(appl, hws, 4)
            ov = 0
        else:
            click(appl, hws, 5)
            if rig is not None:
                ov = 0


def preselected(s):
    """Choosing a rig of a preselected bank starts unmorphed"""
    M = s.load("pyswitch.clients.kemper.actions.morph")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    B = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    hws, appl = make(s, [
        M.MORPH_DISPLAY(),
        R.RIG_SELECT(2, rig_btn_morph = True, use_leds = False, color = (1, 1, 1)),
        B.BANK_UP(preselect = True, use_leds = False, color = (1, 1, 1)),
        M.MORPH_BUTTON(use_leds = False)
    ], protocol = Reporting())
    rig = s.int("rig", 0, 624)
    receive_rig(appl, rig)
    v = s.int("v", 1, FULL - 1)
    nrpn(appl, 0, 0x0b, v)
    click(appl, hws, 2)
    if s.flag("button"):
        click(appl, hws, 3)
        click(appl, hws, 3)
        if s.flag("odd"):
            click(appl, hws, 3)
    click(appl, hws, 1)
    nrpn(appl, 0, 0x0b, v)
    s.check(blended(s, appl.inputs[0].color, (255, 0, 0), (0, 0, 255), 0), "unmorphed", lambda: "%s" % (appl.inputs[0].color,))


def rig_display(s, n, only, morph, own_leds):
    """The morph state LED of a rig select switch is only used while its rig is selected; nothing is sent for it"""
    A = s.load("pyswitch.clients.kemper.actions.rig_select_and_morph_state")
    M = s.load("pyswitch.clients.kemper.actions.morph")
    bank = s.choice("bank", [None, 2])
    base, morphed = (200, 10, 0), (0, 20, 255)
    extra = s.choice("extra", ["none", "label", "paged"])
    mlabel = Label() if extra == "label" else None
    enable = EnableCallback() if extra == "paged" else None
    acts = A.RIG_SELECT_AND_MORPH_STATE(3, bank = bank, color = (1, 1, 1), morph_only_when_enabled = only, morph_color_base = base,
                                        morph_color_morphed = morphed, rig_btn_morph = morph, morph_display = mlabel, morph_use_leds = own_leds, enable_callback = enable)
    if enable:
        # Another page of the same switch
        X = s.load("pyswitch.clients.local.actions.binary_switch")
        other = EnableCallback(not enable.state)
        acts.append(X.BINARY_SWITCH(mapping = generic_mapping(s, "cc", response = False), color = (8, 8, 8), enable_callback = other))
    hw = SwitchModel()
    btn = SwitchModel()
    appl = controller(s, [
        {"assignment": {"model": hw, "pixels": [0, 1, 2]}, "actions": acts},
        {"assignment": {"model": btn, "pixels": [3]}, "actions": [M.MORPH_BUTTON(use_leds = False)]}
    ], protocol = Reporting())
    hws = [hw, btn]
    sw = appl.inputs[0]
    appl.update()
    midi = appl.test_midi
    rig = None
    ovs = [0]
    last = None              # last value reported
    enabled = not only
    pending = False          # the next changed report may not count
    sure = True              # nothing has happened since the last report
    for i in range(n):
        op = s.choice("op%d" % i, ["rig", "value", "press", "button"] + (["page"] if enable else []) if i < n - 1 else ["value", "rig"]) if i else "rig"
        before = enabled
        if op == "rig":
            rig = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, rig)
        elif op == "page":
            enable.state = not enable.state
            other.state = not enable.state
        elif op == "press":
            a, b = click(appl, hws, 0)
            if enable is None or enable.state:
                s.check(s.eq(a + b, ([("CC", 47, bank - 1)] if bank else []) + [("CC", 52, 1), ("CC", 52, 0)]), "messages", lambda: "%s %s" % (a, b))
                same = rig is not None and bool(s.And(rig % 5 == 2, True if bank is None else rig // 5 == bank - 1))
                ovs = [toggled(s, x) for x in ovs] if same and morph else [0]
                sure = False
            else:
                s.check(len(a + b) <= 1 and all(x[1] not in (47, 50, 51, 52, 53, 54) for x in a + b), "disabled-messages", lambda: "%s" % (a + b,))
        elif op == "button":
            click(appl, hws, 1)
            ovs = [toggled(s, x) for x in ovs]
            sure = False
        else:
            v = s.choice("v%d" % i, LEVELS[1:] if i < n - 1 else LEVELS[:2])
            nrpn(appl, 0, 0x0b, v)
            if last is None or bool(v != last):
                ovs = ovs + [v] if pending else [v]
                pending = False
            last = v
            sure = True
        appl.update()
        enabled = rig is not None and bool(s.And(rig % 5 == 2, True if bank is None else rig // 5 == bank - 1)) if only else True
        if enable is not None and not enable.state:
            enabled = False
        if enabled != before:
            pending = True
        s.check(midi.take() == [], "nothing-sent")
        if enable is not None and not enable.state:
            s.check(all(tuple(c) == (8, 8, 8) for c in sw.colors), "other-page", lambda: "%s" % (sw.colors,))
        if enable is None or enable.state:
            lead = (1, 1, 1)
            px = [tuple(c) for c in sw.colors]
            s.check(px[0] == lead and px[1] == lead, "rig-leds", lambda: "%s" % (px,))
            if not (enabled and own_leds):
                s.check(px[2] == lead, "no-morph-led", lambda: "%s" % (px,))
            elif op == "value" or sure and enabled == before and op != "page":
                s.check(s.Or(*[blended(s, px[2], base, morphed, x) for x in ovs]), "morph-led", lambda: "%s for %s" % (px, ovs))
            if mlabel and enabled and op == "value":
                s.check(s.Or(*[blended(s, mlabel.back_color, base, morphed, x) for x in ovs]), "morph-label", lambda: "%s for %s" % (mlabel.back_color, ovs))


def rig_change(s, own_leds):
    """Morph reports of the device right after choosing another rig do not count, later ones do"""
    A = s.load("pyswitch.clients.kemper.actions.rig_select_and_morph_state")
    acts = A.RIG_SELECT_AND_MORPH_STATE(3, color = (1, 1, 1), rig_btn_morph = s.flag("morph"))
    hw = SwitchModel()
    appl = controller(s, [{"assignment": {"model": hw, "pixels": [0, 1, 2]}, "actions": acts}], protocol = Reporting())
    sw = appl.inputs[0]
    appl.update()
    rig = s.int("rig", 0, 19)
    s.assume(rig % 5 != 2)
    receive_rig(appl, rig)
    appl.update()
    click(appl, [hw], 0)
    if s.flag("update"):
        appl.update()
    new = (rig // 5) * 5 + 2
    receive_rig(appl, new)
    appl.update()
    s.check(blended(s, tuple(sw.colors[2]), (255, 0, 0), (0, 0, 255), 0), "unmorphed", lambda: "%s" % (sw.colors,))
    v1 = report(s, 1)
    for i in range(s.choice("repeat", [1, 2])):
        nrpn(appl, 0, 0x0b, v1)
        appl.update()
        s.check(blended(s, tuple(sw.colors[2]), (255, 0, 0), (0, 0, 255), 0), "first-ignored", lambda: "%s after %s" % (sw.colors, v1))
    if s.flag("refresh"):
        # The same happens when pages are changed
        appl.reset_actions()
        appl.update()
        nrpn(appl, 0, 0x0b, v1)
        s.check(blended(s, tuple(sw.colors[2]), (255, 0, 0), (0, 0, 255), 0), "still-ignored", lambda: "%s after %s" % (sw.colors, v1))
    v2 = report(s, 2)
    s.assume(v2 != v1)
    nrpn(appl, 0, 0x0b, v2)
    s.check(blended(s, tuple(sw.colors[2]), (255, 0, 0), (0, 0, 255), v2), "second-counts", lambda: "%s after %s" % (sw.colors, v2))


def jobs(tier):
    q = tier == "quick"
    ret = []
    for button in (False, True):
        for fixed in ((False, True) if button else (False,)):
            ret.append(job(blend, button = button, fixed = fixed))
    n = 5 if q else 6
    for morph, mom in ((False, False), (True, False), (True, True)):
        for other in ("up", "bank", "bankselect"):
            ret.append(job(state, n = n, morph = morph, momentary = mom, other = other))
    ret.append(job(preselected))
    for only in (True, False):
        for morph in (False, True):
            ret.append(job(rig_display, n = n - 1, only = only, morph = morph, own_leds = True))
    ret.append(job(rig_display, n = n - 1, only = True, morph = True, own_leds = False))
    ret.append(job(rig_change, own_leds = True))
    return ret

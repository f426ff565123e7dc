"""Bank select and preselecting a bank by switches and encoder"""
from .common import *
from .c17 import receive_rig, has_color
from .c18 import make, click

BOUNDS = {
    "quick": "histories of 3 steps after a known rig ID 0..624 (bank select with/without preselect, bank up, encoder turned by -20..20, rig select, reselect, rig ID received); all rig IDs for texts and colours; rig name display over 4 steps; switches hidden while they are held (2 presses)",
    "thorough": "histories of 4 steps, rig name display over 5 steps"
}
OUTSIDE = "switches toggling two banks while the encoder is used; the bank the encoder starts from when a switch has preselected another one"


def one(s, n, bank, bank_off, known):
    """A single bank select switch"""
    B = s.load("pyswitch.clients.kemper.actions.bank_select")
    hws, appl = make(s, [B.BANK_SELECT(bank = bank, bank_off = bank_off, use_leds = False, color = (1, 1, 1))])
    midi = appl.test_midi
    cur = None
    for i in range(n):
        op = s.choice("op%d" % i, (["rig"] if known else ["click"]) if i == 0 else ["click", "rig"] if i < n - 1 else ["click"])
        if op == "rig":
            cur = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, cur)
            s.check(midi.take() == [], "nothing-sent-on-receive")
            continue
        a, b = click(appl, hws, 0)
        if cur is None:
            s.check(a == [] and b == [], "unknown")
            continue
        on = bool(cur // 5 == bank - 1)
        t = (bank_off if on and bank_off else bank) - 1
        s.check(s.eq(a, [("CC", 47, t), ("CC", 50 + cur % 5, 1)]), "bank-and-rig", lambda: "%s at %s" % (a, cur))
        s.check(s.eq(b, [("CC", 50 + cur % 5, 0)]), "release")


def hidden(s, n, bank, bank_off):
    """Switch which is hidden (other page) while it is held"""
    B = s.load("pyswitch.clients.kemper.actions.bank_select")
    en = EnableCallback()
    hws, appl = make(s, [B.BANK_SELECT(bank = bank, bank_off = bank_off, use_leds = False, color = (1, 1, 1), enable_callback = en)])
    midi = appl.test_midi
    for i in range(n):
        cur = s.int("rig%d" % i, 0, 624)
        receive_rig(appl, cur)
        t = (bank_off if bank_off and bool(cur // 5 == bank - 1) else bank) - 1
        midi.take()
        hws[0].pushed = True
        appl.inputs[0].process()
        sent = midi.take()
        s.check(s.eq(sent, [("CC", 47, t), ("CC", 50 + cur % 5, 1)]), "bank-and-rig", lambda: "%s at %s" % (sent, cur))
        if i < n - 1 and s.flag("hidden%d" % i):
            en.state = False
        hws[0].pushed = False
        appl.inputs[0].process()
        sent = midi.take()
        s.check(s.eq(sent, [("CC", 50 + cur % 5, 0)] if en.state else []), "release", lambda: "sent %s" % (sent,))
        en.state = True


def session(s, n, encoder):
    """All ways of selecting and preselecting banks together"""
    B = s.load("pyswitch.clients.kemper.actions.bank_select")
    U = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    E = s.load("pyswitch.clients.kemper.actions.bank_select_encoder")
    kw = {"use_leds": False, "color": (1, 1, 1)}
    hws, appl = make(s, [
        B.BANK_SELECT(bank = 7, **kw),
        B.BANK_SELECT(bank = 100, preselect = True, **kw),
        U.BANK_UP(preselect = True, **kw),
        R.RIG_SELECT(2, bank = 50, **kw),
        R.RIG_SELECT(None, **kw)
    ])
    midi = appl.test_midi
    if encoder:
        enc = s.obj("pyswitch.controller.inputs:ContinuousController")
        hw = EncoderModel()
        e = enc(appl, {"assignment": {"model": hw}, "actions": [E.ENCODER_BANK_SELECT(step_width = 1)]})
        e.process()
    cur = s.int("rig", 0, 624)
    receive_rig(appl, cur)
    pre = None
    base = cur // 5             # encoder starts here
    ops = ["select", "preselect", "up", "rig-select", "reselect", "rig"]
    if encoder:
        ops = ["turn", "select", "up", "reselect", "rig"]
    for i in range(n):
        op = s.choice("op%d" % i, ops if i < n - 1 else [o for o in ops if o not in ("rig", "preselect")])
        rel = []
        if op == "rig":
            cur = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, cur)
            base = cur // 5
            a, b = midi.take(), []
            exp = []
        elif op == "turn":
            if pre is not None and base is not None and bool(pre != base):
                base = None
            d = s.int("turn%d" % i, -20, 20)
            hw.position += d
            e.process()
            a, b = midi.take(), []
            if base is None:
                # started from one of two banks: not specified which one
                s.check(len(a) <= 1, "one-message")
                if not a:
                    exp = []
                else:
                    exp = a
                    pre = base = a[0][2]
            else:
                v = base + d
                v = s.ite(v < 0, 0, s.ite(v > 124, 124, v))
                if a:
                    s.check(s.Or(d != 0), "turn-without-movement")
                    exp = [("CC", 47, v)]
                    pre = base = v
                else:
                    s.check(s.Or(d == 0, v == base), "turn-lost")
                    exp = []
        elif op == "select":
            a, b = click(appl, hws, 0)
            exp = [("CC", 47, 6), ("CC", 50 + cur % 5, 1)]
            rel = [("CC", 50 + cur % 5, 0)]
            pre = None
        elif op == "preselect":
            a, b = click(appl, hws, 1)
            exp = [("CC", 47, 99)]
            if pre is not None or bool(cur // 5 != 99):
                pre = 99
        elif op == "up":
            a, b = click(appl, hws, 2)
            x = base if base is not None and encoder and pre is None else cur // 5 if pre is None else pre
            pre = s.ite(x == 124, 0, x + 1)
            exp = [("CC", 47, pre)]
        elif op == "rig-select":
            a, b = click(appl, hws, 3)
            exp = [("CC", 51, 1)]
            if pre is None:
                exp = [("CC", 47, 49)] + exp
            rel = [("CC", 51, 0)]
            pre = None
        else:
            a, b = click(appl, hws, 4)
            exp = [("CC", 50 + cur % 5, 1)]
            rel = [("CC", 50 + cur % 5, 0)]
            pre = None
        s.check(s.eq(a, exp), "messages", lambda: "step %d %s: %s instead of %s" % (i, op, a, exp))
        s.check(s.eq(b, rel), "release", lambda: "step %d %s: %s instead of %s" % (i, op, b, rel))


def encoder_unknown(s):
    """Turning the encoder before anything is known"""
    E = s.load("pyswitch.clients.kemper.actions.bank_select_encoder")
    hw = EncoderModel()
    label = Label()
    appl = controller(s, [{"assignment": {"model": hw}, "actions": [E.ENCODER_BANK_SELECT(step_width = s.choice("step", [1, 0.5, 2]), preview_display = label if s.flag("preview") else None)]}], protocol = Protocol(False))
    hw.position = p = s.int("pos", -10, 10)
    appl.inputs[0].process()
    for i in range(2):
        hw.position = hw.position + s.int("turn%d" % i, -300, 300)
        appl.inputs[0].process()
        sent = appl.test_midi.take()
        s.check(len(sent) <= 1, "one-message")
        for m in sent:
            s.check(s.And(m[0] == "CC", m[1] == 47, m[2] >= 0, m[2] <= 124), "valid-bank")
        if label.override_text is not None:
            s.check(s.eq(label.override_text, s.text("Bank #", sent[0][2] + 1)) if sent else True, "preview")


def display(s, n, bank_off, mode, kind):
    B = s.load("pyswitch.clients.kemper.actions.bank_select")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    label = Label()
    calls = []

    def color_cb(action, bank, rig):
        calls.append((bank, rig))
        return (100, 50, 10)

    def text_cb(action, bank, rig):
        calls.append((bank, rig))
        return "T"

    kw = {"display": label, "display_mode": getattr(R, "RIG_SELECT_DISPLAY_" + mode)}
    if kind == "callbacks":
        kw["color_callback"] = color_cb
        kw["text_callback"] = text_cb
    elif kind == "fixed":
        kw["color"] = (100, 50, 10)
        kw["text"] = "T"
    hws, appl = make(s, [B.BANK_SELECT(bank = 9, bank_off = bank_off, **kw)], {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.25, "displayDimFactorOff": 0.5})
    leds = appl.led_driver.leds
    cols = s.obj("pyswitch.clients.kemper:BANK_COLORS")
    appl.inputs[0].actions[0].update()
    s.check(label.text == "", "initial-text")
    for i in range(n):
        cur = s.int("rig%d" % i, 0, 624)
        receive_rig(appl, cur)
        bank = cur // 5
        on = bool(bank == 8)
        x = bank if mode == "CURRENT_RIG" else (bank_off if on and bank_off else 9) - 1
        if kind == "plain":
            col = [s.ite(x % 5 == 0, cols[0][h], s.ite(x % 5 == 1, cols[1][h], s.ite(x % 5 == 2, cols[2][h], s.ite(x % 5 == 3, cols[3][h], cols[4][h])))) for h in range(3)]
            s.check(s.eq(label.text, s.text("Bank #", x + 1)), "text", lambda: "%s at %s" % (label.text, cur))
        else:
            col = (100, 50, 10)
            s.check(label.text == "T", "text")
        bright = on and mode == "TARGET_RIG"
        s.check(s.eq(tuple(label.back_color), tuple(c if bright else c // 2 for c in col)), "label-color", lambda: "%s at %s" % (label.back_color, cur))
        s.check(s.eq(tuple(leds[0]), tuple(c // 2 if bright else c // 4 for c in col)), "led-color", lambda: "%s at %s" % (leds[0], cur))
        s.check(s.And(*[s.And(b >= 0, b < 125, r >= 0, r < 5) for b, r in calls]), "callback-range")


def shown(s, n, rigname, rig_id, again = False):
    """The rig name display shows the preselected bank, and the rig again afterwards"""
    K = s.load("pyswitch.clients.kemper")
    B = s.load("pyswitch.clients.kemper.actions.bank_select")
    U = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    kw = {"use_leds": False, "color": (1, 1, 1)}
    hws, appl = make(s, [
        B.BANK_SELECT(bank = 100, preselect = True, **kw),
        U.BANK_UP(preselect = True, **kw),
        R.RIG_SELECT(2, **kw),
    ], protocol = K.KemperBidirectionalProtocol(30))
    midi = appl.test_midi
    cb = K.KemperRigNameCallback(show_name = rigname, show_rig_id = rig_id)
    label = Label()

    class L:
        def parameter_changed(self, mapping):
            cb.update_label(label)

        def request_terminated(self, mapping):
            cb.update_label(label)

    cb.init(appl, L())
    cb.update()
    nm = None
    cur = None
    pre = None
    if rigname:
        nm = "ab"
        appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 3, 0, 0, 1] + [ord(c) for c in nm] + [0]))
    for i in range(n):
        if again:
            # Preselecting, selecting, leaving the bank and preselecting it again
            op = s.choice("op%d" % i, [["rig"], ["preselect", "up"], ["select"], ["rig"], ["preselect", "up"]][i])
        else:
            op = s.choice("op%d" % i, ["rig", "preselect", "up", "select"] if i else ["rig"])
        if op == "rig":
            cur = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, cur)
        elif op == "preselect":
            click(appl, hws, 0)
            if pre is not None or bool(cur // 5 != 99):
                pre = 99
        elif op == "up":
            click(appl, hws, 1)
            x = cur // 5 if pre is None else pre
            pre = s.ite(x == 124, 0, x + 1)
        else:
            # the device answers with a new rig
            click(appl, hws, 2)
            if pre is not None:
                cur = pre * 5 + 1
            else:
                cur = cur // 5 * 5 + 1
            receive_rig(appl, cur)
            if rigname:
                nm = "n%d" % i
                appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 3, 0, 0, 1] + [ord(c) for c in nm] + [0]))
            pre = None
        cb.update()
        if pre is not None:
            exp = s.text("Bank #", pre + 1)
        else:
            b, r = cur // 5 + 1, cur % 5 + 1
            exp = {True: s.text("#-#", b, r), "rig": s.text("#", r), "bank": s.text("#", b), False: ""}[rig_id]
            if rigname:
                exp = s.text(nm) if not rig_id else exp + " " + nm
        s.check(s.eq(label.text, exp), "shown", lambda: "%s instead of %s" % (label.text, exp))


def switches(s, n):
    """All rig select switches show the preselected bank and blink, also further actions of a switch and those with a bank"""
    B = s.load("pyswitch.clients.kemper.actions.bank_select")
    U = s.load("pyswitch.clients.kemper.actions.bank_up_down")
    R = s.load("pyswitch.clients.kemper.actions.rig_select")
    M = s.load("pyswitch.clients.local.actions.custom")
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")
    cols = s.obj("pyswitch.clients.kemper:BANK_COLORS")
    dim = s.obj("pyswitch.colors:dim_color")
    lab = [DL(layout = {"font": "/foo", "backColor": (1, 2, 3)}) for _ in range(2)]
    mode = R.RIG_SELECT_DISPLAY_TARGET_RIG
    kw = {"use_leds": False, "color": (1, 1, 1)}
    hws = [SwitchModel() for _ in range(4)]
    acts = [
        [B.BANK_SELECT(bank = 100, preselect = True, **kw)],
        [U.BANK_UP(preselect = True, **kw)],
        [R.RIG_SELECT(2, display = lab[0], display_mode = mode)],
        [M.CUSTOM_MESSAGE([1], use_leds = False), M.CUSTOM_MESSAGE([1], use_leds = False), R.RIG_SELECT(3, bank = 50, display = lab[1], display_mode = mode)],
    ]
    E = s.load("pyswitch.clients.kemper.actions.bank_select_encoder")
    hw = EncoderModel()
    appl = controller(s, [{"assignment": {"model": hws[i], "pixels": [i]}, "actions": acts[i]} for i in range(4)] + [
        {"assignment": {"model": hw}, "actions": [E.ENCODER_BANK_SELECT(step_width = 1)]}
    ], {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.25, "displayDimFactorOff": 0.5}, protocol = Protocol(False))
    appl.inputs[4].process()
    midi = appl.test_midi
    cur = pre = None

    def color(bank):
        return tuple(s.ite(bank % 5 == 0, cols[0][h], s.ite(bank % 5 == 1, cols[1][h], s.ite(bank % 5 == 2, cols[2][h], s.ite(bank % 5 == 3, cols[3][h], cols[4][h])))) for h in range(3))

    for i in range(n):
        op = s.choice("op%d" % i, ["rig"] if i == 0 else ["preselect", "up", "select2", "select3", "rig", "wait", "turn"])
        if op == "rig":
            # All positions of the rig with some banks, which have all colours
            cur = 5 * s.choice("bank%d" % i, [0, 49, 99, 121]) + s.int("slot%d" % i, 0, 4)
            receive_rig(appl, cur)
        elif op == "wait":
            s.advance(s.choice("dt%d" % i, [50, 1000]))
            appl.update()
        elif op == "turn":
            midi.take()
            hw.position += s.choice("turn%d" % i, [1, -2])
            appl.inputs[4].process()
            got = midi.take()
            s.check(len(got) <= 1, "one-message")
            if got:
                pre = got[0][2]
        elif op in ("preselect", "up"):
            click(appl, hws, 0 if op == "preselect" else 1)
            if op == "up":
                x = cur // 5 if pre is None else pre
                pre = s.ite(x == 124, 0, x + 1)
            elif pre is not None or bool(cur // 5 != 99):
                pre = 99
        else:
            j = int(op[6:])
            click(appl, hws, j)
            if pre is not None:
                cur = pre * 5 + j - 1
            elif j == 3:
                cur = 49 * 5 + 2
            else:
                cur = cur // 5 * 5 + 1
            receive_rig(appl, cur)
            pre = None
        # The displays may follow with the next blink
        appl.update()
        s.advance(450)
        appl.update()
        last = appl.inputs[2].brightness
        s.advance(450)
        appl.update()
        if i < n - 1 and op != "wait":
            continue
        for j in (2, 3):
            sw = appl.inputs[j]
            home = 49 if j == 3 else cur // 5
            bank = home if pre is None else pre
            s.check(s.eq(lab[j - 2].text, s.text("Rig #-" + str(j), bank + 1)), "label-text", lambda: "%s for %s %s" % (lab[j - 2].text, cur, pre))
            s.check(s.eq(sw.color, color(bank)), "led-colour", lambda: "%s for bank %s" % (sw.color, bank))
            on = s.And(cur % 5 == j - 1, cur // 5 == home)
            if pre is None:
                s.check(s.eq(sw.brightness, s.ite(on, 0.5, 0.25)), "brightness", lambda: "%s for %s" % (sw.brightness, cur))
            factor = 2 if pre is not None else s.ite(on, 1, 2)
            s.check(s.eq(tuple(lab[j - 2].back_color), tuple(c // factor for c in color(bank))), "label-colour", lambda: "%s for %s %s" % (lab[j - 2].back_color, cur, pre))
        if pre is not None:
            b2, b3 = appl.inputs[2].brightness, appl.inputs[3].brightness
            s.check(b2 == b3 and b2 in (0.25, 0.5), "blinking-together", lambda: "%s %s" % (b2, b3))
            s.check(b2 != last, "blinking")


def jobs(tier):
    q = tier == "quick"
    n = 4 if q else 5
    ret = []
    for b, o in ((1, None), (30, 125), (125, 1)):
        ret.append(job(one, n = n, bank = b, bank_off = o, known = True))
        ret.append(job(hidden, n = 2 if q else 3, bank = b, bank_off = o))
    ret.append(job(one, n = 3, bank = 9, bank_off = 4, known = False))
    ret.append(job(session, n = n - 1, encoder = False))
    ret.append(job(session, n = n - 1, encoder = True))
    ret.append(job(encoder_unknown))
    for mode in ("CURRENT_RIG", "TARGET_RIG"):
        for off in (None, 4):
            for k in ("plain", "fixed", "callbacks"):
                ret.append(job(display, n = 2, bank_off = off, mode = mode, kind = k))
    for nm, rid in ((True, False), (True, True), (False, True), (True, "rig"), (False, "bank")):
        ret.append(job(shown, n = n, rigname = nm, rig_id = rid))
    ret.append(job(shown, n = 5, rigname = True, rig_id = True, again = True))
    ret.append(job(shown, n = 5, rigname = False, rig_id = "bank", again = True))
    ret.append(job(switches, n = n - 1))
    return ret

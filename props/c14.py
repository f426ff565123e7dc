"""Rotary encoders"""
from .common import *

BOUNDS = {
    "quick": "histories of 4 steps (turn by -300..300, received value, enable/disable), step widths 0.5, 1, 2, 80 and defaults, any 14 bit values and any limits; preselect with accept/cancel/reset parameter: 4 steps after the value is known",
    "thorough": "one resp. two steps more"
}
OUTSIDE = "preselecting before the parameter value is known; lower limits below 0"


def encoder(s, bidirectional, cfg, **kw):
    EA = s.obj("pyswitch.controller.actions.EncoderAction:EncoderAction")
    hw = EncoderModel()
    a = EA(**cfg)
    inputs = [{"assignment": {"model": hw}, "actions": [a]}] + kw.get("inputs", [])
    appl = controller(s, inputs, protocol = Protocol() if bidirectional else None)
    return hw, a, appl


def nrpn(v, n = 0):
    return ("SX", (0, 0x20, 0x33), (2, 0x7f, 0x01, 0, 4, n, v >> 7, v & 127))


def clamp(s, v, lo, hi):
    return s.ite(v < lo, lo, s.ite(v > hi, hi, v))


def trunc(s, p, step):
    if step == 0.5:
        return s.ite(p >= 0, p // 2, -((-p) // 2))
    return p * step


def direct(s, n, kind, step, limits, dyn = False, known = True):
    mp = generic_mapping(s, kind)
    full = 16383 if kind == "nrpn" else 127
    lo, hi = 0, full
    cfg = {"mapping": mp}
    if limits:
        lo = s.int("lo", 0, full)
        hi = s.int("hi", 0, full)
        s.assume(lo <= hi)
        cfg["min_value"] = lo
        cfg["max_value"] = hi
    if step is not None:
        cfg["step_width"] = step
    else:
        step = 80 if kind == "nrpn" else 1
    en = EnableCallback()
    if dyn:
        cfg["enable_callback"] = en
    hw, a, appl = encoder(s, True, cfg)
    midi = appl.test_midi
    inp = appl.inputs[0]

    hw.position = pos = s.int("pos0", -50, 50)
    inp.process()
    s.check(midi.take() == [], "nothing-sent-initially")
    cur = None

    def receive(v):
        appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, v >> 7, v & 127]) if kind == "nrpn" else midi.CC(20, v))

    if known:
        cur = s.int("v0", 0, full)
        s.assume(s.And(cur >= lo, cur <= hi))
        receive(cur)

    for i in range(n):
        op = s.choice("op%d" % i, ["turn"] if i == n - 1 else ["turn", "receive", "enable"] if dyn else ["turn", "receive"])
        if op == "receive":
            cur = s.int("rcv%d" % i, 0, full)
            s.assume(s.And(cur >= lo, cur <= hi))
            receive(cur)
            s.check(midi.take() == [], "nothing-sent-on-receive")
            continue
        if op == "enable":
            en.state = not en.state
            inp.process()
            s.check(midi.take() == [], "nothing-sent-without-turning")
            continue

        new = pos + s.int("turn%d" % i, -300, 300)
        delta = trunc(s, new, step) - trunc(s, pos, step)
        hw.position = pos = new
        inp.process()
        sent = midi.take()
        if not en.state:
            s.check(sent == [], "disabled")
            continue
        base = 0 if cur is None else cur
        v = clamp(s, base + delta, lo, hi)
        msg = nrpn(v) if kind == "nrpn" else ("CC", 20, v)
        s.check(len(sent) <= 1, "at-most-one-message")
        if sent:
            s.check(s.And(delta != 0, s.eq(sent, [msg])), "sent-value", lambda: "sent %s, expected %s" % (sent, msg))
            cur = v
        else:
            s.check(s.Or(delta == 0, v == base), "turn-lost", lambda: "turn by %s at %s not sent" % (delta, base))
            if cur is None:
                # first movement makes the value known
                if bool(delta != 0):
                    cur = 0
        s.check(mp.value is None and cur is None or mp.value is not None and cur is not None and s.eq(mp.value, cur), "parameter-value", lambda: "parameter is %s, not %s" % (mp.value, cur))


def preselect(s, n, step, reset, maximum = None, paged = False):
    B = s.obj("pyswitch.clients.local.actions.encoder_button:ENCODER_BUTTON")
    mp = generic_mapping(s, "nrpn")
    mr = generic_mapping(s, "cc", name = "R", n = 1)
    accept, cancel = B(), B()
    label = Label()
    cfg = {"mapping": mp, "accept_action": accept, "cancel_action": cancel, "step_width": step, "preview_display": label}
    if maximum:
        cfg["max_value"] = maximum
    hi = maximum or 16383
    if reset:
        cfg["preview_reset_mapping"] = mr
    en = EnableCallback()
    if paged:
        cfg["enable_callback"] = en
    sa, sc = SwitchModel(), SwitchModel()
    hw, a, appl = encoder(s, True, cfg, inputs = [
        {"assignment": {"model": sa}, "actions": [accept]},
        {"assignment": {"model": sc}, "actions": [cancel]}
    ])
    midi = appl.test_midi
    hw.position = pos = s.int("pos0", -10, 10)
    appl.inputs[0].process()
    cur = s.int("v0", 0, 16383)
    s.assume(cur <= hi)

    def receive(v):
        appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, v >> 7, v & 127]))

    receive(cur)
    sel = None
    r = None
    if reset:
        r = s.int("r0", 0, 127)
        appl.client.receive(midi.CC(21, r))
        appl.inputs[0].process()

    ops = ["turn", "accept", "cancel", "receive"] + (["reset"] if reset else [])
    if paged:
        ops = ["turn", "accept", "elsewhere"]
    for i in range(n):
        op = s.choice("op%d" % i, ["turn"] if i == 0 else ["accept", "turn"] if i == n - 1 else ops)
        exp = []
        if op == "turn":
            new = pos + s.int("turn%d" % i, -300, 300)
            delta = trunc(s, new, step) - trunc(s, pos, step)
            hw.position = pos = new
            appl.inputs[0].process()
            base = cur if sel is None else sel
            v = clamp(s, base + delta, 0, hi)
            if sel is None:
                if bool(v != base):
                    sel = v
            else:
                sel = v
        elif op == "elsewhere":
            # The wheel is used for something else in between (other page)
            en.state = False
            pos = pos + s.int("turn%d" % i, -300, 300)
            hw.position = pos
            appl.inputs[0].process()
            en.state = True
        elif op == "accept":
            sa.pushed = True
            appl.inputs[1].process()
            sa.pushed = False
            appl.inputs[1].process()
            if sel is not None:
                exp = [nrpn(sel)]
                cur = sel
                sel = None
        elif op == "cancel":
            sc.pushed = True
            appl.inputs[2].process()
            sc.pushed = False
            appl.inputs[2].process()
            sel = None
        elif op == "receive":
            cur = s.int("rcv%d" % i, 0, 16383)
            s.assume(cur <= hi)
            receive(cur)
        else:
            nr = s.int("r%d" % i, 0, 127)
            appl.client.receive(midi.CC(21, nr))
            appl.inputs[0].process()
            if bool(nr != r):
                sel = None
                r = nr
        sent = midi.take()
        s.check(s.eq(sent, exp), "sent-on-accept-only", lambda: "sent %s, expected %s (%s)" % (sent, exp, op))
        if sel is not None:
            s.check(label.override_text is not None, "preselection-shown")
        elif op in ("cancel", "reset"):
            s.check(label.override_text is None or op == "reset", "preselection-hidden")


def jobs(tier):
    q = tier == "quick"
    n = 4 if q else 5
    ret = []
    for kind, step, lim in (("nrpn", None, False), ("cc", None, False), ("nrpn", 1, True), ("cc", 2, True), ("nrpn", 0.5, True), ("cc", 0.5, False)):
        ret.append(job(direct, n = 3 if step == 0.5 and q else n, kind = kind, step = step, limits = lim))
    ret.append(job(direct, n = n, kind = "nrpn", step = None, limits = False, known = False))
    ret.append(job(direct, n = n, kind = "cc", step = None, limits = False, known = False))
    ret.append(job(direct, n = n, kind = "cc", step = 1, limits = False, dyn = True))
    for step, mx in ((1, 1000), (80, None), (0.5, 20)):
        ret.append(job(preselect, n = (3 if step == 0.5 else 4) if q else 5, step = step, reset = step == 1, maximum = mx))
    ret.append(job(preselect, n = 4 if q else 5, step = 80, reset = False, paged = True))
    return ret

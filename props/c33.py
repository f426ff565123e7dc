"""Shipped encoders: ranges, units, preview and buttons"""
from .common import *
from .c31 import nrpn

BOUNDS = {
    "quick": "texts: all parameter values and turns by -300..300, directly and preselected; two encoders sharing a preview display: histories of 4 steps (turns, accepting, cancelling, waiting 0..3000 ms); buttons: all combinations of two encoders and roles; volume conversion: all pairs of percentages",
    "thorough": "histories of 5 steps"
}
OUTSIDE = "preselections while the value of the parameter is unknown"

SHIPPED = {
    # module, factory, NRPN page and number, step width, lowest and highest value
    "transpose": ("rig_transpose", "ENCODER_RIG_TRANSPOSE", 4, 0x0f, 1, 28, 100),
    "bpm": ("tempo_bpm", "ENCODER_BPM", 4, 0, 80, 0, 16383),
    "gain": ("amp", "AMP_GAIN", 0x0a, 4, 80, 0, 16383)
}


def factory(s, kind):
    m, f = SHIPPED[kind][:2]
    return getattr(s.load("pyswitch.clients.kemper.actions." + m), f)


def address(s, kind):
    """Page and number of the parameter, as defined by its mapping (covered by C01 and C03)"""
    M = {"transpose": ("rig", "MAPPING_RIG_TRANSPOSE"), "bpm": ("tempo_bpm", "MAPPING_TEMPO_BPM"), "gain": ("amp", "MAPPING_AMP_GAIN")}[kind]
    m = getattr(s.load("pyswitch.clients.kemper.mappings." + M[0]), M[1])()
    return m.set.data[4], m.set.data[5]


def message(adr, v):
    return ("SX", (0, 0x20, 0x33), (2, 0x7f, 0x01, 0, adr[0], adr[1], v >> 7, v & 127))


def clamp(s, v, lo, hi):
    return s.ite(v < lo, lo, s.ite(v > hi, hi, v))


def check_text(s, kind, text, v, what):
    """The text shows v in the unit of the device"""
    ks = s.numbers(text)
    if kind == "transpose":
        if bool(v > 64):
            exp = s.text("Transpose: +#", v - 64)
        elif bool(v < 64):
            exp = s.text("Transpose: -#", 64 - v)
        else:
            exp = "Transpose: 0"
        s.check(s.eq(text, exp), what, lambda: "%s for %s" % (text, v))
    elif kind == "bpm":
        s.check(len(ks) == 1, what + "-number")
        d = 64 * ks[0] - v
        s.check(s.And(d <= 32, d >= -32), what, lambda: "%s for %s" % (text, v))
        s.check(s.eq(text, s.text("# bpm", ks[0])), what + "-text")
    else:
        s.check(len(ks) == 2, what + "-number")
        d = (10 * ks[0] + ks[1]) * 16383 - 100 * v
        s.check(s.And(d <= 8192, d >= -8192), what, lambda: "%s for %s" % (text, v))
        s.check(s.eq(text, s.text("Gain: #.#", *ks)), what + "-text")


def setup(s, kinds, pre, shared = True, buttons = None, **kw):
    """Encoders with preview labels, each with accept and cancel buttons if preselecting"""
    B = s.obj("pyswitch.clients.local.actions.encoder_button:ENCODER_BUTTON")
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")

    class CB:
        def update_label(self, label):
            label.text = "normal"

    def new_label():
        ret = DL(layout = {"font": "/foo", "text": "initial", "textColor": (1, 2, 3)}, callback = CB())
        ret.update_label()
        return ret

    labels = [new_label()]
    hws, inputs, switches = [], [], []
    for i, kind in enumerate(kinds):
        if i and not shared:
            labels.append(new_label())
        elif i:
            labels.append(labels[0])
        hw = EncoderModel()
        hws.append(hw)
        opts = dict(kw)
        if pre and buttons is None:
            opts["accept_action"], opts["cancel_action"] = B(), B()
            for b in (opts["accept_action"], opts["cancel_action"]):
                sw = SwitchModel()
                switches.append(sw)
                inputs.append({"assignment": {"model": sw}, "actions": [b]})
        elif pre:
            opts["accept_action"], opts["cancel_action"] = buttons[i]
        inputs.append({"assignment": {"model": hw}, "actions": [factory(s, kind)(preview_display = labels[i], **opts)]})
    if buttons is not None:
        seen = []
        for pair in buttons:
            for b in pair:
                if b is not None and b not in seen:
                    seen.append(b)
                    sw = SwitchModel()
                    switches.append(sw)
                    inputs.append({"assignment": {"model": sw}, "actions": [b]})
    appl = controller(s, inputs, protocol = Protocol())
    for i in appl.inputs:
        i.process()
    return appl, hws, switches, labels


def process(appl):
    for i in appl.inputs:
        i.process()


def click(appl, sw):
    sw.pushed = True
    process(appl)
    sw.pushed = False
    process(appl)


def texts(s, kind, pre, again):
    """Turning shows the value which is (or would be) set; limits of the parameter"""
    n, step, lo, hi = 2, SHIPPED[kind][4], SHIPPED[kind][5], SHIPPED[kind][6]
    adr = address(s, kind)
    appl, hws, switches, (label,) = setup(s, [kind], pre)
    midi = appl.test_midi
    cur = s.int("v0", lo, hi)
    nrpn(appl, adr[0], adr[1], cur)
    pos = 0
    s.check(label.override_text is None, "no-preview-initially")
    for i in range(2 if again else 1):
        new = s.int("pos%d" % i, -300, 300)
        hws[0].position = new
        process(appl)
        v = clamp(s, cur + (new - pos) * step, lo, hi)
        pos = new
        moved = bool(v != cur)
        sent = midi.take()
        if pre:
            s.check(sent == [], "nothing-sent", lambda: "%s" % (sent,))
        elif moved:
            s.check(s.eq(sent, [message(adr, v)]), "sent", lambda: "%s for %s" % (sent, v))
        if moved:
            check_text(s, kind, label.override_text, v, "preview%d" % i)
        cur = v
    if pre:
        click(appl, switches[0])
        sent = midi.take()
        if moved:
            s.check(s.eq(sent, [message(adr, cur)]), "accepted", lambda: "%s for %s" % (sent, cur))


def sharing(s, n, pre):
    """Encoders with one display: it shows the last turned one; preselecting with one discards the preselection of the other"""
    kinds = ["transpose", "bpm"]
    period = s.choice("timeout", [1500, 700])
    appl, hws, switches, labels = setup(s, kinds, pre, preview_timeout_millis = period, preview_blink_color = (9, 9, 9))
    label = labels[0]
    midi = appl.test_midi
    adrs = [address(s, k) for k in kinds]
    cur = [64, 6400]
    for k, a, v in zip(kinds, adrs, cur):
        nrpn(appl, a[0], a[1], v)
    pos = [0, 0]
    sel = [None, None]
    shown = None               # index of the encoder in the preview
    since = None
    s.world.ms = 10
    for i in range(n):
        op = s.choice("op%d" % i, ["turn", "wait"] + (["accept", "cancel"] if pre else [])) if i else "turn"
        exp = []
        k = s.choice("k%d" % i, [0, 1]) if op != "wait" else None
        if op == "turn":
            d = s.choice("d%d" % i, [1, 3, -2])
            pos[k] += d
            hws[k].position = pos[k]
            process(appl)
            base = cur[k] if sel[k] is None else sel[k]
            v = base + d * SHIPPED[kinds[k]][4]
            if pre:
                sel[k] = v
                sel[1 - k] = None
            else:
                cur[k] = v
                exp = [message(adrs[k], v)]
            shown = k
            since = s.world.ms
        elif op == "accept":
            click(appl, switches[2 * k])
            if sel[k] is not None:
                exp = [message(adrs[k], sel[k])]
                cur[k] = sel[k]
                sel[k] = None
                since = s.world.ms
        elif op == "cancel":
            click(appl, switches[2 * k + 1])
            if sel[k] is not None:
                sel[k] = None
                shown = None
            elif shown is not None and sel[1 - k] is None:
                # Cancelling hides what has been accepted before
                shown = "any"
            else:
                shown = "any" if shown is not None else None
                if sel[1 - k] is not None:
                    return
        else:
            s.advance(s.int("dt%d" % i, 0, 3000))
            appl.update()
            if shown is not None and (not pre or sel == [None, None]):
                if bool(s.world.ms > since + period):
                    shown = None
        sent = midi.take()
        s.check(s.eq(sent, exp), "messages", lambda: "%s instead of %s after %s" % (sent, exp, op))
        if shown is None:
            s.check(label.override_text is None, "hidden", lambda: "%s" % label.override_text)
            s.check(tuple(label.text_color) == (1, 2, 3), "colour-restored", lambda: "%s" % (label.text_color,))
        elif shown != "any":
            v = cur[shown] if sel[shown] is None else sel[shown]
            check_text(s, kinds[shown], label.override_text, v, "shown")
            if not pre or sel == [None, None]:
                s.check(tuple(label.text_color) == (1, 2, 3), "not-blinking", lambda: "%s" % (label.text_color,))


def blinking(s, n):
    """A preselection stays and blinks until it is accepted or cancelled"""
    appl, hws, switches, (label,) = setup(s, ["transpose"], True, preview_blink_color = (9, 9, 9))
    adr = address(s, "transpose")
    nrpn(appl, adr[0], adr[1], 64)
    s.world.ms = s.int("t0", 0, 1000)
    hws[0].position = 5
    process(appl)
    start = s.world.ms
    last = None               # time of the last change of the colour
    state = (1, 2, 3)
    for i in range(n):
        if i:
            s.advance(s.int("dt%d" % i, 0, 2000))
        appl.update()
        s.check(label.override_text == "Transpose: +5", "stays", lambda: "%s" % label.override_text)
        now = tuple(label.text_color)
        s.check(now in ((1, 2, 3), (9, 9, 9)), "colours", lambda: "%s" % (now,))
        if last is None:
            s.check(now != state or s.world.ms <= start + 400, "blinking-starts")
        elif bool(s.world.ms > last + 400):
            s.check(now != state, "blinks", lambda: "%s -> %s" % (state, now))
        else:
            s.check(now == state, "steady", lambda: "%s -> %s" % (state, now))
        if now != state:
            last = s.world.ms
        state = now
    last = s.world.ms
    k = s.choice("end", [0, 1])
    click(appl, switches[k])
    s.check(tuple(label.text_color) == (1, 2, 3), "blinking-ends")
    sent = appl.test_midi.take()
    s.check(sent == ([] if k else [message(adr, 69)]), "messages", lambda: "%s" % (sent,))
    s.check(label.override_text == (None if k else "Transpose: +5"), "text-after")
    s.advance(s.int("rest", 0, 4000))
    appl.update()
    if k == 0 and bool(s.world.ms > last + 5000):
        s.check(label.override_text is None, "hidden-at-last")


def buttons(s):
    """An encoder button accepts for the encoders it is the accept action of, and cancels for those it is the cancel action of"""
    B = s.obj("pyswitch.clients.local.actions.encoder_button:ENCODER_BUTTON")
    kinds = ["transpose", "bpm"]
    x, y, z = B(), B(), B()
    roles = [s.choice("roles%d" % i, [(x, y), (y, x), (z, x), (x, None), (z, None)]) for i in range(2)]
    appl, hws, switches, labels = setup(s, kinds, True, shared = False, buttons = roles)
    seen = []
    for pair in roles:
        for b in pair:
            if b is not None and b not in seen:
                seen.append(b)
    adrs = [address(s, k) for k in kinds]
    cur = [s.int("v0", 28, 100), s.int("v1", 0, 16383)]
    for a, v in zip(adrs, cur):
        nrpn(appl, a[0], a[1], v)
    sel = [None, None]
    for k in (0, 1):
        hws[k].position = s.choice("turn%d" % k, [0, 2])
        process(appl)
        if hws[k].position:
            v = clamp(s, cur[k] + 2 * SHIPPED[kinds[k]][4], SHIPPED[kinds[k]][5], SHIPPED[kinds[k]][6])
            if bool(v != cur[k]):
                sel[k] = v
    s.check(appl.test_midi.take() == [], "nothing-sent")
    for p in range(2):
        b = s.choice("press%d" % p, seen)
        click(appl, switches[seen.index(b)])
        sent = appl.test_midi.take()
        exp = []
        for k in (0, 1):
            if sel[k] is not None and b is roles[k][0]:
                exp.append(message(adrs[k], sel[k]))
                sel[k] = None
            elif b is roles[k][1]:
                sel[k] = None
        s.check(s.eq(sorted(sent, key = lambda m: m[2][5]) if len(sent) > 1 else sent, sorted(exp, key = lambda m: m[2][5]) if len(exp) > 1 else exp), "messages", lambda: "%s instead of %s" % (sent, exp))


def tenths(s, text):
    """Magnitude in tenths"""
    ks = s.numbers(text)
    return 10 * ks[0] + ks[1]


def volume(s):
    """Volume in dB: 0.24 dB per percent in the upper part, always rising"""
    convert = s.load("pyswitch.clients.kemper.callbacks.convert_volume").convert_volume
    offset = s.choice("offset", [0, 12, 6])

    def value(name):
        if s.flag(name + "low"):
            return s.choice(name + "c", list(range(30)))
        return s.int(name, 30, 100)

    def signed(t):
        k = tenths(s, t)
        return -k if t.startswith("-") else k

    v = value("v")
    t = convert(v, offset)
    k = signed(t)
    if bool(k != 0):
        s.check(s.eq(t, s.text("%s#.#dB" % (t[0] if t[0] in "+-" else ""), *s.numbers(t))), "format", lambda: "%s" % t)
    if not isinstance(v, int) or v >= 30:
        d = 100 * k - (240 * v - 24000 + 1000 * offset)
        s.check(s.And(d <= 51, d >= -51), "linear", lambda: "%s for %s" % (t, v))
    else:
        w = v + 1
        t2 = convert(w, offset)
        s.check(signed(t2) >= k, "rising", lambda: "%s for %s, %s for %s" % (t, v, t2, w))
        s.check(k <= -160 + 10 * offset, "low", lambda: "%s for %s" % (t, v))


def jobs(tier):
    q = tier == "quick"
    ret = [job(texts, kind = k, pre = p, again = not q or k == "transpose") for k in SHIPPED for p in (False, True)]
    n = 4 if q else 5
    ret += [job(sharing, n = n, pre = p) for p in (False, True)]
    ret.append(job(blinking, n = 3 if q else 4))
    ret.append(job(buttons))
    ret.append(job(volume))
    return ret

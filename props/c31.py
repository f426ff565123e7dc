"""Tempo, rig name and parameter displays"""
from .common import *
from .c18 import make
from .c17 import receive_rig

BOUNDS = {
    "quick": "blinking: histories of 4 received pulses (any value), tuner states or updates, any colours and brightness; BPM label and preview: histories of 4 received BPM values (0..16383), rig IDs or waiting times; pages: 5 steps; parameter labels: 3 received values or lost requests; rig names of 0..3 characters with any 7 bit codes",
    "thorough": "blinking and BPM over 5 steps, parameter labels over 4, pages over 6"
}
OUTSIDE = "BPM changes reported before the rig they belong to"


def pulse(appl, v):
    SX = appl.test_midi.SX
    appl.client.receive(SX([0, 0x20, 0x33], [0, 0, 1, 0, 0x7c, 0, v >> 7, v & 127]))


def nrpn(appl, page, num, v):
    SX = appl.test_midi.SX
    appl.client.receive(SX([0, 0x20, 0x33], [0, 0, 1, 0, page, num, v >> 7, v & 127]))


def name_message(appl, codes):
    SX = appl.test_midi.SX
    appl.client.receive(SX([0, 0x20, 0x33], [0, 0, 3, 0, 0, 1] + list(codes) + [0]))


def bpm_of(v):
    return (v + 32) // 64


def rounded(s, k, v):
    """k is v / 64 rounded"""
    d = 64 * k - v
    return s.And(d <= 32, d >= -32)


def beat(s, n, own):
    """LEDs follow the tempo pulse, except in tuner mode; nothing is sent"""
    T = s.load("pyswitch.clients.kemper.actions.tempo")
    kw = {}
    col, br = (100, 255, 100), 0.02
    if own:
        col = (s.int("r", 0, 255), 20, 30)
        br = 0.25
        kw = {"color": col, "led_brightness": br}
    hws, appl = make(s, [T.SHOW_TEMPO(**kw)])
    midi = appl.test_midi
    sw = appl.inputs[0]
    appl.update()
    last = None
    tuner = False
    for i in range(n):
        op = s.choice("op%d" % i, ["pulse", "tuner", "update", "press"] if i < n - 1 else ["pulse", "tuner"])
        if op == "pulse":
            last = s.int("v%d" % i, 0, 16383)
            pulse_split(s, appl, last)
        elif op == "tuner":
            t = s.choice("t%d" % i, [0, 1])
            nrpn(appl, 0x7f, 0x7e, t)
            tuner = t == 1
        elif op == "press":
            hws[0].pushed = not hws[0].pushed
            sw.process()
        else:
            appl.update()
        if not tuner and last is not None:
            s.check(s.eq(sw.color, col), "colour", lambda: "%s" % (sw.color,))
            exp = s.ite(last > 0, br, 0)
            s.check(abs(sw.brightness - exp) < 0.0001, "brightness", lambda: "%s at pulse %s" % (sw.brightness, last))
            shown = exp
        elif tuner and last is not None and op != "tuner":
            # Kept as it is in tuner mode
            s.check(abs(sw.brightness - before) < 0.0001, "tuner-kept")
        before = sw.brightness
    s.check(midi.take() == [], "nothing-sent")


def pulse_split(s, appl, v):
    # The extended message type is used by the device
    SX = appl.test_midi.SX
    m = s.load("pyswitch.clients.kemper.mappings.tempo").MAPPING_TEMPO_DISPLAY()
    data = list(m.response.data)
    appl.client.receive(SX([0, 0x20, 0x33], data[:6] + [v >> 7, v & 127]))


def bpm_label(s, n, tuner):
    """The label shows the tempo reported last in BPM, with the configured text and colour"""
    T = s.load("pyswitch.clients.kemper.actions.tempo")
    col = (s.int("r", 0, 255), 7, 8)
    own = s.flag("own")
    label = Label()
    kw = {"text": "T={bpm}!"} if own else {}
    hws, appl = make(s, [T.SHOW_TEMPO(display = label, color = col, use_leds = False, **kw)], protocol = Protocol())
    appl.update()
    mode = False
    v = None
    for i in range(n):
        op = s.choice("op%d" % i, ["bpm", "same", "pulse", "tuner", "update"] if tuner else ["bpm", "pulse", "update"]) if i else "bpm"
        if op == "bpm" or (op == "same" and v is None):
            v = s.int("v%d" % i, 0, 16383)
            nrpn(appl, 4, 0, v)
        elif op == "same":
            nrpn(appl, 4, 0, v)
        elif op == "pulse":
            pulse_split(s, appl, s.choice("p%d" % i, [0, 1]))
        elif op == "tuner":
            t = s.choice("t%d" % i, [0, 1])
            nrpn(appl, 0x7f, 0x7e, t)
            mode = t == 1
        else:
            appl.update()
        if not mode and v is not None:
            s.check(s.eq(label.back_color, col), "label-colour")
            ks = s.numbers(label.text)
            s.check(len(ks) == 1, "number")
            s.check(rounded(s, ks[0], v), "bpm", lambda: "%s for %s" % (label.text, v))
            s.check(s.eq(label.text, s.text("T=#!" if own else "# bpm", ks[0])), "text")


def preview(s, n, both):
    """Tempo changes are shown for the configured time, but not the first tempo nor those of a new rig"""
    T = s.load("pyswitch.clients.kemper.actions.tempo")
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")

    class CB:
        def update_label(self, label):
            label.text = "normal"

    prev = DL(layout = {"font": "/foo", "text": "initial"}, callback = CB())
    label = Label() if both else None
    ms = s.int("timeout", 1, 3000)
    s.world.ms = s.int("t0", 0, 1000)
    kw = {"change_timeout_millis": ms}
    if s.flag("default"):
        kw = {}
        ms = 1500
    hws, appl = make(s, [T.SHOW_TEMPO(display = label, change_display = prev, **kw)], protocol = Protocol())
    prev.update_label()
    appl.update()
    v = None
    rig_known = False
    fresh = True       # the next tempo belongs to a new rig
    unsure = False     # tempo of the new rig may be the same
    until = None
    expected = None
    for i in range(n):
        op = s.choice("op%d" % i, ["bpm", "rig", "wait"] if i < n - 1 else ["bpm", "wait"]) if i else s.choice("op0", ["bpm", "rig"])
        if op == "bpm":
            w = s.int("v%d" % i, 0, 16383)
            nrpn(appl, 4, 0, w)
            if v is None:
                # First one
                v, fresh = w, False
            elif bool(v != w):
                v = w
                if fresh:
                    fresh = False
                else:
                    until = s.world.ms + ms
                    expected = w
            elif fresh:
                unsure = True
        elif op == "rig":
            receive_rig(appl, 10 + i)
            if v is not None:
                fresh = True
        else:
            s.advance(s.int("dt%d" % i, 0, 4000))
            appl.update()
        if unsure:
            return
        if until is not None and bool(s.world.ms > until):
            if op == "wait":
                until = None
        if until is None:
            s.check(not prev.override_text, "nothing-shown", lambda: "%s" % prev.override_text)
            s.check(prev.text == "normal", "normal-text")
        else:
            s.check(prev.override_text is not None, "shown")
            ks = s.numbers(prev.override_text)
            s.check(rounded(s, ks[0], expected), "preview-bpm")
            s.check(s.eq(prev.override_text, s.text("# bpm", ks[0])), "preview-text")


def preview_rigs(s, n):
    """Several rigs and tempos: only tempos changed while a rig is selected are shown"""
    T = s.load("pyswitch.clients.kemper.actions.tempo")
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")
    prev = DL(layout = {"font": "/foo", "text": "initial"})
    hws, appl = make(s, [T.SHOW_TEMPO(change_display = prev)], protocol = Protocol())
    appl.update()
    first = True
    fresh = False
    for i in range(n):
        prev.override_text = None
        s.advance(2000)
        appl.update()
        exp = None
        if s.choice("op%d" % i, ["bpm", "rig"] if i < n - 1 else ["bpm"]) == "rig":
            receive_rig(appl, 3 * i)
            fresh = True
        else:
            # Different from all others
            v = s.int("v%d" % i, 640 * i + 64, 640 * i + 600)
            nrpn(appl, 4, 0, v)
            if not first and not fresh:
                exp = v
            first = fresh = False
        if exp is None:
            s.check(not prev.override_text, "not-shown", lambda: "%s" % prev.override_text)
        else:
            s.check(prev.override_text is not None, "shown")
            ks = s.numbers(prev.override_text)
            s.check(len(ks) == 1 and rounded(s, ks[0], exp), "bpm")


def paged(s, n, preview):
    """Tempo display on a page shared with another function: label and LEDs show the tempo again as soon as its page is selected"""
    T = s.load("pyswitch.clients.kemper.actions.tempo")
    X = s.load("pyswitch.clients.local.actions.binary_switch")
    label = Label()
    en = EnableCallback(True)
    other = EnableCallback(False)
    kw = {"change_display": Label()} if preview else {}
    tempo = T.SHOW_TEMPO(display = label, color = (1, 2, 3), led_brightness = 0.5, enable_callback = en, **kw)
    hws = [SwitchModel()]
    acts = [tempo, X.BINARY_SWITCH(mapping = generic_mapping(s, "cc", response = False), text = "other", color = (8, 8, 8), display = label, use_leds = True, enable_callback = other)]
    appl = controller(s, [{"assignment": {"model": hws[0], "pixels": [0]}, "actions": acts}], protocol = Protocol())
    sw = appl.inputs[0]
    appl.update()
    v = p = None
    for i in range(n):
        op = s.choice("op%d" % i, ["bpm", "pulse", "page", "tick"] if i < n - 1 else ["page", "tick"])
        if op == "bpm":
            v = s.int("v%d" % i, 0, 16383)
            nrpn(appl, 4, 0, v)
        elif op == "pulse":
            p = s.int("p%d" % i, 0, 1)
            pulse_split(s, appl, p)
        elif op == "page":
            en.state = not en.state
            other.state = not other.state
            appl.update()
        else:
            appl.update()
        if not en.state:
            s.check(label.text == "other", "other-text", lambda: label.text)
            s.check(sw.color == (8, 8, 8), "other-colour", lambda: "%s" % (sw.color,))
            s.check(abs(sw.brightness - 0.02) < 0.001, "other-brightness", lambda: "%s" % sw.brightness)
        else:
            s.check(label.back_color == (1, 2, 3), "label-colour")
            if v is not None:
                ks = s.numbers(label.text)
                s.check(len(ks) == 1 and rounded(s, ks[0], v), "bpm", lambda: "%s" % label.text)
                s.check(s.eq(label.text, s.text("# bpm", ks[0])), "text")
            if p is not None:
                s.check(sw.color == (1, 2, 3), "colour", lambda: "%s" % (sw.color,))
                s.check(abs(sw.brightness - s.ite(p > 0, 0.5, 0)) < 0.001, "brightness")


def parameter(s, n, kind):
    """Labels for parameters: converted value, value or default text"""
    C = s.load("pyswitch.controller.callbacks.parameter_display")
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")
    kw = {}
    log = []
    m = generic_mapping(s, "nrpn", request = True)

    def conv(value):
        log.append(value)
        if value is None or bool(value < 64):
            return None
        return "big" if bool(value < 128) else ""

    default = ""
    if s.flag("default"):
        default = "none"
        kw["default_text"] = default
    if kind == "conv":
        kw["convert_value"] = conv
    if kind == "bpm":
        cb = s.load("pyswitch.clients.kemper.callbacks.tempo_bpm").KemperTempoDisplayCallback()
        default = ""
    else:
        cb = C.ParameterDisplayCallback(m, **kw)
    label = DL(layout = {"font": "/foo", "text": "initial"}, callback = cb)
    appl = controller(s)
    midi = appl.test_midi
    cb.init(appl, label_listener(label))
    label.update_label()
    v = None
    for i in range(n):
        op = s.choice("op%d" % i, ["value", "update", "lost"])
        if op == "value":
            # Answer to a request
            cb.update()
            v = s.int("v%d" % i, 0, 16383)
            nrpn(appl, 4, 0, v)
        elif op == "lost":
            # No answer for a long time
            cb.update()
            s.advance(2500)
            appl.client.receive(None)
            v = None
        else:
            cb.update()
        s.check(all(x[0] == "SX" and x[2][2] == 0x41 for x in midi.take()), "only-requests")
        if v is None:
            s.check(label.text == default, "default", lambda: "%s" % label.text)
        elif kind == "bpm":
            ks = s.numbers(label.text)
            s.check(len(ks) == 1 and rounded(s, ks[0], v), "bpm", lambda: "%s" % label.text)
            s.check(s.eq(label.text, s.text("# bpm", ks[0])), "text")
        elif kind == "conv" and bool(v >= 64):
            s.check(label.text == ("big" if bool(v < 128) else ""), "converted")
        else:
            s.check(s.eq(label.text, s.text("#", v)), "value", lambda: "%s" % label.text)


class label_listener:
    """Like the real label, in a minimal surrounding"""
    def __init__(self, label):
        self.label = label

    def parameter_changed(self, mapping):
        self.label.update_label()

    def request_terminated(self, mapping):
        self.label.update_label()


def rig_name(s, k, rig_id):
    """Rig names with any characters, before and after the rig ID is known"""
    K = s.load("pyswitch.clients.kemper")
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")
    cb = K.KemperRigNameCallback(show_rig_id = rig_id)
    label = DL(layout = {"font": "/foo", "text": "initial"}, callback = cb)
    appl = controller(s, protocol = Protocol())
    cb.init(appl, label_listener(label))
    appl.update()
    label.update_label()
    s.check(label.text == K.KemperRigNameCallback.DEFAULT_TEXT, "default-text", lambda: "%s" % label.text)
    nm = None
    rid = None
    for i in range(3):
        op = s.choice("op%d" % i, ["name", "rig"])
        if op == "name":
            codes = [s.int("c%d_%d" % (i, j), 1, 127) if not rig_id else ord("A") + i + j for j in range(k)]
            nm = codes
            name_message(appl, codes)
        else:
            rid = s.int("rig%d" % i, 0, 624)
            receive_rig(appl, rid)
        t = label.text
        if rid is not None and rig_id:
            b, r = rid // 5 + 1, rid % 5 + 1
            pre = {True: s.text("#-#", b, r), "rig": s.text("#", r), "bank": s.text("#", b)}[rig_id] + " "
        else:
            pre = ""
        if nm is None or not nm:
            s.check(s.eq(t, pre + K.KemperRigNameCallback.DEFAULT_TEXT if nm is None else t), "without-name", lambda: "%s" % t)
        else:
            s.check(s.eq(t, pre + text_of(s, nm)), "name", lambda: "%s" % t)


def text_of(s, codes):
    ch = s.load("pyswitch.misc").__builtins__["chr"] if s.symbolic else chr
    ret = ""
    for c in codes:
        ret = ret + ch(c)
    return ret


def jobs(tier):
    q = tier == "quick"
    n = 4 if q else 5
    ret = []
    for own in (False, True):
        ret.append(job(beat, n = n, own = own))
    for t in (False, True):
        ret.append(job(bpm_label, n = n, tuner = t))
        ret.append(job(preview, n = n, both = t))
    for p in (False, True):
        ret.append(job(paged, preview = p, n = n + 1))
    ret.append(job(preview_rigs, n = 6 if q else 8))
    for k in ("plain", "conv", "bpm"):
        ret.append(job(parameter, n = 3 if q else 4, kind = k))
    for r in (False, True, "rig", "bank"):
        for k in (0, 1, 3) if not r else (2,):
            ret.append(job(rig_name, k = k, rig_id = r))
    return ret

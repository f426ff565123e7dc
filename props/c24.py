"""Actions sending raw messages, key codes or nothing: custom, rotating, Boomerang, keyboard, fixed text"""
from .common import *
from .c18 import make
from .c17 import has_color

BOUNDS = {
    "quick": "all message bytes 0..255 for messages of 1 to 12 bytes, all colours; histories of 7 presses and releases for up to 3 rotating messages, release messages, colours and texts in any combination of list lengths; every Boomerang action, up to 3 LEDs; 1 to 8 key codes with and without USB host; all label colours",
    "thorough": "histories of 13 presses and releases, up to 4 rotating messages"
}


def raw(midi):
    ret = [list(m.__bytes__()) for m in midi.raw]
    midi.raw = []
    return ret


def bank(s, name, k, lo = 0):
    return [(s.int("%s%dr" % (name, i), lo, 255), s.int("%s%dg" % (name, i), lo, 255), s.int("%s%db" % (name, i), lo, 255)) for i in range(k)]


def custom(s, n):
    m = s.load("pyswitch.clients.local.actions.custom")
    msg = [s.int("m%d" % i, 0, 255) for i in range(s.choice("len", [1, 3, 12]))]
    kw = {}
    rel = None
    if s.flag("release"):
        rel = [s.int("r%d" % i, 0, 255) for i in range(s.choice("len-release", [2, 9]))]
        kw["message_release"] = list(rel)
    col = bank(s, "c", 1)[0]
    a = m.CUSTOM_MESSAGE(list(msg), text = "foo", color = col, led_brightness = 0.5, **kw)
    lb = Label()
    a.label = lb
    hws, appl = make(s, [a])
    midi = appl.test_midi
    sw = appl.inputs[0]
    appl.update()
    for i in range(n):
        s.check(s.eq(sw.color, col) and sw.brightness == 0.5, "led")
        s.check(s.eq(lb.back_color, col) and lb.text == "foo", "label")
        midi.raw = []
        hws[0].pushed = True
        sw.process()
        s.check(s.eq(raw(midi), [msg]), "message-on-press")
        hws[0].pushed = False
        sw.process()
        s.check(s.eq(raw(midi), [rel] if rel else []), "message-on-release")


def rotating(s, n, top):
    """Each list rotates with every release, no matter how long the other lists are"""
    m = s.load("pyswitch.clients.local.actions.rotate")
    lens = {k: s.choice(k, range(top + 1)) for k in ("messages", "messages_release", "led_colors")}
    for k in ("texts", "display_colors"):
        lens[k] = s.choice(k, [0, 2, top])
    msgs = [[176, s.int("m%d" % i, 0, 127)] for i in range(lens["messages"])]
    rels = [[192, s.int("mr%d" % i, 0, 127)] for i in range(lens["messages_release"])]
    cols = [(10 * i, s.int("c%d" % i, 0, 255), 3) for i in range(lens["led_colors"])]
    dcols = [(20 * i, s.int("dc%d" % i, 0, 255), 4) for i in range(lens["display_colors"])]
    texts = ["t%d" % i for i in range(lens["texts"])]
    kw = {k: v for k, v in (("messages", msgs), ("messages_release", rels), ("led_colors", cols), ("display_colors", dcols), ("texts", texts)) if v}
    a = m.ROTATING_MESSAGES(led_brightness = 0.5, **kw)
    lb = Label()
    a.label = lb
    hws, appl = make(s, [a])
    midi = appl.test_midi
    sw = appl.inputs[0]
    appl.update()
    pos = 0
    nth = lambda l: l[pos % len(l)]
    for i in range(n):
        if cols:
            s.check(s.eq(sw.color, nth(cols)) and sw.brightness == 0.5, "led-colour")
        if texts:
            s.check(lb.text == nth(texts), "text")
        if dcols or cols:
            s.check(s.eq(lb.back_color, nth(dcols or cols)), "label-colour")
        midi.raw = []
        hws[0].pushed = i % 2 == 0
        sw.process()
        if i % 2 == 0:
            s.check(s.eq(raw(midi), [nth(msgs)] if msgs else []), "message-on-press")
        else:
            s.check(s.eq(raw(midi), [nth(rels)] if rels else []), "message-on-release")
            pos += 1


def rotating_leds(s, n):
    """Several LEDs per switch: each has its own colours, the messages are only sent once"""
    m = s.load("pyswitch.clients.local.actions.rotate")
    leds = s.choice("leds", [2, 3])
    k = s.choice("entries", [1, 2, 3])
    cols = [[(10 * i, s.int("c%d_%d" % (j, i), 0, 255), j) for i in range(k)] for j in range(leds)]
    lens = {x: s.choice(x, [0, 2]) for x in ("messages", "messages_release", "texts", "display_colors")}
    msgs = [[176] + [s.int("m%d_%d" % (i, j), 0, 255) for j in range(4 * i + 1)] for i in range(lens["messages"])]
    rels = [[192] + [s.int("mr%d_%d" % (i, j), 0, 255) for j in range(2 * i + 1)] for i in range(lens["messages_release"])]
    dcols = [(20 * i, s.int("dc%d" % i, 0, 255), 4) for i in range(lens["display_colors"])]
    texts = ["t%d" % i for i in range(lens["texts"])]
    kw = {x: v for x, v in (("messages", msgs), ("messages_release", rels), ("display_colors", dcols), ("texts", texts)) if v}
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")
    lb = DL(layout = {"font": "/foo", "backColor": (1, 2, 3)})
    acts = m.ROTATING_MESSAGES(led_colors = cols, num_leds = leds, display = lb, **kw)
    hw = SwitchModel()
    appl = controller(s, [{"assignment": {"model": hw, "pixels": list(range(leds))}, "actions": acts}])
    midi = appl.test_midi
    sw = appl.inputs[0]
    appl.update()
    pos = 0
    nth = lambda l: l[pos % len(l)]
    for i in range(n):
        s.check(s.eq(list(sw.colors), [nth(c) for c in cols]), "led-colours", lambda: "step %d: %s instead of %s" % (pos, sw.colors, cols))
        if texts:
            s.check(lb.text == nth(texts), "text")
        s.check(s.eq(lb.back_color, nth(dcols or cols[0])), "label-colour")
        midi.raw = []
        hw.pushed = i % 2 == 0
        sw.process()
        if i % 2 == 0:
            s.check(s.eq(raw(midi), [nth(msgs)] if msgs else []), "message-on-press")
        else:
            s.check(s.eq(raw(midi), [nth(rels)] if rels else []), "message-on-release")
            pos += 1


BOOMERANG = {"PLAY_STOP_ALL": (17, 25), "SYNC_SERIAL": (43, 65), "MUTE_THRU": (3, 8), "PANIC": (11, 40), "ERASE": (16, 61), "ERASE_ALL": (28, 35), "STACK": (15, 23), "COPY": (1, 4), "FADE": (21, 32), "OCTAVE": (2, 49), "ONCE": (10, 18), "REVERSE": (47, 56)}


def boomerang(s, n):
    """Alternating program changes on MIDI channel 16; a bright LED wanders from the last LED to the first one"""
    m = s.load("pyswitch.clients.boomerang.actions.boomerang")
    name = s.choice("action", sorted(BOOMERANG))
    leds = s.choice("leds", [1, 2, 3])
    col = bank(s, "c", 1)[0]
    a = getattr(m, "BOOMERANG_" + name)(color = col, num_leds = leds)
    acts = a if isinstance(a, list) else [a]
    s.check(len(acts) == leds, "one-action-per-led")
    lb = Label()
    acts[0].label = lb
    hw = SwitchModel()
    appl = controller(s, [{"assignment": {"model": hw, "pixels": list(range(leds))}, "actions": list(acts)}])
    midi = appl.test_midi
    sw = appl.inputs[0]
    appl.update()
    dim = s.obj("pyswitch.colors:dim_color")
    bright, dark = dim(col, 0.3), dim(col, 0.02)
    for i in range(n):
        step = i // 2
        if leds == 1:
            want = [bright if step % 2 == 0 else dark]
        else:
            # with the steps, the bright LED of LED i is at position (leds - i - 1)
            want = [bright if (leds - 1 - k) == step % leds else dark for k in range(leds)]
        s.check(s.eq(list(sw.colors), want), "led-colours", lambda: "step %d: %s instead of %s" % (step, sw.colors, want))
        s.check(s.eq(lb.back_color, col), "label-colour")
        midi.raw = []
        hw.pushed = i % 2 == 0
        sw.process()
        want = [[207, BOOMERANG[name][step % 2]]] if i % 2 == 0 else []
        s.check(raw(midi) == want, "messages")


def keyboard(s, n):
    m = s.load("pyswitch.clients.local.actions.hid")
    kb = s.obj("adafruit_hid.keyboard:Keyboard")
    kind = s.choice("kind", ["single", "list", "tuple"])
    k = 1 if kind == "single" else s.choice("codes", [1, 3, 8])
    codes = [s.int("k%d" % i, 0, 255) for i in range(k)]
    col = bank(s, "c", 1)[0]
    a = m.HID_KEYBOARD(codes[0] if kind == "single" else tuple(codes) if kind == "tuple" else list(codes), text = "foo", color = col, led_brightness = 0.5)
    lb = Label()
    a.label = lb
    hws, appl = make(s, [a])
    sw = appl.inputs[0]
    midi = appl.test_midi
    appl.update()
    s.check(s.eq(sw.color, col) and sw.brightness == 0.5, "led")
    s.check(s.eq(lb.back_color, col) and lb.text == "foo", "label")
    for i in range(n):
        kb.fail = s.flag("no-host%d" % i)
        before = sum(len(x.sent) for x in kb.instances)
        hws[0].pushed = True
        sw.process()
        sent = [c for x in kb.instances for c in x.sent][before:] if len(kb.instances) != 1 else kb.instances[0].sent[before:]
        # (a keyboard might have been kept from an earlier press)
        if not kb.fail:
            s.check(s.eq([list(t) for t in sent], [[c] for c in codes]), "key-codes-one-by-one", lambda: "%s instead of %s" % (sent, codes))
        hws[0].pushed = False
        before = sum(len(x.sent) for x in kb.instances)
        sw.process()
        s.check(sum(len(x.sent) for x in kb.instances) == before, "nothing-on-release")
        s.check(midi.take() == [], "no-midi")


def fixed_text(s):
    """Shows text and colours, does nothing else"""
    m = s.load("pyswitch.clients.local.actions.fixed_text")
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")
    b0, b1, t1 = bank(s, "c", 3, 1)
    lb = DL(layout = {"font": "/foo", "backColor": b0})
    kw = {}
    if s.flag("back"):
        kw["back_color"] = b1
    if s.flag("text-colour"):
        kw["text_color"] = t1
    a = m.DISPLAY_FIXED_TEXT("foo", display = lb, **kw)
    hws, appl = make(s, [a])
    sw = appl.inputs[0]
    appl.update()
    for i in range(2):
        s.check(lb.text == "foo", "text")
        s.check(s.eq(lb.back_color, b1 if "back_color" in kw else b0), "back-colour")
        if "text_color" in kw:
            s.check(s.eq(lb.text_color, t1), "text-colour", lambda: "%s instead of %s" % (lb.text_color, t1))
        hws[0].pushed = True
        sw.process()
        hws[0].pushed = False
        sw.process()
        s.check(appl.test_midi.raw == [], "nothing-sent")


def jobs(tier):
    q = tier == "quick"
    return [
        job(custom, n = 2),
        job(rotating, n = 7 if q else 13, top = 3 if q else 4),
        job(rotating_leds, n = 7 if q else 13),
        job(boomerang, n = 7 if q else 13),
        job(keyboard, n = 2 if q else 4),
        job(fixed_text)
    ]

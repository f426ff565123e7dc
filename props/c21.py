"""Effect slots: name, colour and state of an effect slot switch"""
from .common import *
from .c18 import make

BOUNDS = {
    "quick": "all 14 bit effect types with and without extended names, slot names, own texts and colours, for all 8 slots; histories of 4 steps (effect type out of empty/3 types/unknown, state 0..16383, press, release after 0..2000 ms, connection lost) with the real protocol; effect buttons over 5 steps",
    "thorough": "histories of 5 (6) steps"
}
OUTSIDE = "messages sent when pressing the switch of an empty slot"

# Types as documented by Kemper (MIDI Parameter Documentation)
W, D, CO, G, SP, CH, PF, EQ, B, L, PI, DU, DE, R, T, RO, V, SL = (
    "Wah", "Dist", "Comp", "Gate", "Space", "Chorus", "Phaser", "EQ", "Boost", "Looper", "Pitch", "Dual", "Delay", "Reverb", "Tremolo", "Rotary", "Vibrato", "Slicer")
RANGES = (
    (0, 0, "-"), (1, 10, W), (11, 11, PI), (12, 13, W), (17, 42, D), (49, 50, CO), (57, 58, G), (64, 64, SP), (65, 67, CH), (68, 68, V), (69, 69, RO),
    (70, 70, T), (71, 71, CH), (75, 76, T), (77, 80, SL), (81, 91, PF), (97, 104, EQ), (113, 116, B), (121, 123, L), (129, 132, PI), (137, 140, DU),
    (145, 166, DE), (177, 193, R)
)
COLORS = {
    W: "ORANGE", D: "RED", CO: "CYAN", G: "CYAN", SP: "GREEN", CH: "BLUE", PF: "PURPLE", EQ: "YELLOW", B: "RED", L: "PINK", PI: "WHITE", DU: "LIGHT_GREEN",
    DE: "GREEN", R: "GREEN", T: "BLUE", RO: "BLUE", V: "BLUE", SL: "BLUE"
}
# Types with individual names
NAMED = {
    1: "Wah", 2: "LP", 3: "HP", 4: "Vowel", 6: "Wah Ph", 7: "Wah Fl", 9: "Ring", 11: "Pitch", 17: "Bit Shp", 21: "Wave Shp", 32: "KDrive", 38: "KFuzz", 42: "Full OC",
    49: "Comp", 50: "Swell", 57: "Gate 2:1", 58: "Gate 4:1", 64: "Space", 65: "VChorus", 68: "Vibrato", 69: "Rotary", 70: "Tremolo", 71: "MPitch", 81: "Phaser", 89: "Flanger",
    97: "Graphic", 101: "Wide", 104: "Double", 113: "Treble", 116: "WahBoost", 121: "Loop", 122: "Loop", 123: "LoopDist", 129: "Transp", 132: "Octave", 137: "DualChrom", 140: "DualLoop",
    145: "LDelay", 150: "Crystal", 166: "QuadHarm", 177: "LReverb", 183: "Sphere", 193: "Spring", 76: "HarmTrem", 80: "SawPan"
}
PAGES = (50, 51, 52, 53, 56, 58, 60, 61)
STATE = (3, 3, 3, 3, 3, 3, 2, 2)
CCS = (17, 18, 19, 20, 22, 24, 27, 29)
SLOTS = ("A", "B", "C", "D", "X", "MOD", "DLY", "REV")


def family(v):
    """Family name of a type (None: no effect defined)"""
    if not v <= 193:
        return "-"
    for lo, hi, n in reversed(RANGES):
        if v > hi:
            return "-"
        if v >= lo:
            return n


def receive(appl, page, param, v):
    SX = appl.test_midi.SX
    appl.client.receive(SX([0, 0x20, 0x33], [0, 0, 1, 0, page, param, v >> 7, v & 127]))


def display(s, ext, kind):
    """Name and colour for every type"""
    E = s.load("pyswitch.clients.kemper.actions." + ("effect_state_extended_names" if ext else "effect_state"))
    Colors = s.obj("pyswitch.colors:Colors")
    fn = E.EFFECT_STATE_EXT if ext else E.EFFECT_STATE
    slot = s.split(s.int("slot", 0, 7)) if not ext and kind == "slot" else 2
    kw = {}
    own = tuple(s.int("c%d" % i, 0, 255) for i in range(3))
    if kind == "own":
        kw = {"text": "foo", "color": own}
    elif kind == "slot":
        kw = {"show_slot_names": True}
    prot = s.obj("pyswitch.clients.kemper:KemperBidirectionalProtocol")(30)
    a = fn(slot, **kw)
    hws, appl = make(s, [a], protocol = prot)
    lb = Label()
    a.label = lb
    appl.update()
    v = s.int("type", 0, 16383)
    receive(appl, PAGES[slot], 0, v)
    f = family(v)
    col = own if kind == "own" else (50, 50, 50) if f == "-" else getattr(Colors, COLORS[f])
    s.check(s.eq(appl.inputs[0].color, col), "colour", lambda: "type %s: %s instead of %s" % (v, appl.inputs[0].color, col))
    if kind == "own":
        s.check(lb.text == "foo", "own-text")
        return
    text = lb.text
    if kind == "slot":
        s.check(text.startswith(SLOTS[slot] + " ") if slot < 10 else True, "slot-name", text)
        text = text[len(SLOTS[slot]) + 1:]
    if not ext:
        s.check(text == f, "family-name", lambda: "type %s: %s instead of %s" % (v, text, f))
        return
    if v == 0:
        s.check(text in ("Empty", "-"), "empty", text)
    elif f == "-":
        s.check(text == "-", "undefined-type", text)
    else:
        s.check(len(text) > 0 and text != "-" and text != "Empty", "has-name", lambda: "type %s: %s" % (v, text))
        for t in NAMED:
            if v == t:
                s.check(text == NAMED[t], "type-name", lambda: "type %s: %s instead of %s" % (v, text, NAMED[t]))


def named(s, n):
    """Names follow the type, also inside of a family (extended names)"""
    E = s.load("pyswitch.clients.kemper.actions.effect_state_extended_names")
    prot = s.obj("pyswitch.clients.kemper:KemperBidirectionalProtocol")(30)
    a = E.EFFECT_STATE_EXT(1)
    hws, appl = make(s, [a], protocol = prot)
    lb = Label()
    a.label = lb
    appl.update()
    for i in range(n):
        v = s.choice("type%d" % i, [0, 1, 2, 32, 38, 145, 150, 500])
        receive(appl, PAGES[1], 0, v)
        want = NAMED[v] if v in NAMED else None
        s.check(lb.text == want if want else lb.text in ("Empty", "-"), "type-name", lambda: "type %s: %s" % (v, lb.text))
        if s.flag("update%d" % i):
            appl.update()


def history(s, n, slot, label, first, types):
    """State of the slot"""
    E = s.load("pyswitch.clients.kemper.actions.effect_state")
    prot = s.obj("pyswitch.clients.kemper:KemperBidirectionalProtocol")(30)
    a = E.EFFECT_STATE(slot, color = (100, 100, 100) if not label else None)
    hws, appl = make(s, [a], protocol = prot, config = {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.25, "displayDimFactorOn": 1, "displayDimFactorOff": 0})
    midi = appl.test_midi
    lb = None
    if label:
        lb = Label()
        a.label = lb
    sw = appl.inputs[0]
    s.world.ms = 1000
    typ = None
    val = None
    down = None
    for i in range(n):
        if i > 0:
            s.advance(s.int("dt%d" % i, 0, 2000))
        op = first if i == 0 else s.choice("op%d" % i, ["type", "state", "switch", "lost"] if i < n - 1 else ["type", "state", "switch"])
        midi.take()
        if op == "type":
            typ = s.choice("type%d" % i, types)
            receive(appl, PAGES[slot], 0, typ)
        elif op == "state":
            val = s.int("val%d" % i, 0, 16383)
            receive(appl, PAGES[slot], STATE[slot], val)
        elif op == "lost":
            appl.client.notify_connection_lost()
            typ = val = None
        if op != "switch":
            s.check(midi.take() == [], "nothing-sent")
        else:
            filled = typ in (33, 180)
            on = filled and val is not None and bool(val >= 1)
            hws[0].pushed = not hws[0].pushed
            sw.process()
            got = midi.take()
            toggle = True
            if down is None:
                down = s.world.ms
            else:
                toggle = bool(s.world.ms > down + 600)
                down = None
            if filled and val is not None:
                exp = [("CC", CCS[slot], 0 if on else 1)] if toggle else []
                s.check(s.eq(got, exp), "message", lambda: "%s instead of %s" % (got, exp))
            else:
                s.check(len(got) <= 1, "message-empty-slot")
                if got:
                    s.check(s.And(got[0][0] == "CC", got[0][1] == CCS[slot], s.Or(got[0][2] == 0, got[0][2] == 1)), "message-empty-slot")
            if got:
                val = got[0][2]
        filled = typ in (33, 180)
        on = filled and val is not None and bool(val >= 1)
        s.observe("state", [a.state, sw.brightness])
        s.check(s.eq(sw.brightness, 0.5 if on else 0.25), "led", lambda: "%s: type %s value %s shown as %s" % (op, typ, val, sw.brightness))
        if label:
            col = {None: (50, 50, 50), 0: (50, 50, 50), 500: (50, 50, 50), 33: (255, 0, 0), 180: (0, 255, 0)}[typ]
            exp = col if on else (0, 0, 0)
            s.check(s.eq(sw.color, col), "colour")
            s.check(s.eq(lb.back_color, exp), "label", lambda: "%s: type %s value %s shown as %s" % (op, typ, val, lb.back_color))
            s.check(typ is None or lb.text == {0: "-", 500: "-", 33: "Dist", 180: "Reverb"}[typ], "text", lb.text)


def button(s, n, num, internal):
    """Effect buttons toggle and are reset with the rig"""
    B = s.load("pyswitch.clients.kemper.actions.effect_button")
    a = B.EFFECT_BUTTON(num, color = (100, 100, 100), use_internal_state = internal)
    lb = Label()
    a.label = lb
    hws, appl = make(s, [a], config = {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.25, "displayDimFactorOn": 1, "displayDimFactorOff": 0.5})
    midi = appl.test_midi
    sw = appl.inputs[0]
    on = False
    rig = None
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 2000))
        op = s.choice("op%d" % i, ["switch", "rig", "other"])
        if op == "rig":
            v = s.int("rig%d" % i, 0, 624)
            appl.client.receive(midi.CC(32, v >> 7))
            appl.client.receive(midi.PC(v & 127))
            if rig is None or bool(v != rig):
                on = False
            elif sw.brightness == 0.25:
                on = False                 # the same rig loaded again: not specified
            rig = v
            s.check(midi.take() == [], "nothing-sent")
        elif op == "other":
            v = s.int("cc%d" % i, 0, 127)
            s.assume(v != 32)
            appl.client.receive(midi.CC(v, s.int("v%d" % i, 0, 127)))
            s.check(midi.take() == [], "nothing-sent")
        else:
            hws[0].pushed = not hws[0].pushed
            sw.process()
            got = midi.take()
            if hws[0].pushed:
                on = not on
                s.check(s.eq(got, [("CC", 74 + num, 1 if on else 0)]), "message", lambda: "%s" % got)
            else:
                s.check(got == [], "release")
        if i > 0 or op == "switch":
            s.check(sw.brightness == (0.5 if on and internal else 0.25), "led", lambda: "%s shown as %s" % (on, sw.brightness))
            s.check(lb.back_color == ((100, 100, 100) if on and internal else (50, 50, 50)), "label-colour", lambda: "%s shown as %s" % (on, lb.back_color))
            s.check(lb.text == "FX " + ("I", "II", "III", "IIII")[num - 1], "label-text", lb.text)


def jobs(tier):
    q = tier == "quick"
    n = 4
    ret = [job(display, ext = e, kind = k) for e in (False, True) for k in ("plain", "own", "slot")]
    ret.append(job(named, n = 3 if q else 4))
    for first in ("type", "state", "switch"):
        for slot in ((0, 5) if q else (0, 2, 5)):
            ret.append(job(history, n = n, slot = slot, label = slot == 5, first = first, types = [0, 33, 180] if slot == 0 else [0, 33, 500]))
        if not q:
            ret.append(job(history, n = 5, slot = 4, label = False, first = first, types = [0, 180]))
    for num, internal in ((1, True), (2, True), (3, True), (4, True), (2, False)):
        ret.append(job(button, n = (5 if num == 1 else 4) if q else 6, num = num, internal = internal))
    return ret

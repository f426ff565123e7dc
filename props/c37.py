"""The default configuration in a closed loop with the Profiler"""
from .common import *
from .firmware import *
from .profiler import *

BOUNDS = {
    "quick": "the whole firmware with the default configuration, connected to a modelled Profiler: any single operation at any rig (0..624); all histories of 2 operations (tap or hold each switch, turn the wheel by -3..3, press or hold the wheel, rig change to 5 representative rigs or slot or tuner change at the Profiler) from the rigs 7 and 624 with any gain, with prompt answers and answers delayed by 250 ms; a connection interrupted for 3 or 8 s with any change at the Profiler meanwhile",
    "thorough": "histories of 3 operations, interruptions before and after any operation"
}
OUTSIDE = "empty effect slots are not operated; wheel in tuner mode; messages lost in interruptions shorter than 1.5 s; more than one switch held at a time"

SLOT_PINS = ("GP1", "GP25", "GP24", "GP23")
RIG_PINS = ("GP9", "GP10", "GP11", "GP18", "GP19")
UP, WHEEL = "GP20", "GP0"


class Loop:
    """Firmware and Profiler"""
    def __init__(self, s, fw, delay = 0, rig = None, gain = None):
        self.s = s
        s.world.ms = 10000
        self.delay = delay
        self.fw = fw
        self.p = Profiler(s, s.int("rig", 0, 624) if rig is None else rig, s.int("gain", 0, 16383) if gain is None else gain)
        self.p.reply = self.reply
        self.wire = []
        self.connected = True
        self.pre = None             # preselected gain
        fw.connect(self.on_send)

    def reply(self, m):
        if self.connected:
            self.wire.append((self.s.world.ms + self.delay, m))

    def on_send(self, m):
        if not self.connected:
            return
        if m[0] == "SX":
            self.s.check(m[1] == [0, 0x20, 0x33], "manufacturer")
            m = ("SX", m[2])
        self.p.receive(m)

    def deliver(self):
        while self.wire and self.wire[0][0] <= self.s.world.ms:
            m = self.wire.pop(0)[1]
            self.fw.give(("SX", [0, 0x20, 0x33], m[1]) if m[0] == "SX" else m)

    def wait(self, ms, step = 25):
        """Time passes while the firmware is running"""
        while ms > 0:
            d = min(ms, step)
            ms -= d
            self.s.advance(d)
            if self.connected:
                self.p.tick()
            self.deliver()
            yield

    def run(self, scenario):
        def sc(f):
            yield
            yield from self.wait(2000)
            yield from scenario(self)
        self.fw.run(sc)

    # -------- what the user sees

    def leds(self, pin):
        """The three LEDs of a switch"""
        order = ("GP1", "GP25", "GP24", "GP23", "GP20", "GP9", "GP10", "GP11", "GP18", "GP19")
        i = order.index(pin)
        return [self.fw.pixels()[3 * i + j] for j in range(3)]

    def elements(self):
        return self.fw.elements()



def led_is(s, got, color, percent):
    """All LEDs show color with the given brightness (a step of tolerance: single precision)"""
    for g in got:
        for h in range(3):
            c = color[h] * percent
            if not bool(s.And(g[h] * 100 <= c, (g[h] + 2) * 100 > c)):
                return False
    return True


def check(s, lp, preview = False, entered = False):
    """LEDs and screen show the state of the Profiler"""
    p = lp.p
    Colors = lp.fw.module("pyswitch.colors").Colors
    bank_colors = lp.fw.module("pyswitch.clients.kemper").BANK_COLORS
    D = lp.fw.module("display")
    s.check(p.errors == [], "message-unknown-to-the-profiler", lambda: "%s" % p.errors)
    DL = D.DISPLAY_RIG_NAME

    # Which screen: four slot labels and the rig name, or the tuner
    texts = [e.text for x, y, e in lp.elements() if hasattr(e, "text")]
    default_screen = len(texts) >= 5
    s.check(default_screen == (not p.tuner), "tuner-screen", lambda: "tuner %s, texts %s" % (p.tuner, texts))
    if p.tuner:
        for pin in SLOT_PINS + RIG_PINS if entered else ():
            s.check(led_is(s, lp.leds(pin), (255, 255, 255), 0), "leds-dark-in-tuner-mode", lambda: "%s %s" % (pin, lp.leds(pin)))
        return

    for i, pin in enumerate(SLOT_PINS):
        fam, col = FAMILY[p.types[i]]
        lb = (D.DISPLAY_HEADER_1, D.DISPLAY_HEADER_2, D.DISPLAY_FOOTER_1, D.DISPLAY_FOOTER_2)[i]
        s.check(lb.text == fam and fam in texts, "slot-name", lambda: "slot %d: %s instead of %s" % (i, lb.text, fam))
        on = p.on[i] and col is not None
        c = getattr(Colors, col) if col else (50, 50, 50)
        s.check(led_is(s, lp.leds(pin), c, 30 if on else 2), "slot-led", lambda: "slot %d type %d on %s: %s" % (i, p.types[i], on, lp.leds(pin)))
    bank = s.split(p.rig // 5 % len(bank_colors))
    rig = s.split(p.rig % 5)
    for i, pin in enumerate(RIG_PINS):
        if pin in ("GP9", "GP19"):
            # Shared with bank up/down (dim, colour of the target bank)
            got = lp.leds(pin)
            ok = [led_is(s, [g], bank_colors[bank], 30 if i == rig else 2) for g in got]
            s.check(any(ok), "rig-led", lambda: "rig %d at %s: %s" % (i, p.rig, got))
        else:
            s.check(led_is(s, lp.leds(pin), bank_colors[bank], 30 if i == rig else 2), "rig-led", lambda: "rig %d at %s: %s" % (i, p.rig, lp.leds(pin)))
    if not preview:
        exp = s.text("#-# " + p.name, p.rig // 5 + 1, p.rig % 5 + 1)
        s.check(s.eq(DL.text, exp), "rig-name", lambda: "%s instead of %s" % (DL.text, exp))


def step(s, lp, i, kinds, newrigs):
    """One operation and the effect it must have on the Profiler"""
    p = lp.p
    hw = lp.fw.hw
    ops = []
    if "switch" in kinds:
        ops += [("tap", x) for x in SLOT_PINS + RIG_PINS + (UP,)] + [("hold", x) for x in SLOT_PINS + RIG_PINS + (UP,)]
    if "wheel" in kinds:
        ops += [("tap", WHEEL), ("hold", WHEEL)] + ([("turn", None)] if not p.tuner else [])
    if "device" in kinds:
        ops += [("rig", None), ("slot", None), ("tuner", None)]
    if "gap" in kinds:
        ops += [("gap", x) for x in ("none", "rig", "slot", "tuner")]
    op, x = s.choice("op%d" % i, ops)
    before = (p.rig, list(p.on), p.tuner, p.gain, p.kind, p.loads)
    del p.taps[:]
    was_tuner = p.tuner
    rig_before = p.rig
    exp_taps = []
    rig, on, tuner, gain, kind, loads = before
    on = list(on)

    if op in ("tap", "hold"):
        if x in SLOT_PINS and p.types[SLOT_PINS.index(x)] == 0 and not p.tuner:
            s.assume(False)         # empty slot
        hw.LEVEL[x] = False
        yield from lp.wait(100 if op == "tap" else 900)
        if x in SLOT_PINS and not tuner and op == "hold":
            s.check(p.on[SLOT_PINS.index(x)] == (not on[SLOT_PINS.index(x)]), "momentary", lambda: "%s" % p.on)
        hw.LEVEL[x] = True
        yield from lp.wait(50)
        if tuner:
            tuner = False           # any switch ends tuner mode
        elif x == WHEEL:
            if lp.pre is not None:
                if op == "tap":
                    gain = lp.pre
                lp.pre = None
        elif x in SLOT_PINS:
            if op == "tap":
                on[SLOT_PINS.index(x)] = not on[SLOT_PINS.index(x)]
        elif x == UP:
            if op == "tap":
                exp_taps = [1, 0]
            else:
                tuner = True
        else:
            loads += 1
            if op == "hold" and x in ("GP9", "GP19"):
                bank = rig // 5 + (1 if x == "GP19" else -1)
                bank = s.ite(bank > 124, 0, s.ite(bank < 0, 124, bank))
                rig = bank * 5 + rig % 5
            else:
                rig = (rig // 5) * 5 + RIG_PINS.index(x)
    elif op == "turn":
        d = s.int("d%d" % i, -3, 3)
        hw.ENCODER[("GP2", "GP3")] = hw.ENCODER.get(("GP2", "GP3"), 0) + d
        base = gain if lp.pre is None else lp.pre
        t = base + 40 * d
        t = s.ite(t < 0, 0, s.ite(t > 16383, 16383, t))
        if lp.pre is not None or bool(t != base):
            lp.pre = t
    if op == "gap":
        # Unplugged for some seconds
        lp.connected = False
        del lp.wire[:]
        yield from lp.wait(3000)
    change = x if op == "gap" else op
    if change == "rig":
        p.load(s.int("newrig%d" % i, 0, 624) if newrigs is None else s.choice("newrig%d" % i, newrigs), (p.kind + 1) % 3)
        before = None
    elif change == "slot":
        k = s.choice("slot%d" % i, range(4))
        p.set_slot(k, not p.on[k])
        before = None
    elif change == "tuner":
        p.set_tuner(not p.tuner)
        before = None
    if op == "gap":
        yield from lp.wait(s.choice("gap%d" % i, [0, 5000]))
        lp.connected = True
        yield from lp.wait(5000)
    yield from lp.wait(2000 if x == WHEEL else 800)
    if before:
        s.check(s.eq(p.rig, rig), "rig", lambda: "%s %s: rig %s instead of %s" % (op, x, p.rig, rig))
        s.check(p.loads == loads, "rig-loads", lambda: "%s %s: loaded %d times" % (op, x, p.loads - before[5]))
        s.check(p.tuner == tuner, "tuner", lambda: "%s %s" % (op, x))
        if p.loads == before[5]:
            s.check(p.on == on, "slots", lambda: "%s %s: %s instead of %s" % (op, x, p.on, on))
            s.check(s.eq(p.gain, gain), "gain", lambda: "%s %s: %s instead of %s" % (op, x, p.gain, gain))
        s.check(p.taps == exp_taps, "taps", lambda: "%s %s: %s" % (op, x, p.taps))
    if lp.pre is not None and bool(p.rig != rig_before):
        lp.pre = None               # another rig: preselections are cancelled
    check(s, lp, preview = lp.pre is not None, entered = not was_tuner)


def histories(s, kinds, delay, rig = None, gain = None, newrigs = None):
    """One operation of each of the given kinds"""
    lp = Loop(s, Firmware(s, "default"), delay, rig, gain)

    def scenario(lp):
        check(s, lp)
        for i, k in enumerate(kinds):
            yield from step(s, lp, i, k, newrigs)
    lp.run(scenario)


def jobs(tier):
    ret = []
    SW, WH, DV, GAP = ("switch",), ("wheel",), ("device",), ("gap",)
    ALL = SW + WH + DV
    NEW = (0, 8, 127, 128, 624)
    ret.append(job(histories, kinds = (SW,), delay = 0, gain = 8000))
    ret.append(job(histories, kinds = (DV,), delay = 250, gain = 8000))
    ret.append(job(histories, kinds = (GAP,), delay = 0, rig = 7, newrigs = NEW))
    for a in (SW, WH, DV):
        for b in (SW, WH, DV):
            ret.append(job(histories, kinds = (a, b), delay = 0, rig = 7, newrigs = NEW))
            ret.append(job(histories, kinds = (a, b), delay = 250, rig = 624, newrigs = NEW))
    if tier == "thorough":
        for a in (SW, WH, DV, GAP):
            for b in (SW, WH, DV, GAP):
                if GAP in (a, b):
                    ret.append(job(histories, kinds = (a, b), delay = 0, rig = 7, newrigs = NEW))
                for c in (SW, WH, DV):
                    if GAP not in (a, b):
                        ret.append(job(histories, kinds = (a, b, c), delay = 100, rig = 12, gain = 40, newrigs = (3, 624)))
                        ret.append(job(histories, kinds = (a, b, c), delay = 0, rig = 624, newrigs = (0, 128)))
                    elif c != DV and b != a:
                        ret.append(job(histories, kinds = (a, b, c), delay = 0, rig = 7, gain = 16000, newrigs = (3, 624)))
    return ret

"""Explore mode"""
from .common import *
from .firmware import *

BOUNDS = {
    "quick": "4 and 7 pins with up to 2 unusable ones: histories of 4 and 3 steps with any levels of all pins; whole firmware in explore mode with 29 pins of which none, some or all but one are unusable: any 3 pins pressed one after the other (from 6), any single one held while any other is pressed",
    "thorough": "5 steps, any 4 pins pressed one after the other"
}
OUTSIDE = "controllers without display or LEDs print to the console only"

DARK, LAST, SHOWN = "DARK_BLUE", "LIGHT_BLUE", "RED"


class Model:
    """names of the usable pins in the order of their labels"""
    def __init__(self, names):
        self.names = names
        self.current = -1
        self.mark = {n: DARK for n in names}
        self.latest = None

    def press(self, n):
        i = self.names.index(n)
        k = len(self.names)
        self.current += 1 if i % 2 == 0 else -1
        if self.current >= k:
            self.current = 0
        if self.current < 0:
            self.current = k - 1
        if self.latest:
            self.mark[self.latest] = LAST
        self.mark[n] = SHOWN
        self.latest = n


def check(s, m, splash, leds, Colors, columns = 5, total = None):
    Label = s.obj("adafruit_display_text.label:Label")
    Rect = s.obj("adafruit_display_shapes.rect:Rect")
    els = flat_splash(s, splash)
    texts = [e for x, y, e in els if isinstance(e, Label)]
    at = {id(e): (x + e.anchored_position[0], y + e.anchored_position[1]) for x, y, e in els if isinstance(e, Label)}
    rects = [(x + e.x, y + e.y, x + e.x + e.width, y + e.y + e.height, e.fill) for x, y, e in els if isinstance(e, Rect)]
    names = [e.text for e in texts if e.text.startswith("GP")]
    s.check(names == m.names, "port-labels", lambda: "%s instead of %s" % (names, m.names))
    # Backgrounds: the filled rectangle around each text
    def around(e):
        x, y = at[id(e)]
        return [r for r in rects if r[0] <= x < r[2] and r[1] <= y < r[3] and r[4] is not None]
    for e in texts:
        if not e.text.startswith("GP"):
            continue
        want = getattr(Colors, m.mark[e.text])
        got = around(e)
        s.check(len(got) > 0 and tuple(got[-1][4]) == want, "port-marker", lambda: "%s: %s instead of %s" % (e.text, got, want))
    # rows of five, all on the screen without overlaps
    boxes = []
    for e in texts:
        if e.text.startswith("GP"):
            boxes.append(around(e)[-1][:4])
    s.check(len(set(boxes)) == len(m.names), "one-box-per-port", lambda: "%s %s" % (boxes, [(e.text, e.anchored_position) for e in texts]))
    for i, a in enumerate(boxes):
        s.check(0 <= a[0] < a[2] <= 240 and 0 <= a[1] < a[3] <= 240, "box-on-screen", lambda: "%s" % (a,))
        for b in boxes[:i]:
            s.check(a[2] <= b[0] or b[2] <= a[0] or a[3] <= b[1] or b[3] <= a[1], "boxes-disjoint", lambda: "%s %s" % (a, b))
    for e in texts:
        if not e.text.startswith("GP"):
            s.check(around(e) == [] or around(e)[-1][:4] not in boxes, "pixels-beside-ports")
    px = [e.text for e in texts if not e.text.startswith("GP")]
    k = len(m.names)
    if m.current < 0:
        s.check(px == [""], "no-pixels-reported", lambda: "%s" % px)
    else:
        c = 3 * m.current
        s.check(px == ["Pixels: (%d, %d, %d) of %d" % (c, c + 1, c + 2, 3 * k)], "pixels-reported", lambda: "%s" % px)
        for i in range(3 * k):
            l = tuple(leds[i])
            if c <= i < c + 3:
                s.check(l == Colors.WHITE, "current-led-white", lambda: "%d: %s" % (i, l))
            else:
                s.check(l != Colors.WHITE and l[0] == l[1] == 0 < l[2] < 64, "other-led-dim-blue", lambda: "%d: %s" % (i, l))
        s.check(all(l is None or tuple(l) == (0, 0, 0) for l in leds[3 * k:]), "unused-leds-dark")


def explore(s, pins, busy, steps, kinds):
    """ExploreModeController with any pin levels"""
    X = s.load("pyswitch.controller.explore")
    UI = s.load("pyswitch.ui.UiController")
    Colors = s.obj("pyswitch.colors:Colors")

    class Board:
        LED = "LED"
    for p in pins:
        setattr(Board, "GP%d" % p, p)

    class Factory:
        switches = {}

        def create_switch(self, port):
            m = SwitchModel()
            def init():
                if port in busy:
                    raise ValueError("in use")
            m.init = init
            self.switches[port] = m
            return m

    f = Factory()
    d = Display()
    led = LedDriver()
    ctl = X.ExploreModeController(board = Board, switch_factory = f, led_driver = led, ui = UI.UiController(d, d))
    ctl.init()
    m = Model([n for n in sorted("GP%d" % p for p in pins) if int(n[2:]) not in busy])
    ctl.tick()
    check(s, m, d.shown, led.leds, Colors)
    level = {p: False for p in pins}
    for i in range(steps):
        for n in m.names:
            p = int(n[2:])
            now = s.bool("p%d_%d" % (p, i)) if kinds == "all" else level[p]
            f.switches[p].pushed = now
        if kinds == "one":
            p = s.choice("pin%d" % i, [int(n[2:]) for n in m.names])
            f.switches[p].pushed = not level[p]
        s.advance(s.choice("dt%d" % i, [10, 700]))
        s.check(ctl.tick() is True, "goes-on")
        for n in m.names:
            p = int(n[2:])
            now = bool(f.switches[p].pushed)
            if now and not level[p]:
                m.press(n)
            level[p] = now
        check(s, m, d.shown, led.leds, Colors)


def firmware(s, busy, pins, steps, hold):
    """The whole firmware in explore mode"""
    for n, p in configurations()["default"].items():
        s.U.roots.append((n, p))
    hw = s.load("hwsim")
    hw.BUSY = busy
    s.load("config").Config["exploreMode"] = True
    Colors = s.obj("pyswitch.colors:Colors")
    names = sorted(n for n in dir(s.load("board")) if n.startswith("GP") and n not in busy)
    m = Model(names)

    def scenario():
        yield
        yield
        s.check(len(hw.SHOWN) == 1 and len(hw.PIXELS) == 1, "shown")
        check(s, m, hw.SHOWN[-1], hw.PIXELS[0].data, Colors)
        down = []
        for i in range(steps):
            p = s.choice("pin%d" % i, [x for x in pins if x not in busy and x not in down])
            hw.LEVEL[p] = False
            m.press(p)
            yield
            s.advance(700)
            yield
            check(s, m, hw.SHOWN[-1], hw.PIXELS[0].data, Colors)
            if hold and not down:
                down.append(p)
            else:
                hw.LEVEL[p] = True
            yield
            yield
            check(s, m, hw.SHOWN[-1], hw.PIXELS[0].data, Colors)
    gen = scenario()

    def on_read(name):
        if name == names[0]:
            try:
                next(gen)
            except StopIteration:
                raise Stop()
    hw.on_read = on_read
    try:
        s.load("pyswitch.process")
    except Stop:
        return
    s.unreachable("loop-ended")


def jobs(tier):
    ret = []
    t = tier == "thorough"
    for busy in ((), (1,), (0, 3)):
        ret.append(job(explore, pins = (0, 1, 2, 3), busy = busy, steps = 3 if t or busy else 2, kinds = "all"))
    ret.append(job(explore, pins = (0, 1, 2, 3, 10, 11, 20), busy = (), steps = 4 if t else 3, kinds = "one"))
    ret.append(job(explore, pins = (0, 1, 2, 3, 10, 11, 20), busy = (2, 10), steps = 5 if t else 3, kinds = "one"))
    ALL = tuple("GP%d" % i for i in range(29))
    for busy in ((), ("GP0", "GP13", "GP14"), tuple(p for p in ALL if p != "GP9")):
        ret.append(job(firmware, busy = busy, pins = ("GP0", "GP1", "GP9", "GP10", "GP2", "GP28"), steps = 4 if t else 3 if len(busy) < 10 else 2, hold = False))
        if len(busy) < 10:
            ret.append(job(firmware, busy = busy, pins = ALL, steps = 2, hold = True))
    return ret


"""Display labels: text, wrapping, colours and contrast"""
from .common import *

BOUNDS = {
    "quick": "all text and background colours (0..255 per channel); histories of 3 operations (text, number, background colour, text colour, override text on/off, callback update, low memory on/off) before and after the label is shown; wrapping with 1..3 words, any position, size and stroke",
    "thorough": "histories of 4 operations"
}
OUTSIDE = "luminance within 0.1 of the limit; backgrounds made of several colours (mentioned in the README, not supported by the code)"


def make(s, layout, bounds = (0, 0, 100, 40), cb = None, show = True, **kw):
    El = s.load("pyswitch.ui.elements")
    UI = s.load("pyswitch.ui.UiController")
    B = s.obj("pyswitch.ui.ui:DisplayBounds")
    lay = {"font": "/f"}
    lay.update(layout)
    label = El.DisplayLabel(layout = lay, bounds = B(*bounds), callback = cb, **kw)

    class Root:
        def init(self, appl, listener):
            pass

        def get_root(self):
            return label

    d = Display()
    ui = UI.UiController(d, d, Root())
    appl = controller(s, ui = ui)
    if show:
        appl.init()
    return label, d, appl


def auto(s, c):
    """Contrasting text colour, and if it is decided at all"""
    lum = c[0] * 2126 + c[1] * 7151 + c[2] * 721
    white = lum < 1400000
    return tuple(s.ite(white, 255, 0) for i in range(3)), s.Or(lum < 1399000, lum > 1401000)


class Callback:
    def __init__(self, s):
        self.n = 0

    def init(self, appl, listener):
        self.listener = listener

    def update_label(self, label):
        self.n += 1
        label.text = "cb%d" % self.n


def rgb(s, name):
    """In histories, only green (with the highest luminance) is symbolic"""
    return (1, s.int(name + "g", 0, 255), 9)


def colors(s, fixed, n):
    """Contrast and colour changes for all colours"""
    back = tuple(s.int("b" + c, 0, 255) for c in "rgb")
    layout = {"backColor": back}
    first = None
    if fixed:
        first = layout["textColor"] = tuple(s.int("t" + c, 0, 255) for c in "rgb")
        s.assume(s.Or(first[0] > 0, first[1] > 0, first[2] > 0))
    label, d, appl = make(s, layout)
    show(s, label, d, "", first, back, first)
    for i in range(n):
        back = tuple(s.int("b%d" % i + c, 0, 255) for c in "rgb")
        label.back_color = back
        show(s, label, d, "", first, back, first)


def history(s, n, fixed, background, shown_at):
    """Text and colours after any sequence of changes"""
    cb = Callback(s)
    layout = {"text": "initial"}
    first = None
    back = None
    if fixed:
        first = rgb(s, "t")
        layout["textColor"] = first
    if background:
        back = rgb(s, "b")
        layout["backColor"] = back
    label, d, appl = make(s, layout, cb = cb, show = False)
    color = None
    text = "initial"
    over = None
    low = False
    warned = False
    ncb = 0
    color = first
    if shown_at == 0:
        appl.init()

    for i in range(n):
        if i and i == shown_at:
            appl.init()
            if low:
                text = "Low Memory!"
        ops = ["text", "number", "update", "override"]
        ops += ["color"]
        if background:
            ops.append("back")
        if (shown_at == 0 or i >= shown_at) and not low:
            ops.append("low")
        op = s.choice("op%d" % i, ops)
        if op == "text":
            v = s.choice("text%d" % i, ["A", ""])
            label.text = v
            text = v
        elif op == "number":
            label.text = 70 + i
            text = str(70 + i)
        elif op == "update":
            label.update_label()
            if over:
                text = over
            else:
                ncb += 1
                text = "cb%d" % ncb
        elif op == "override":
            over = None if over else "over"
            label.override_text = over
            continue
        elif op == "color":
            color = rgb(s, "c%d" % i)
            label.text_color = color
        elif op == "back":
            back2 = rgb(s, "b%d" % i)
            same = s.eq(back2, back)
            if bool(same):
                label.back_color = back2
            else:
                back = back2
                label.back_color = back
                color = first
        else:
            low = True
            appl.low_memory_warning = True
            continue
        if low and op in ("text", "number", "update"):
            text = "Low Memory!"
        s.check(s.eq(tuple(label.back_color), back) if back else label.back_color is None, "background-color")
        if shown_at == 0 or i >= shown_at:
            show(s, label, d, text, color, back, first)
            s.check(s.eq(label.text, text), "text", lambda: "%s instead of %s" % (label.text, text))


def show(s, label, d, text, color, back, first):
    t = splash_texts(s, d.shown)
    r = splash_rects(s, d.shown)
    s.check(len(t) == 1 and len(r) == (1 if back else 0), "elements")
    s.check(s.eq(t[0].text, text), "text", lambda: "%s instead of %s" % (t[0].text, text))
    if back:
        s.check(s.eq(tuple(r[0].fill), tuple(back)), "background")
    if color:
        s.check(s.eq(tuple(t[0].color), tuple(color)), "text-color", lambda: "%s instead of %s" % (t[0].color, color))
    elif back:
        a, sure = auto(s, back)
        s.check(s.Implies(sure, s.eq(tuple(t[0].color), a)), "contrast", lambda: "%s on %s" % (t[0].color, back))
    else:
        s.check(s.eq(tuple(t[0].color), (255, 255, 255)), "white")


def place(s, scale):
    """Position and size of background and text"""
    x, y, w, h = s.int("x", 0, 200), s.int("y", 0, 200), s.int("w", 20, 240), s.int("h", 20, 240)
    st = s.int("stroke", 0, 3)
    label, d, appl = make(s, {"backColor": (1, 2, 3), "stroke": st, "lineSpacing": 0.8, "font": "/g"}, (x, y, w, h), scale = scale)
    (r,) = splash_rects(s, d.shown)
    s.check(s.And(r.x == x + st, r.y == y + st, r.width == w - 2 * st, r.height == h - 2 * st), "rect", lambda: "%s" % ((r.x, r.y, r.width, r.height),))
    ((tx, ty, t),) = [(a, b, e) for a, b, e in flat_splash(s, d.shown) if e is not r]
    s.check(s.And(tx == x, ty == y, t.anchored_position[0] == w // 2, t.anchored_position[1] == h // 2), "text-position")
    s.check(t.anchor_point == (0.5, 0.5) and t.scale == scale and t.line_spacing == 0.8 and t.font == "/g", "text-settings")


def wrap(s, width):
    """Wrapping: the lines of the font library, joined by line feeds"""
    calls = []

    def wrapper(text, w, font):
        calls.append((w, font))
        ret = []
        for word in text.split(" "):
            ret += [word[i:i + 3] for i in range(0, len(word), 3)]
        return ret

    # Before the label module is loaded
    s.load("adafruit_display_text").wrap_text_to_pixels = wrapper
    label, d, appl = make(s, {"maxTextWidth": width, "text": "x y"} if width else {"text": "x y"})
    (t,) = splash_texts(s, d.shown)
    exp = "x\ny" if width else "x y"
    s.check(t.text == exp, "wrapped-initial")
    for i in range(2):
        v, exp = s.choice("v%d" % i, [("a", "a"), ("a b", "a\nb"), ("abcd", "abc\nd"), ("ab c defg", "ab\nc\ndef\ng"), ("", ""), ("Low", "Low")])
        how = s.choice("how%d" % i, ["text", "override", "memory"] if v else ["text"])
        if how == "override":
            label.override_text = v
            label.update_label()
            label.override_text = None
        elif how == "memory":
            appl.low_memory_warning = True
            label.text = v
            v, exp = "Low Memory!", "Low\nMem\nory\n!"
            appl.low_memory_warning = False
        else:
            label.text = v
        s.check(t.text == (exp if width else v), "wrapped", lambda: repr(t.text))
        s.check(label.text == v, "text")
    s.check(all(c == (width, "/f") for c in calls), "width")


def errors(s):
    """Backgrounds cannot be removed or added, fonts are mandatory"""
    El = s.load("pyswitch.ui.elements")
    label, d, appl = make(s, {})
    s.check(s.raises(lambda: setattr(label, "back_color", (1, 2, 3))), "add-background")
    label, d, appl = make(s, {"backColor": (1, 2, 3)})
    s.check(s.raises(lambda: setattr(label, "back_color", None)), "remove-background")
    s.check(s.raises(lambda: El.DisplayLabel(layout = {"text": "x"})), "no-font")


def jobs(tier):
    q = tier == "quick"
    n = 3 if q else 4
    ret = [job(errors), job(wrap, width = 0), job(wrap, width = 77), job(place, scale = 1), job(place, scale = 3)]
    for f in (False, True):
        ret.append(job(colors, fixed = f, n = 2))
        for b in (False, True):
            for at in (0, 2):
                ret.append(job(history, n = n, fixed = f, background = b, shown_at = at))
    return ret

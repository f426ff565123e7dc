"""Display layout: areas, split containers, switching displays, connection state dot"""
from .common import *

BOUNDS = {
    "quick": "any position, size and amount (0..1000, also fractional amounts in quarters); split containers with 1..3 children, empty entries, nested in each other, any size; display switching over 4 updates between 3 root elements; the shipped callback for one fixed root element over 2 updates; connection dot over 5 updates",
    "thorough": "split containers with up to 5 children, display switching over 6, dot over 7 updates"
}
OUTSIDE = "negative sizes"


def area(s, name = ""):
    B = s.obj("pyswitch.ui.ui:DisplayBounds")
    v = [s.int(name + c, 0, 1000) for c in "xywh"]
    return B(*v), v


def val(b):
    return [b.x, b.y, b.width, b.height]


def cut(s, side, remove, frac):
    """Cutting a part: part and rest tile the original area"""
    L = s.load("pyswitch.ui.layout")
    b, (x, y, w, h) = area(s)
    n = s.int("amount", 0, 1000)
    amount = n / 4 if frac else n
    if frac:
        n = n // 4
    part = getattr(L, ("remove_from_" if remove else "") + side)(b, amount)
    exp = {
        "top": ([x, y, w, n], [x, y + n, w, h - n]),
        "bottom": ([x, y + h - n, w, n], [x, y, w, h - n]),
        "left": ([x, y, n, h], [x + n, y, w - n, h]),
        "right": ([x + w - n, y, n, h], [x, y, w - n, h])
    }[side]
    s.check(s.eq(val(part), exp[0]), "part", lambda: "%s" % val(part))
    s.check(s.eq(val(b), exp[1] if remove else [x, y, w, h]), "rest", lambda: "%s" % val(b))


def move(s):
    L = s.load("pyswitch.ui.layout")
    b, (x, y, w, h) = area(s)
    dx, dy = s.int("dx", -500, 500), s.int("dy", -500, 500)
    t = L.translated(b, dx, dy)
    s.check(s.eq(val(t), [x + dx, y + dy, w, h]), "translated")
    s.check(s.eq(val(b), [x, y, w, h]), "original-kept")
    p = L.with_position(b, dx, dy)
    s.check(s.eq(val(p), [dx, dy, w, h]), "with-position")
    s.check(s.eq(val(b), [x, y, w, h]), "original-kept")
    L.translate(b, dx, dy)
    s.check(s.eq(val(b), [x + dx, y + dy, w, h]), "translate")
    s.check(s.eq(bool(b == t), True), "equal")
    c = b.clone()
    c.x = c.x + 1
    s.check(s.eq(val(b), [x + dx, y + dy, w, h]), "clone-independent")
    s.check(s.Not(b == c), "not-equal")


def split(s, n, nested, holes, late, same = False):
    """Children of split containers tile the area in order"""
    E = s.obj("pyswitch.ui.ui:DisplayElement")
    Sp = s.obj("pyswitch.ui.DisplaySplitContainer:DisplaySplitContainer")
    b, (x, y, w, h) = area(s)
    d = s.choice("dir", [Sp.HORIZONTAL, Sp.VERTICAL])
    kids = [E(id = i) for i in range(n)]
    inner = None
    if nested:
        sub = [E(id = "s%d" % i) for i in range(2)]
        inner = kids[-1] = Sp(direction = Sp.VERTICAL if (d == Sp.HORIZONTAL) != same else Sp.HORIZONTAL, children = sub)
    lst = list(kids)
    if holes:
        lst.insert(s.choice("hole", list(range(n + 1))), None)
    if late:
        c = Sp(direction = d, bounds = b)
        for k in lst:
            c.add(k)
    else:
        c = Sp(direction = d, bounds = b, children = lst)
        c.update_bounds()
    tile(s, kids, d == Sp.HORIZONTAL, x, y, w, h)
    if nested:
        tile(s, sub, (d != Sp.HORIZONTAL) != same, *val(kids[-1].bounds))
    s.check([e.id for e in c.contents_flat()[1:]] == [e.id for k in lst if k for e in ([k] + (sub if k is inner else []))], "flat")


def tile(s, kids, horizontal, x, y, w, h):
    n = len(kids)
    ln = w // n if horizontal else h // n
    for i, k in enumerate(kids):
        exp = [x + i * ln, y, ln, h] if horizontal else [x, y + i * ln, w, ln]
        s.check(s.eq(val(k.bounds), exp), "tile", lambda: "%s instead of %s" % (val(k.bounds), exp))


def splash(s, n):
    """Switching displays: shown once, initialised once, only shown elements are updated"""
    UI = s.load("pyswitch.ui.UiController")
    U = s.load("pyswitch.ui.ui")
    Up = s.obj("pyswitch.misc:Updateable")
    inits, updates = [], []

    class El(U.DisplayElement, Up):
        def init(self, ui, appl):
            inits.append(self.id)
            U.DisplayElement.init(self, ui, appl)

        def update(self):
            updates.append(self.id)

    roots = [El(id = "a", children = [El(id = "a1"), None, El(id = "a2")]), El(id = "b"), El(id = "c", children = [El(id = "c1", children = [El(id = "c2")])])]
    content = [["a", "a1", "a2"], ["b"], ["c", "c1", "c2"]]

    class Root:
        now = 0
        def init(self, appl, listener):
            self.listener = listener

        def get_root(self):
            return roots[self.now]

    root = Root()
    d = Display(300, 200)
    ui = UI.UiController(d, d, root)
    s.check(val(ui.bounds) == [0, 0, 300, 200], "bounds")
    appl = controller(s, ui = ui, config = {"updateInterval": 200})
    s.check(d.shown is None, "not-shown")
    appl.init()
    shown = 0
    known = {0}
    shows = 1
    s.world.ms = 1000
    for i in range(n):
        op = s.choice("op%d" % i, ["a", "b", "c", "wait"])
        if op != "wait":
            k = "abc".index(op)
            root.now = k
            root.listener.parameter_changed(None)
            if k != shown:
                shows += 1
                shown = k
            known.add(k)
        updates.clear()
        ms = s.int("ms%d" % i, 0, 1000)
        s.advance(ms)
        appl.tick()
        exp = sorted(content[shown])
        if i == 0:
            since = 1000 + ms
        else:
            since = since + ms
        if bool(since > 200):
            s.check(sorted(updates) == exp, "updated", lambda: "%s" % updates)
            since = 0
        else:
            s.check(updates == [], "no-update", lambda: "%s" % updates)
        s.check(d.shown is roots[shown].splash, "shown")
        s.check(d.shows == shows, "shown-once", lambda: "%d instead of %d" % (d.shows, shows))
        s.check(sorted(inits) == sorted(x for k in known for x in content[k]), "initialised-once", lambda: "%s" % inits)


def single(s, n):
    """The shipped callback for one fixed root element: it is shown and updated all the time"""
    UI = s.load("pyswitch.ui.UiController")
    U = s.load("pyswitch.ui.ui")
    Up = s.obj("pyswitch.misc:Updateable")
    CB = s.obj("pyswitch.clients.local.callbacks.splashes:SplashesCallback")
    inits, updates = [], []

    class El(U.DisplayElement, Up):
        def init(self, ui, appl):
            inits.append(self.id)
            U.DisplayElement.init(self, ui, appl)

        def update(self):
            updates.append(self.id)

    root = El(id = "a", children = [El(id = "a1"), None, El(id = "a2")])
    d = Display(300, 200)
    appl = controller(s, ui = UI.UiController(d, d, CB(root)), config = {"updateInterval": 200})
    appl.init()
    for i in range(n):
        updates.clear()
        ms = s.int("ms%d" % i, 0, 1000)
        s.advance(ms)
        appl.client.receive(appl.test_midi.CC(s.int("cc%d" % i, 0, 127), s.int("v%d" % i, 0, 127)))
        updates.clear()
        appl.update()
        s.check(sorted(updates) == ["a", "a1", "a2"], "updated", lambda: "%s" % updates)
        s.check(d.shown is root.splash and d.shows == 1, "shown-once")
        s.check(sorted(inits) == ["a", "a1", "a2"], "initialised-once", lambda: "%s" % inits)


def dot(s, n, bidirectional):
    """Connection state dot in the upper right corner"""
    El = s.load("pyswitch.ui.elements")
    UI = s.load("pyswitch.ui.UiController")
    B = s.obj("pyswitch.ui.ui:DisplayBounds")
    x, y, w, h = s.int("x", 0, 100), s.int("y", 0, 100), s.int("w", 10, 240), s.int("h", 10, 240)
    el = El.BidirectionalProtocolState(B(x, y, w, h))
    other = El.DisplayLabel(layout = {"font": "/f"}, bounds = B(x, y, w, h))

    class Root:
        def init(self, appl, listener):
            pass

        def get_root(self):
            return root

    root = s.obj("pyswitch.ui.ui:DisplayElement")(children = [el, other])
    d = Display()
    ui = UI.UiController(d, d, Root())
    p = Protocol()
    p.color = (0, 0, 0)
    p.get_color = lambda: p.color
    appl = controller(s, ui = ui, protocol = p if bidirectional else None)
    appl.init()
    rects = splash_rects(s, d.shown)
    if not bidirectional:
        s.check(len(rects) == 0, "no-dot")
    else:
        (r,) = rects
        s.check(s.And(r.x == x + w - 6, r.y == y + 2, r.width == 4, r.height == 4), "dot-position")
    s.world.ms = 1000
    for i in range(n):
        p.color = s.choice("color%d" % i, [(0, 255, 0), (255, 0, 0)])
        s.advance(s.int("ms%d" % i, 201, 1000))
        appl.tick()
        if bidirectional:
            s.check(r.fill == p.color, "dot-color")
        s.check(len(splash_rects(s, d.shown)) == len(rects), "same-elements")


def jobs(tier):
    q = tier == "quick"
    ret = [job(move)]
    for side in ("top", "bottom", "left", "right"):
        for rem in (False, True):
            for f in (False, True):
                ret.append(job(cut, side = side, remove = rem, frac = f))
    for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        ret.append(job(split, n = n, nested = True, holes = False, late = True, same = True))
        for nested in (False, True):
            ret.append(job(split, n = n, nested = nested, holes = True, late = False))
            ret.append(job(split, n = n, nested = nested, holes = False, late = True))
    ret.append(job(splash, n = 4 if q else 6))
    ret.append(job(single, n = 2))
    ret.append(job(dot, n = 5 if q else 7, bidirectional = True))
    ret.append(job(dot, n = 1, bidirectional = False))
    return ret

"""Paging: exactly the actions of the current page are active"""
from .common import *
from .c24 import raw

BOUNDS = {
    "quick": "histories of 4 steps (pager, page select and function switches pressed and released, updates) with 1 to 3 pages, rotating and direct selection, numeric and text page IDs, all page colours; encoders and pedals on pages; two independent and two nested pagers, also with up to 6 pages and page select switches on another page; pagers with parameters, any values received; each of 23 shipped switch actions sharing switch, LED and label with another page (3 or 4 steps)",
    "thorough": "histories of 5 steps, up to 4 pages"
}


class Rig:
    """Switches and their recorded messages"""
    def __init__(self, s, switches, extra = (), protocol = None):
        self.s = s
        self.hws = [SwitchModel() for x in switches]
        inputs = []
        for i, acts in enumerate(switches):
            inputs.append({"assignment": {"model": self.hws[i], "pixels": [i]}, "actions": list(acts)})
        self.appl = controller(s, inputs + list(extra), protocol = protocol or Protocol(False))
        self.midi = self.appl.test_midi

    def down(self, i):
        self.midi.take()
        self.midi.raw = []
        self.hws[i].pushed = True
        self.appl.inputs[i].process()
        return raw(self.midi)

    def up(self, i):
        self.midi.take()
        self.midi.raw = []
        self.hws[i].pushed = False
        self.appl.inputs[i].process()
        return raw(self.midi)

    def click(self, i):
        a = self.down(i)
        return a, self.up(i)

    def led(self, i, col, brightness, what):
        sw = self.appl.inputs[i]
        self.s.check(self.s.eq(sw.color, col), what + "-colour", lambda: "%s instead of %s" % (sw.color, col))
        self.s.check(abs(sw.brightness - brightness) < 0.0001, what + "-brightness", lambda: "%s instead of %s" % (sw.brightness, brightness))


def make_pages(s, ids, name = "p"):
    ret = []
    for i, x in enumerate(ids):
        p = {"id": x}
        if i != 1:
            p["color"] = (s.int("%s%dr" % (name, i), 0, 255), s.int("%s%dg" % (name, i), 0, 255), i)
            p["text"] = "page%d" % i
        ret.append(p)
    return ret


def col(p):
    return p.get("color", (255, 255, 255))


def paging(s, n, k, direct):
    """One pager, page select switches, one switch with a message for each page"""
    P = s.obj("pyswitch.clients.local.actions.pager:PagerAction")
    M = s.obj("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    custom = s.flag("custom")
    ids = (["A", "B", "C", "D"] if custom else [0, 1, 2, 3])[:k]
    pages = make_pages(s, ids)
    kw = {}
    if direct:
        sel = s.choice("direct", range(k))
        kw["select_page"] = ids[sel]
    bri = (0.15, 0.3, 0.02)
    if custom:
        bri = (0.5, 0.625, 0.25)
        kw.update({"led_brightness": 0.5, "led_brightness_on": 0.625, "led_brightness_off": 0.25})
    pager = P(pages = pages, **kw)
    lb = Label()
    pager.label = lb
    fn = [M([176, i], message_release = [177, i], color = (i, 5, 5), id = ids[i], enable_callback = pager.enable_callback) for i in range(k)]
    proxies = [pager.proxy(page_id = ids[i]) for i in range(1, k)]
    rig = Rig(s, [[pager], fn] + [[p] for p in proxies])
    page = 0
    for i in range(n):
        op = s.choice("op%d" % i, ["pager", "function"] + list(range(len(proxies))))
        if op == "pager":
            a, b = rig.click(0)
            s.check(a + b == [], "paging-sends-nothing")
            page = sel if direct else (page + 1) % k
        elif op == "function":
            a, b = rig.click(1)
            s.check(a == [[176, page]] and b == [[177, page]], "action-of-the-page", lambda: "page %d: %s %s" % (page, a, b))
        else:
            a, b = rig.click(2 + op)
            s.check(a + b == [], "paging-sends-nothing")
            page = op + 1
        if i == n - 1 or (i > 0 and s.flag("update%d" % i)):
            rig.appl.update()
            rig.led(1, (page, 5, 5), 0.15, "page")
        for j in range(k):
            s.check(fn[j].enabled == (j == page), "enabled-on-its-page-only")
        if direct:
            rig.led(0, col(pages[sel]), bri[1] if sel == page else bri[2], "pager")
        else:
            rig.led(0, col(pages[page]), bri[0], "pager")
        s.check(lb.text == pages[page].get("text", ""), "label-text")
        for j in range(len(proxies)):
            rig.led(2 + j, col(pages[j + 1]), bri[1] if j + 1 == page else bri[2], "select")


def held(s, n):
    """Pages changed while a function switch is held: no action of another page reacts"""
    P = s.obj("pyswitch.clients.local.actions.pager:PagerAction")
    M = s.obj("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    pager = P(pages = [{"id": 1}, {"id": 2}])
    fn = [M([176, i], message_release = [177, i], id = i + 1, enable_callback = pager.enable_callback) for i in range(2)]
    rig = Rig(s, [[pager], fn])
    page = 0
    down = [False, False]
    for i in range(n):
        w = s.choice("switch%d" % i, [0, 1])
        down[w] = not down[w]
        got = rig.down(w) if down[w] else rig.up(w)
        if w == 0:
            s.check(got == [], "paging-sends-nothing")
            if down[0]:
                page = 1 - page
        else:
            s.check(got == [[176 if down[1] else 177, page]], "action-of-the-page", lambda: str(got))


def inputs(s, n):
    """Encoders and pedals on pages"""
    P = s.obj("pyswitch.clients.local.actions.pager:PagerAction")
    E = s.obj("pyswitch.controller.actions.EncoderAction:EncoderAction")
    A = s.obj("pyswitch.controller.actions.AnalogAction:AnalogAction")
    pager = P(pages = [{"id": 1}, {"id": 2}])
    maps = [generic_mapping(s, "cc", name = "M%d" % i, n = i) for i in range(4)]
    enc = [E(maps[i], step_width = 1, id = i + 1, enable_callback = pager.enable_callback) for i in range(2)]
    ped = [A(maps[i + 2], id = i + 1, enable_callback = pager.enable_callback) for i in range(2)]
    eh, ph = EncoderModel(), PotModel()
    rig = Rig(s, [[pager]], extra = [{"assignment": {"model": eh}, "actions": enc}, {"assignment": {"model": ph}, "actions": ped}])
    midi = rig.midi
    page = 0
    rig.appl.update()
    rig.appl.inputs[1].process()
    for i in range(4):
        rig.appl.client.receive(midi.CC(20 + i, 64))
    s.advance(1000)
    for i in range(n):
        op = s.choice("op%d" % i, ["pager", "encoder", "pedal"])
        midi.take()
        if op == "pager":
            rig.click(0)
            rig.appl.inputs[1].process()
            page = 1 - page
            s.check(midi.take() == [], "paging-sends-nothing")
        elif op == "encoder":
            eh.position = eh.position + s.int("d%d" % i, 1, 3)
            rig.appl.inputs[1].process()
            got = midi.take()
            s.check(len(got) == 1 and got[0][1] == 20 + page, "encoder-of-the-page", lambda: str(got))
        else:
            s.advance(100)
            ph.value = 40000 + 600 * i
            rig.appl.inputs[2].process()
            got = midi.take()
            s.check(len(got) <= 1 and all(x[1] == 22 + page for x in got), "pedal-of-the-page", lambda: str(got))


def independent(s, n, nested):
    """Two pagers, the second one also living on a page of the first one (nested)"""
    P = s.obj("pyswitch.clients.local.actions.pager:PagerAction")
    M = s.obj("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    p1 = make_pages(s, ["A", "B"], "p")
    p2 = make_pages(s, ["A", "C"] if s.flag("same-ids") else [1, 2], "q")
    outer = P(pages = p1)
    inner = P(pages = p2, **({"id": "A", "enable_callback": outer.enable_callback} if nested else {}))
    other = M([176, 9], color = (9, 9, 9), id = "B", enable_callback = outer.enable_callback)
    fn = [M([176, i], color = (i, 5, 5), id = p2[i]["id"], enable_callback = inner.enable_callback) for i in range(2)]
    rig = Rig(s, [[outer], [inner, other] if nested else [inner], fn])
    a = b = 0
    for i in range(n):
        op = s.choice("op%d" % i, [0, 1, 2])
        x, y = rig.click(op)
        if op == 0:
            a = 1 - a
            s.check(x + y == [], "paging-sends-nothing")
        elif op == 1:
            if nested and a == 1:
                s.check(x == [[176, 9]], "action-of-the-page", lambda: str(x))
            else:
                b = 1 - b
                s.check(x + y == [], "paging-sends-nothing")
        else:
            s.check(x == [[176, b]], "action-of-the-page", lambda: str(x))
        if i == n - 1 or s.flag("update%d" % i):
            rig.appl.update()
            rig.led(0, col(p1[a]), 0.15, "outer")
            rig.led(1, (9, 9, 9) if nested and a == 1 else col(p2[b]), 0.15, "inner")
            rig.led(2, (b, 5, 5), 0.15, "page")


def nested_select(s, n):
    """A nested pager with its page select switch on the other page of the outer pager, many actions per switch"""
    P = s.obj("pyswitch.clients.local.actions.pager:PagerAction")
    M = s.obj("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    p1 = make_pages(s, ["A", "B"], "p")
    p2 = make_pages(s, list(range(6)), "q")
    outer = P(pages = p1)
    sel = s.choice("select", [None, 0, 5])
    inner = P(pages = p2, id = "A", enable_callback = outer.enable_callback, **({} if sel is None else {"select_page": sel}))
    proxy = inner.proxy(page_id = 4, id = "B", enable_callback = outer.enable_callback)
    # both pages of the outer pager use the same label
    lb = Label()
    inner.label = lb
    other = [M([176, 9 + i], text = "other%d" % i, color = (9 + i, 9, 9), id = "BA"[i], enable_callback = outer.enable_callback) for i in range(2)]
    other[0].label = lb
    fn = [M([176, i], color = (i, 5, 5), id = i, enable_callback = inner.enable_callback) for i in range(6)]
    rig = Rig(s, [[outer], [inner, other[0]], [other[1], proxy], fn])
    a = b = 0
    for i in range(n):
        op = s.choice("op%d" % i, [0, 1, 2, 3])
        x, y = rig.click(op)
        if op == 0:
            a = 1 - a
            s.check(x + y == [], "paging-sends-nothing")
        elif (op == 1 and a == 1) or (op == 2 and a == 0):
            s.check(x == [[176, 8 + op]], "action-of-the-page", lambda: str(x))
        elif op == 3:
            s.check(x == [[176, b]], "action-of-the-page", lambda: str(x))
        else:
            b = 4 if op == 2 else (b + 1) % 6 if sel is None else sel
            s.check(x + y == [], "paging-sends-nothing")
        if i == n - 1 or s.flag("update%d" % i):
            rig.appl.update()
            rig.led(0, col(p1[a]), 0.15, "outer")
            if a == 1:
                rig.led(1, (9, 9, 9), 0.15, "page")
                s.check(lb.text == "other0", "label-of-the-page", lambda: lb.text)
                rig.led(2, col(p2[4]), 0.3 if b == 4 else 0.02, "select")
            else:
                s.check(lb.text == p2[b].get("text", ""), "label-of-the-page", lambda: lb.text)
                if sel is None:
                    rig.led(1, col(p2[b]), 0.15, "inner")
                else:
                    rig.led(1, col(p2[sel]), 0.3 if sel == b else 0.02, "inner")
                rig.led(2, (10, 9, 9), 0.15, "page")
            rig.led(3, (b, 5, 5), 0.15, "page")


KINDS = {
    # module, factory, arguments, messages which change what it shows
    "up": ("local.actions.param_change", "PARAMETER_UP_DOWN", {"offset": 5}, ["cc"]),
    "down": ("local.actions.param_change", "PARAMETER_UP_DOWN", {"offset": -5}, ["cc"]),
    "binary": ("local.actions.binary_switch", "BINARY_SWITCH", {"text": "Bin", "color": (50, 60, 70)}, ["cc"]),
    "fixed-text": ("local.actions.fixed_text", "DISPLAY_FIXED_TEXT", {"text": "Fix", "back_color": (10, 20, 30), "text_color": (1, 2, 3)}, []),
    "rotating": ("local.actions.rotate", "ROTATING_MESSAGES", {"messages": [[176, 1, 2]], "led_colors": [(1, 2, 3)], "texts": ["Rot"]}, []),
    "effect": ("kemper.actions.effect_state", "EFFECT_STATE", {"slot_id": 2}, [(52, 0), (52, 3)]),
    "effect-ext": ("kemper.actions.effect_state_extended_names", "EFFECT_STATE_EXT", {"slot_id": 2}, [(52, 0), (52, 3)]),
    "fixed-fx": ("kemper.actions.fixed_fx", "FIXED_EFFECT_STATE", {"slot": 2}, [(5, 11)]),
    "button": ("kemper.actions.effect_button", "EFFECT_BUTTON", {"num": 2}, ["rig"]),
    "boost": ("kemper.actions.rig_volume_boost", "RIG_VOLUME_BOOST", {"boost_volume": 0.75}, [(4, 1)]),
    "tuner": ("kemper.actions.tuner", "TUNER_MODE", {}, [(127, 126)]),
    "tap": ("kemper.actions.tempo", "TAP_TEMPO", {"use_leds": True}, []),
    "tempo": ("kemper.actions.tempo", "SHOW_TEMPO", {}, [(124, 0), (4, 0)]),
    "morph": ("kemper.actions.morph", "MORPH_BUTTON", {}, [(0, 11)]),
    "morph-display": ("kemper.actions.morph", "MORPH_DISPLAY", {}, [(0, 11)]),
    "looper": ("kemper.actions.looper", "LOOPER_STOP", {}, []),
    "rig": ("kemper.actions.rig_select", "RIG_SELECT", {"rig": 2}, ["rig"]),
    "rig-target": ("kemper.actions.rig_select", "RIG_SELECT", {"rig": 2, "bank": 3, "display_mode": 20}, ["rig"]),
    "rig-up": ("kemper.actions.rig_up_down", "RIG_UP", {}, ["rig"]),
    "rig-down": ("kemper.actions.rig_up_down", "RIG_DOWN", {}, ["rig"]),
    "bank-up": ("kemper.actions.bank_up_down", "BANK_UP", {}, ["rig"]),
    "bank-down": ("kemper.actions.bank_up_down", "BANK_DOWN", {}, ["rig"]),
    "bank": ("kemper.actions.bank_select", "BANK_SELECT", {"bank": 2}, ["rig"]),
}


def shipped(s, n, kind):
    """Every shipped action sharing its switch, LED and label with another page: it shows the same as a copy of it which is always there"""
    P = s.obj("pyswitch.clients.local.actions.pager:PagerAction")
    M = s.obj("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    mod, factory, kw, messages = KINDS[kind]
    fn = s.obj("pyswitch.clients.%s:%s" % (mod, factory))
    kw = dict(kw)
    if "cc" in messages:
        kw["mapping"] = generic_mapping(s, "cc")
    pager = P(pages = [{"id": 1}, {"id": 2}])
    lb, copy = Label(), Label()
    lb.back_color = copy.back_color = (1, 1, 1)
    lb.text_color = copy.text_color = None
    lb.color = copy.color = None
    act = fn(display = lb, id = 1, enable_callback = pager.enable_callback, **kw)
    twin = fn(display = copy, **kw)
    other = M([176, 99], text = "other", color = (7, 8, 9), led_brightness = 0.5, display = lb, id = 2, enable_callback = pager.enable_callback)
    swap = s.flag("other-first")
    rig = Rig(s, [[pager], [other, act] if swap else [act, other], [twin]], protocol = Protocol())
    midi, appl = rig.midi, rig.appl
    s.world.ms = 10000
    page = 0
    pulsed = False              # a tempo pulse has been received
    for i in range(n):
        op = s.choice("op%d" % i, ["pager"] + messages)
        if op == "pager":
            rig.click(0)
            page = 1 - page
        elif op == "rig":
            v = s.int("rig%d" % i, 0, 624)
            appl.client.receive(midi.CC(32, v // 128))
            appl.client.receive(midi.PC(v % 128))
        elif op == "cc":
            appl.client.receive(midi.CC(20, s.choice("v%d" % i, [0, 40, 127]) if kind in ("up", "down") else s.int("v%d" % i, 0, 127)))
        else:
            pulsed = pulsed or op[0] == 124
            if op[0] >= 50 and op[1] == 0:
                v = s.choice("t%d" % i, [0, 1, 33, 178])
            elif kind in ("morph", "morph-display", "tempo"):
                v = s.choice("v%d" % i, [0, 5000, 16383])
            else:
                v = s.int("v%d" % i, 0, 16383)
            appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, op[0], op[1], v >> 7, v & 127]))
        if i == n - 1 or s.flag("update%d" % i):
            s.advance(10)
            appl.update()
            leds = appl.led_driver.leds
            if page == 1:
                s.check(lb.text == "other" and s.eq(lb.back_color, (7, 8, 9)), "label-of-the-page", lambda: "%s %s" % (lb.text, lb.back_color))
                s.check(s.eq(tuple(leds[1]), (3, 4, 4)), "led-of-the-page", lambda: str(leds[1]))
            else:
                s.check(s.eq(lb.text, copy.text), "label-of-the-page", lambda: "%s instead of %s" % (lb.text, copy.text))
                s.check(s.eq(lb.back_color, copy.back_color), "label-color-of-the-page", lambda: "%s instead of %s" % (lb.back_color, copy.back_color))
                if kind != "fixed-text" and (kind != "tempo" or pulsed):
                    s.check(s.eq(tuple(leds[1]), tuple(leds[2])), "led-of-the-page", lambda: "%s instead of %s" % (leds[1], leds[2]))


def select_pages(s, n):
    """Page select switches of which some are disabled: the others still show the selected page"""
    P = s.obj("pyswitch.clients.local.actions.pager:PagerAction")
    pages = make_pages(s, [0, 1, 2])
    pager = P(pages = pages, use_leds = False)
    en = [EnableCallback() for i in range(3)]
    proxies = [pager.proxy(page_id = i, enable_callback = en[i]) for i in range(3)]
    rig = Rig(s, [[pager]] + [[p] for p in proxies])
    page = 0
    for i in range(n):
        for j in range(3):
            if s.flag("change%d%d" % (i, j)):
                en[j].state = not en[j].state
        w = s.choice("op%d" % i, [0, 1, 2])
        rig.click(w + 1)
        if en[w].state:
            page = w
        rig.appl.update()
        for j in range(3):
            if en[j].state:
                rig.led(j + 1, col(pages[j]), 0.3 if j == page else 0.02, "select")


def with_mappings(s, n):
    """Pagers depending on parameters request and follow them, without changing the page"""
    P = s.obj("pyswitch.clients.local.actions.pager:PagerAction")
    m = generic_mapping(s, "nrpn", request = True)
    pages = make_pages(s, [1, 2])
    pager = P(pages = pages, mappings = [m])
    rig = Rig(s, [[pager]])
    midi = rig.midi
    page = 0
    for i in range(n):
        op = s.choice("op%d" % i, ["update", "receive", "click"])
        midi.take()
        if op == "update":
            rig.appl.update()
            s.check(len(midi.take()) <= 1, "requests")
        elif op == "receive":
            v = s.int("v%d" % i, 0, 16383)
            rig.appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, v >> 7, v & 127]))
        else:
            rig.click(0)
            page = 1 - page
        rig.led(0, col(pages[page]), 0.15, "pager")


def jobs(tier):
    q = tier == "quick"
    n = 4 if q else 5
    ret = []
    for k in range(1, 4 if q else 5):
        for d in (False, True):
            ret.append(job(paging, n = n, k = k, direct = d))
    ret.append(job(held, n = 6 if q else 8))
    ret.append(job(inputs, n = 4 if q else 5))
    for x in (False, True):
        ret.append(job(independent, n = n, nested = x))
    ret.append(job(nested_select, n = n))
    for k in KINDS:
        ret.append(job(shipped, n = n if len(KINDS[k][3]) < 2 and "rig" not in KINDS[k][3] else 3, kind = k))
    ret.append(job(select_pages, n = 2 if q else 3))
    ret.append(job(with_mappings, n = 4 if q else 5))
    return ret

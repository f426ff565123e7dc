"""Temporary value previews on display labels"""
from .common import *

BOUNDS = {
    "quick": "histories of 5 operations (preview by one of two participants or an anonymous one, reset, updates at any time, callback update of the label) on a real label, any timeouts and blink intervals up to 3 s",
    "thorough": "histories of 6 operations"
}
OUTSIDE = "blinking previews which are not kept until reset (not used by any action)"


class Client:
    def __init__(self, pre):
        self.pre = pre
        self.canceled = 0

    def cancel(self):
        self.canceled += 1
        self.pre.reset(immediately = True)


def previews(s, n):
    VP = s.obj("pyswitch.controller.preview:ValuePreview")
    DL = s.obj("pyswitch.ui.elements:DisplayLabel")

    class CB:
        text = "normal"

        def update_label(self, label):
            label.text = self.text

    cb = CB()
    label = DL(layout = {"font": "/foo", "textColor": (1, 2, 3), "text": "initial"}, callback = cb)
    p = VP.get(label)
    s.check(VP.get(label) is p, "one-preview-per-label")
    A, B = Client(p), Client(p)
    s.world.ms = s.int("t0", 0, 2000)
    label.update_label()
    s.check(label.text == "normal", "normal-text")

    cur = None                 # text shown as preview
    keep = False
    timeout = None             # None: never
    since = None
    seen = []                  # participants which have ever shown something
    blink = None
    blink_color = None
    blink_unknown = False

    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 4000))
        now = s.world.ms
        op = s.choice("op%d" % i, ["show", "keep"] if i == 0 else ["show", "keep", "update", "reset", "reset-now"] if i < n - 1 else ["update"])
        if op in ("show", "keep"):
            who = s.choice("who%d" % i, [A, B, None] if i < 2 else [A])
            t = s.int("timeout%d" % i, 1, 3000) if op == "show" or i == 0 else 1500
            bl = None
            before = (A.canceled, B.canceled)
            text = "P%d" % i
            if op == "keep":
                bl = s.int("blink%d" % i, 1, 3000)
                p.preview(text = text, client = who, stay = True, timeout_millis = t, blink_interval_millis = bl, blink_color = (9, 9, 9))
            else:
                p.preview(text = text, client = who, timeout_millis = t)
            exp = tuple(b + (1 if c in seen and c is not who else 0) for b, c in zip(before, (A, B)))
            s.check((A.canceled, B.canceled) == exp, "others-canceled", lambda: "%s instead of %s" % ((A.canceled, B.canceled), exp))
            if who and who not in seen:
                seen.append(who)
            cur = text
            keep = op == "keep"
            timeout = t
            since = now
            s.check(label.text == text, "preview-shown", lambda: label.text)
        elif op == "update":
            p.update()
            if cur and not keep and now > since + timeout:
                cur = None
        elif op == "reset":
            p.reset()
            if cur:
                keep = False
                since = now
            s.check(s.eq(label.text_color, (1, 2, 3)), "color-restored")
        else:
            p.reset(immediately = True)
            cur = None
            keep = False
            s.check(s.eq(label.text_color, (1, 2, 3)), "color-restored")
        # The label's own content changes at any time
        cb.text = "normal%d" % i
        label.update_label()
        s.check(label.text == (cur if cur else cb.text), "label-text", lambda: "shows %s, not %s" % (label.text, cur or cb.text))
        if not keep:
            s.check(s.eq(label.text_color, (1, 2, 3)) or op in ("show", "update"), "no-blinking")


def blinking(s, n):
    """Kept previews blink with the interval, and the color is restored"""
    VP = s.obj("pyswitch.controller.preview:ValuePreview")
    label = Label()
    label.text_color = (1, 2, 3)
    p = VP.get(label)
    s.world.ms = s.int("t0", 0, 2000)
    interval = s.int("interval", 1, 3000)
    p.preview(text = "X", stay = True, blink_interval_millis = interval, blink_color = (9, 9, 9))
    s.check(s.eq(label.text_color, (1, 2, 3)), "starts-normal")
    last = None
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 4000))
        before = label.text_color
        if i == n // 2 and s.flag("again"):
            p.preview(text = "Y", stay = True, blink_interval_millis = interval, blink_color = (9, 9, 9))
            s.check(label.override_text == "Y", "text-replaced")
        p.update()
        s.check(label.override_text is not None, "kept")
        changed = label.text_color != before
        s.check(label.text_color in ((1, 2, 3), (9, 9, 9)), "blink-colors")
        now = s.world.ms
        if last is not None:
            if bool(now > last + interval):
                s.check(changed, "blink-expected")
            else:
                s.check(not changed, "blink-too-early")
        if changed:
            last = now
    p.reset(immediately = s.flag("now"))
    s.check(s.eq(label.text_color, (1, 2, 3)), "color-restored")
    s.advance(s.int("end", 0, 10000))
    p.update()
    s.check(s.eq(label.text_color, (1, 2, 3)), "no-blinking-after-reset")


def mapping_text(s, mx, named, callback):
    """Parameter values are shown as percentage"""
    VP = s.obj("pyswitch.controller.preview:ValuePreview")
    label = Label()
    p = VP.get(label)
    mp = generic_mapping(s, "nrpn", name = "Volume" if named else "")
    v = s.int("v", 0, mx)
    got = []

    def cb(x):
        got.append(x)
        return "custom"

    p.preview_mapping(value = v, mapping = mp, max_value = mx, **({"text_callback": cb} if callback else {}))
    if callback:
        s.check(label.override_text == "custom" and len(got) == 1, "custom-text")
        k = got[0]
    else:
        ks = s.numbers(label.override_text)
        s.check(len(ks) == 1, "one-number")
        k = ks[0]
        s.check(s.eq(label.override_text, s.text("Volume: #%" if named else "#%", k)), "text")
    s.check(s.And(2 * (k * mx - v * 100) <= mx, 2 * (v * 100 - k * mx) <= mx), "percentage")
    s.check(label.updates == 1, "label-updated")


def jobs(tier):
    n = 5 if tier == "quick" else 6
    ret = [job(previews, n = n), job(blinking, n = n + 1)]
    for mx in (127, 16383, 124, 1000):
        ret.append(job(mapping_text, mx = mx, named = True, callback = False, path_seconds = 60))
    ret.append(job(mapping_text, mx = 16383, named = True, callback = True, path_seconds = 60))
    return ret

"""Each LED shows colour times brightness"""
from .common import *

BOUNDS = {
    "quick": "1..3 LEDs per switch (4 and 5 LEDs with histories of 3 writes) with overlapping and gapped LED numbers, histories of 4 writes (single colour, colour list, brightness, brightness list), colours 0..255 per channel symbolic, brightness any multiple of 1/64 in 0..1 and the defaults 0.02 / 0.3",
    "thorough": "histories of 6 writes"
}
OUTSIDE = "brightness values which are not multiples of 1/64 are checked with a tolerance of one LED step (single precision storage)"


def writes(s, pixels, n, exact):
    num = max(pixels) + 1
    appl = controller(s, [{"assignment": {"model": SwitchModel(), "pixels": pixels}, "actions": []}])
    sw = appl.inputs[0]
    leds = appl.led_driver.leds
    s.check(len(leds) == num, "number-of-leds")
    k = len(pixels)
    col = [(255, 255, 255)] * k         # initial: white, half brightness
    br = [0.5] * k
    shown = [[127, 127, 127] for i in range(k)]

    def value(v, b):
        if exact:
            return v * b[0] // 64
        return None

    def bright(name):
        if exact:
            return s.int(name, 0, 64)
        return s.choice(name, [0.02, 0.3])

    def show():
        for i in range(k):
            if exact:
                shown[i] = [(c * br64[i]) // 64 for c in col[i]]
            else:
                shown[i] = [(c, br64[i]) for c in col[i]]

    br64 = [32] * k if exact else [0.5] * k
    show()

    def newcol(name):
        return tuple(s.int("%s_%d" % (name, j), 0, 255) for j in range(3))

    for i in range(n):
        op = s.choice("op%d" % i, ["color", "colors", "brightness", "brightnesses"])
        if op == "color":
            c = newcol("c%d" % i)
            sw.color = c
            col = [c] * k
        elif op == "colors":
            c = [newcol("c%d%d" % (i, j)) for j in range(k)]
            sw.colors = list(c)
            col = c
        elif op == "brightness":
            b = bright("b%d" % i)
            sw.brightness = b / 64 if exact else b
            br64 = [b] * k
            show()
        else:
            b = [bright("b%d%d" % (i, j)) for j in range(k)]
            sw.brightnesses = [x / 64 if exact else x for x in b]
            br64 = b
            show()
        for j in range(k):
            got = leds[pixels[j]]
            s.observe("led", list(got))
            for h in range(3):
                if exact:
                    s.check(got[h] == shown[j][h], "led-value", lambda: "LED %d shows %s, not %s" % (j, got, shown[j]))
                else:
                    c, b = shown[j][h]
                    m = int(b * 100)          # percent
                    s.check(s.And(got[h] * 100 <= c * m, (got[h] + 2) * 100 > c * m), "led-value", lambda: "LED %d shows %s for %s" % (j, got, shown[j]))
                    s.check(s.And(got[h] >= 0, got[h] <= 255), "led-range")
        for j in range(num):
            if j not in pixels:
                s.check(leds[j] is None, "foreign-led-untouched")
        if exact:
            s.check(s.eq(sw.brightness * 64, br64[0]), "brightness-readback")
        s.check(s.eq(sw.color, col[0]), "color-readback")


def dim(s):
    """dim_color scales all channels"""
    dim_color = s.obj("pyswitch.colors:dim_color")
    c = tuple(s.int("c%d" % j, 0, 255) for j in range(3))
    d = tuple(s.int("d%d" % j, 0, 255) for j in range(3))
    f = s.int("f", 0, 64)
    r = dim_color(c, f / 64)
    s.check(s.eq(tuple(r), tuple(x * f // 64 for x in c)), "dim")
    r = dim_color((c, d), f / 64)
    s.check(s.eq([tuple(x) for x in r], [tuple(x * f // 64 for x in c), tuple(x * f // 64 for x in d)]), "dim-multi")


def jobs(tier):
    n = 4 if tier == "quick" else 6
    ret = [job(dim)]
    for p in ((0,), (2, 1)):
        # Short histories first: changes are often found here already
        ret.append(job(writes, pixels = p, n = 2, exact = True))
        ret.append(job(writes, pixels = p, n = 3, exact = True))
    for p in ((0,), (2,), (0, 1, 2), (5, 3), (1, 4, 2)):
        ret.append(job(writes, pixels = p, n = n, exact = True))
    for p in ((0, 1, 2, 3), (4, 1, 3, 0, 6)):
        ret.append(job(writes, pixels = p, n = 3, exact = True))
    for p in ((0,), (1, 0)):
        ret.append(job(writes, pixels = p, n = n, exact = False))
    return ret

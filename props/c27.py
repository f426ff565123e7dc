"""Strobe tuner: LEDs of the switches as a rotating strobe"""
from .common import *
from .c26 import nrpn

BOUNDS = {
    "quick": "2 or 4 switches in any order, 2 deviances (near the centre, 1 with 8 upper 7 bit values and all lower 7 bit values) received after 1, 17, 33 or 40 ms each, histories of 4 steps with tuner mode left and entered again, highlight width 1/4, speed and dim factor powers of two",
    "thorough": "3 deviances, 5 steps"
}
OUTSIDE = "exact brightness for speeds and widths which are not representable exactly"


def setup(s, n, order, dim, width = 0.25, speed = 2.048, fps = 120, reverse = False):
    K = s.load("pyswitch.clients.kemper")
    St = s.load("pyswitch.controller.strobe")
    cb = St.StrobeController(
        mapping_state = K.KemperMappings.TUNER_MODE_STATE(), mapping_deviance = K.KemperMappings.TUNER_DEVIANCE(),
        speed = speed, width = width, color = (255, 128, 64), dim_factor = dim, max_fps = fps, reverse = reverse
    )
    appl = controller(s, [
        {"assignment": {"model": SwitchModel(), "pixels": (2 * i, 2 * i + 1), "strobeOrder": order[i]}, "actions": []} for i in range(n)
    ], protocol = K.KemperBidirectionalProtocol(255))
    cb.init(appl)
    return appl, cb


def deviance(appl, msb, lsb):
    SX = appl.test_midi.SX
    appl.client.receive(SX([0, 0x20, 0x33], [0, 0, 1, 0, 0x7c, 0x0f, msb, lsb]))


def exact(s, n, order, reverse, k, deltas, mode_ops = False, dim = 0.125):
    """The strobe position after every deviance"""
    dimden = int(1 / dim)
    appl, cb = setup(s, n, order, dim, reverse = reverse)
    leds = appl.led_driver.leds
    interval = int(1000 / 120 * n)
    place = sorted(range(n), key = lambda i: order[i])    # switch indices in strobe order

    def dark():
        for i in range(n):
            appl.inputs[i].color = (9, 9, 9)
            appl.inputs[i].brightness = 0

    pos = 0          # position in 1/4096, mathematical integer
    last = 0
    on = False
    first = True
    dark()
    for i in range(k):
        op = "dev"
        if mode_ops:
            op = s.choice("op%d" % i, ["on", "off", "dev"]) if i else "on"
        elif not on:
            nrpn(appl, 0x7f, 0x7e, 1)
            on = True
            last = s.world.ms
        if op == "dev":
            ms = s.choice("ms%d" % i, deltas[1])
            s.advance(ms)
            # upper and lower 7 bits as separate inputs (keeps decoding linear)
            msb = s.choice("msb%d" % i, [64] if mode_ops else [63, 64] if deltas[0] < 128 else [0, 30, 62, 63, 64, 65, 100, 127])
            lsb = s.int("lsb%d" % i, 0, 127)
            d = msb * 128 + lsb
            s.assume(s.And(d >= 8191 - deltas[0], d <= 8191 + deltas[0] + 1))
            before = [tuple(l) for l in leds]
            deviance(appl, msb, lsb)
            passed = s.world.ms - last
            if not on or passed <= interval:
                s.check(s.eq([tuple(l) for l in leds], before), "frame-rate")
                continue
            delta = (8191 - d) if reverse else (d - 8191)
            lim = 100 * interval
            delta = s.ite(delta > lim, lim, s.ite(delta < -lim, -lim, delta))
            # kept in 0..4095 without division (as long as the steps are small)
            pos = pos - delta * passed
            for z in range(deltas[0] * max(deltas[1]) // 4096 + 1 if deltas[0] < 1000 else lim * max(deltas[1]) // 4096 + 1):
                pos = s.ite(pos < 0, pos + 4096, s.ite(pos >= 4096, pos - 4096, pos))
            last = s.world.ms
            for j in range(n):
                p = pos + j * 4096 // n
                p = s.ite(p >= 4096, p - 4096, p)
                # triangle of width 1/4 around 0 (0..1024), of which 1/16 steps are taken and squared
                t = s.ite(p <= 1024, 1024 - p, s.ite(p >= 3072, p - 3072, 0))
                for led in (2 * place[j], 2 * place[j] + 1):
                    exp = s.Or(*[s.And(t >= 64 * q, t <= 64 * q + 63, s.eq(tuple(leds[led]), tuple(c * q * q // (256 * dimden) for c in (255, 128, 64)))) for q in range(17)])
                    s.check(exp, "led", lambda: "switch %s: %s, %s" % (place[j], leds[led], t))
        elif op == "on":
            v = 1
            dark()
            nrpn(appl, 0x7f, 0x7e, 1)
            on = True
            last = s.world.ms
        else:
            nrpn(appl, 0x7f, 0x7e, s.choice("v%d" % i, [0, 2]))
            on = False
            # the actions show their LEDs again
            for x in range(n):
                appl.inputs[x].color = (7, 7, 7)
                appl.inputs[x].brightness = 1


def single(s):
    """One switch: no strobe"""
    appl, cb = setup(s, 1, [0], 0.5)
    appl.inputs[0].brightness = 0
    nrpn(appl, 0x7f, 0x7e, 1)
    s.advance(s.int("ms", 0, 1000))
    nrpn(appl, 0x7c, 0x0f, s.int("d", 0, 16383))
    s.check(s.eq([tuple(l) for l in appl.led_driver.leds], [(0, 0, 0)] * 2), "single-dark")


def jobs(tier):
    q = tier == "quick"
    k = 3 if q else 4
    ret = [job(single)]
    for rev in (False, True):
        ret.append(job(exact, n = 2, order = (1, 0), reverse = rev, k = 2 if q else 3, deltas = (50, [1, 40])))
        ret.append(job(exact, n = 4, order = (2, 0, 3, 1), reverse = rev, k = 2, deltas = (20, [40] if q else [1, 40])))
    ret.append(job(exact, n = 3, order = (2, 0, 1), reverse = False, k = 1, deltas = (50, [40])))
    for rev in (False, True):
        ret.append(job(exact, n = 4, order = (0, 1, 3, 2), reverse = rev, k = 1, deltas = (8191, [34] if q else [34, 60])))
    ret.append(job(exact, n = 2, order = (0, 1), reverse = False, k = 4 if q else 5, deltas = (20, [33]), mode_ops = True))
    return ret

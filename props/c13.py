"""Expression pedals"""
from .common import *

BOUNDS = {
    "quick": "all raw positions 0..65535; histories of 4 polls at any times; NRPN, CC and limited ranges (max 100, 1000); 128, 100, 64 and 16 steps; frame rates 1, 10, 24, 50 fps; thresholds none, 0, 1024, any; calibration with three samples out of 6 positions and a fourth one anywhere",
    "thorough": "histories of 6 polls, more ranges and step numbers"
}
OUTSIDE = "a position which widens an already calibrated range is taken from six positions (not all 65536)"


def expression(s, cfg, kind, enable = None):
    AA = s.obj("pyswitch.controller.actions.AnalogAction:AnalogAction")
    mp = generic_mapping(s, kind)
    hw = PotModel()
    cfg = dict(cfg)
    cfg["mapping"] = mp
    if enable:
        cfg["enable_callback"] = enable
    a = AA(**cfg)
    appl = controller(s, [{"assignment": {"model": hw}, "actions": [a]}])
    return hw, a, appl


def val(sent, kind):
    """Decode what has been sent"""
    out = []
    for m in sent:
        if kind == "nrpn":
            assert m[0] == "SX"
            out.append(m[2][6] * 128 + m[2][7])
        else:
            assert m[0] == "CC"
            out.append(m[2])
    return out


RANGES = {None: None, 100: 100, 1000: 1000, 16383: 16383}


def tolerance(s, raw, out, mx, sw):
    """The value sent lies within half a step (plus rounding down) of the linear value"""
    up = out * 131072 <= (2 * raw + sw) * (mx + 1)
    low = s.Or(out * 131072 >= (2 * raw - sw) * (mx + 1) - 131072, out == mx)
    return s.And(up, low, out >= 0, out <= mx)


def linear(s, kind, maximum, steps, threshold):
    """Static behaviour: the value sent for a position"""
    cfg = {"num_steps": steps}
    if maximum:
        cfg["max_value"] = maximum
    if threshold == "none":
        cfg["min_raw_value"] = None
        th = 0
    elif threshold == "default":
        th = 1024
    else:
        th = s.int("threshold", 0, 65535)
        cfg["min_raw_value"] = th
    mx = maximum or (16383 if kind == "nrpn" else 127)
    sw = 65536 // steps
    hw, a, appl = expression(s, cfg, kind)
    midi = appl.test_midi
    s.world.ms = 1000
    hw.value = r1 = s.int("raw1", 0, 65535)
    appl.inputs[0].process()
    o = val(midi.take(), kind)
    s.check(len(o) == 1, "initial-value-sent")
    o1 = o[0]
    s.check(s.Or(s.And(r1 < th, o1 == 0), s.And(r1 >= th, tolerance(s, r1, o1, mx, sw))), "value-range", lambda: "%s for position %s" % (o1, r1))
    s.check(s.Implies(r1 == 0, o1 == 0), "zero")
    if steps == 128:
        s.check(s.Implies(s.And(r1 == 65535, th <= 65535), o1 == mx), "full")
    s.advance(1000)
    hw.value = r2 = s.int("raw2", 0, 65535)
    appl.inputs[0].process()
    o = val(midi.take(), kind)
    s.check(len(o) <= 1, "one-message")
    o2 = o[0] if o else o1
    if o:
        s.check(o2 != o1, "only-changes-sent")
    s.check(s.Or(s.And(r2 < th, o2 == 0), s.And(r2 >= th, tolerance(s, r2, o2, mx, sw))), "second-value-range", lambda: "%s for position %s" % (o2, r2))
    s.check(s.And(s.Implies(r1 <= r2, o1 <= o2), s.Implies(r1 >= r2, o1 >= o2)), "monotone", lambda: "%s -> %s, %s -> %s" % (r1, o1, r2, o2))


def quantised(s, kind, maximum, steps):
    """Jitter inside of one step sends nothing"""
    cfg = {"num_steps": steps, "min_raw_value": None}
    if maximum:
        cfg["max_value"] = maximum
    sw = 65536 // steps
    hw, a, appl = expression(s, cfg, kind)
    midi = appl.test_midi
    s.world.ms = 1000
    k = s.int("k", 0, steps)
    if maximum:
        k = s.split(k)            # case by case: easier to solve
    d1 = s.int("d1", -(sw // 2), sw // 2)
    d2 = s.int("d2", -(sw // 2), sw // 2)
    s.assume(s.And(2 * d1 > -sw, 2 * d1 < sw, 2 * d2 > -sw, 2 * d2 < sw))
    r1, r2 = k * sw + d1, k * sw + d2
    s.assume(s.And(r1 >= 0, r1 <= 65535, r2 >= 0, r2 <= 65535))
    hw.value = r1
    appl.inputs[0].process()
    s.check(len(midi.take()) == 1, "initial-value-sent")
    s.advance(1000)
    hw.value = r2
    appl.inputs[0].process()
    s.check(len(midi.take()) == 0, "jitter-sends-nothing")


def timing(s, n, fps, kind, enable):
    """Frame rate, change detection, disabled actions; arbitrary transfer function"""
    period = 1000 // fps
    calls = []
    table = {}

    def transfer(raw):
        v = s.int("f%d" % len(calls), 0, 127 if kind == "cc" else 16383)
        calls.append((raw, v))
        return v

    en = EnableCallback() if enable else None
    hw, a, appl = expression(s, {"max_frame_rate": fps, "transfer_function": transfer}, kind, en)
    midi = appl.test_midi
    s.world.ms = s.int("t0", 0, 3000)
    last = 0
    last_value = None
    for i in range(n):
        if i:
            s.advance(s.int("dt%d" % i, 0, 3000))
        hw.value = raw = s.int("raw%d" % i, 0, 65535)
        if enable and i > 0:
            en.state = s.flag("en%d" % i)
        k = len(calls)
        appl.inputs[0].process()
        o = val(midi.take(), kind)
        now = s.world.ms
        if (en is None or en.state) and now > last + period:
            last = now
            s.check(len(calls) == k + 1, "position-evaluated")
            s.check(s.eq(calls[k][0], raw), "raw-value-passed")
            v = calls[k][1]
            if last_value is None or bool(v != last_value):
                s.check(s.eq(o, [v]), "change-sent", lambda: "%s instead of %s" % (o, v))
                last_value = v
            else:
                s.check(o == [], "unchanged-not-sent")
        else:
            s.check(o == [], "frame-rate")


POS = [0, 700, 20000, 36000, 50000, 65535]


def calibration(s, kind, window, threshold, extend = False):
    cfg = {"auto_calibrate": True}
    if window is not None:
        cfg["cal_min_window"] = window
    if not threshold:
        cfg["min_raw_value"] = None
    th = 1024 if threshold else 0
    win = int(65536 * (0.25 if window is None else window))
    mx = 16383 if kind == "nrpn" else 127
    hw, a, appl = expression(s, cfg, kind)
    midi = appl.test_midi
    s.world.ms = 1000
    lo = hi = None
    last = None
    for i in range(4):
        pos = POS
        if extend:
            # From an own list of ranges, extended a bit on one side
            pos = [0, 12000, 30000] if i == 0 else [20, 47000, 65000] if i == 1 else [max(0, lo - 1), max(0, lo - 50), max(0, lo - 300), hi + 1, hi + 33, hi + 64, hi + 65, hi + 400]
        raw = s.choice("p%d" % i, pos) if i < 3 else s.int("raw", 0, 65535)
        if i == 3:
            s.assume(s.And(raw >= lo, raw <= hi))
        hw.value = raw
        s.advance(1000)
        appl.inputs[0].process()
        o = val(midi.take(), kind)
        if i < 3:
            lo = raw if lo is None or raw < lo else lo
            hi = raw if hi is None or raw > hi else hi
        if hi - lo < win or hi == lo:
            s.check(o == [], "not-calibrated-yet", lambda: "%s sent for range %d..%d" % (o, lo, hi))
            continue
        s.check(len(o) <= 1, "one-message")
        if not o:
            s.check(last is not None, "first-value-sent")
        v = o[0] if o else last
        last = v
        # linear value of the covered range, in raw units (scaled by the covered range)
        w = hi - lo
        x = (raw - lo) * 65536
        # tolerance: half a step of 512 raw units and rounding down, plus one raw unit for the scaling
        s.check(s.Or(s.And(v == 0, x < (th + 1) * w),
                     s.And(v * 65536 * w <= (x + 257 * w) * (mx + 1),
                           s.Or(v == mx, v * 65536 * w >= (x - 257 * w) * (mx + 1) - 65536 * w))), "calibrated-value", lambda: "%s for %s in %d..%d" % (v, raw, lo, hi))
        s.check(s.Implies(x < (th - 1) * w, v == 0), "threshold", lambda: "%s for %s in %d..%d" % (v, raw, lo, hi))
        s.check(s.And(s.Implies(raw == lo, v == 0), s.Implies(raw == hi, v == mx)), "calibrated-ends", lambda: "%s for %s in %d..%d" % (v, raw, lo, hi))


def jobs(tier):
    q = tier == "quick"
    ret = []
    for kind, mx, st in (("nrpn", None, 128), ("cc", None, 128), ("nrpn", 1000, 128), ("cc", 100, 128), ("nrpn", None, 100), ("cc", None, 100), ("nrpn", None, 16), ("cc", 100, 64)) + \
            (() if q else (("nrpn", 4095, 200), ("cc", 63, 32), ("nrpn", 255, 50), ("cc", 99, 77))):
        ret.append(job(linear, kind = kind, maximum = mx, steps = st, threshold = "default", path_seconds = 200))
        if not q or mx != 100:
            ret.append(job(linear, kind = kind, maximum = mx, steps = st, threshold = "none", path_seconds = 200))
        ret.append(job(quantised, kind = kind, maximum = mx, steps = st))
    ret.append(job(linear, kind = "cc", maximum = None, steps = 128, threshold = "any"))
    n = 4 if q else 6
    for fps in (1, 10, 24, 50):
        ret.append(job(timing, n = n, fps = fps, kind = "cc" if fps in (1, 24) else "nrpn", enable = False))
    ret.append(job(timing, n = n, fps = 24, kind = "cc", enable = True))
    for w in (None, 0.5, 0, 1):
        for k in ("nrpn", "cc"):
            ret.append(job(calibration, kind = k, window = w, threshold = k == "cc"))
            if w in (None, 0.5):
                ret.append(job(calibration, kind = k, window = w, threshold = k == "cc", extend = True))
    return ret

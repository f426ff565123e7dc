"""Distribution of switch LEDs among actions"""
from .common import *

BOUNDS = {
    "quick": "0..5 LEDs, 1..4 actions (normal and hold, nested lists) with every combination of LED use and enabled state, all colours (0..255 per channel), brightness 0, 0.5 and 1; 2 changes of enabled states",
    "thorough": "0..6 LEDs, 1..5 actions"
}


def expected_segments(num_pixels, users, me):
    """Indices of the LEDs action <me> gets, users: enabled LED using actions in order"""
    if me not in users or num_pixels == 0:
        return []
    k = len(users)
    i = users.index(me)
    if k == 1:
        return list(range(num_pixels))
    if k < num_pixels:
        first = num_pixels - k + 1
        return list(range(first)) if i == 0 else [first + i - 1]
    return [i] if i < num_pixels else []


def distribute(s, pixels, n_normal, n_hold, rounds):
    Action = s.obj("pyswitch.controller.actions:Action")
    n = n_normal + n_hold
    cbs = [EnableCallback(s.flag("en%d" % i)) for i in range(n)]
    uses = [s.flag("use%d" % i) for i in range(n)]
    acts = [Action({"useSwitchLeds": uses[i], "enableCallback": cbs[i]}) for i in range(n)]
    other_offset = 1                    # LED 0 belongs to another switch
    leds_idx = list(range(other_offset, other_offset + pixels))
    normal = acts[:n_normal]
    if len(normal) > 1:
        normal = [normal[0], normal[1:]]
    appl = controller(s, [
        {"assignment": {"model": SwitchModel(), "pixels": [0]}, "actions": [Action({"useSwitchLeds": True})]},
        {"assignment": {"model": SwitchModel(), "pixels": leds_idx}, "actions": normal, "actionsHold": acts[n_normal:]}
    ])
    leds = appl.led_driver.leds
    s.check(len(leds) == pixels + 1, "number-of-leds")
    other = leds[0]

    for r in range(rounds):
        if r > 0:
            cbs[(r - 1) % n].state = not cbs[(r - 1) % n].state
        users = [i for i in range(n) if uses[i] and cbs[i].state]
        before = list(leds)
        if r == 0:
            cols = [tuple(s.int("c%d_%d" % (i, k), 0, 255) for k in range(3)) for i in range(n)]
        else:
            cols = [(c[1], c[2], c[0]) for c in cols]
        br = [(1, 0.5, 0)[(i + r) % 3] for i in range(n)]

        for i in range(n):
            acts[i].switch_color = cols[i]
            acts[i].switch_brightness = br[i]

        got_any = set()
        for i in range(n):
            seg = expected_segments(pixels, users, i)
            for p in seg:
                s.check(p not in got_any, "led-assigned-once")
                got_any.add(p)
                want = tuple(c if br[i] == 1 else c // 2 if br[i] == 0.5 else 0 for c in cols[i])
                s.check(s.eq(tuple(leds[leds_idx[p]]), want), "led-of-action", lambda: "LED %d of action %d is %s, not %s" % (p, i, leds[leds_idx[p]], want))
            b = acts[i].switch_brightness
            if seg:
                s.check(b == br[i], "brightness-readback")
            else:
                s.check(b is None, "no-leds-no-brightness")
        if users and pixels:
            s.check(len(got_any) == pixels or len(users) >= pixels and len(got_any) == pixels, "all-leds-used")
        else:
            s.check(s.eq(list(leds), before), "leds-unchanged")
        s.check(s.eq(leds[0], other), "other-switch-unchanged")


def multi(s, pixels, ncol):
    """Colour lists: one colour per LED if they fit, the middle one otherwise"""
    Action = s.obj("pyswitch.controller.actions:Action")
    two = s.flag("two")
    acts = [Action({"useSwitchLeds": True})] + ([Action({"useSwitchLeds": True})] if two else [])
    appl = controller(s, [{"assignment": {"model": SwitchModel(), "pixels": list(range(pixels))}, "actions": acts}])
    leds = appl.led_driver.leds
    cols = [tuple(s.int("c%d_%d" % (i, k), 0, 255) for k in range(3)) for i in range(ncol)]
    acts[0].switch_color = cols if s.flag("list") else tuple(cols)
    acts[0].switch_brightness = 1
    n_users = 2 if two else 1
    seg = expected_segments(pixels, list(range(n_users)), 0)
    for j, p in enumerate(seg):
        want = cols[j] if len(seg) == ncol else cols[ncol // 2]
        s.check(s.eq(tuple(leds[p]), want), "multi-color", lambda: "LED %d is %s, not %s" % (p, leds[p], want))


def jobs(tier):
    q = tier == "quick"
    ret = []
    for p in range(0, 6 if q else 7):
        for nn, nh in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 1)) if q else ((1, 0), (0, 1), (1, 1), (2, 1), (2, 2), (3, 1), (4, 0), (3, 2), (4, 1), (2, 3)):
            ret.append(job(distribute, pixels = p, n_normal = nn, n_hold = nh, rounds = 3))
    for p in range(1, 6):
        for c in range(1, 6):
            ret.append(job(multi, pixels = p, ncol = c))
    return ret

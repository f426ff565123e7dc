"""Processing loop: start up, updates, MIDI reception between switch evaluations"""
from .common import *

BOUNDS = {
    "quick": "2 ticks with 0..5 queued messages of any values, at most 0..2 messages at once, update intervals 0..2000 ms, any times; endless message streams; start up with 0, 1, 3 or 300 messages left in the buffers, 8 sizes of free memory (among them those next to the default limit) against any limit",
    "thorough": "3 ticks with 0..7 queued messages"
}


class Hw:
    """Switch recording when it has been polled"""
    def __init__(self, log, name, press_at = None):
        self.log, self.name = log, name
        self.state = False

    def init(self):
        pass

    @property
    def pushed(self):
        self.log.append(("poll", self.name))
        return self.state


def build(s, log, config, num_up = 2, ui = None):
    Up = s.obj("pyswitch.misc:Updateable")

    class U(Up):
        def __init__(self, n):
            self.n = n

        def update(self):
            log.append(("update", self.n))

    hws = [Hw(log, "a"), Hw(log, "b")]
    appl = controller(s, [{"assignment": {"model": h}, "actions": []} for h in hws], config, ui = ui)
    for i in range(num_up):
        appl.add_updateable(U(i))
    m = generic_mapping(s, "cc")
    lst = Listener()
    lst.parameter_changed = lambda mapping: log.append(("value", mapping.value))
    appl.client.register(m, lst)
    return appl, hws, m


def ticks(s, n, maxq, limit, interval, ups = 2):
    """Every message is processed once, in order, with all switches evaluated in between; updates in their interval"""
    log = []
    config = {"maxConsecutiveMidiMessages": limit}
    if interval is not None:
        config["updateInterval"] = interval
    else:
        interval = 200
    appl, hws, m = build(s, log, config, num_up = ups)
    midi = appl.test_midi
    midi.on_receive = lambda: log.append(("rx", len(midi.queue)))
    appl.init()
    log.clear()
    last = 0
    sent = []
    got = []
    for i in range(n):
        s.advance(s.int("ms%d" % i, 0, 3000))
        for k in range(s.choice("q%d" % i, list(range(maxq + 1)))):
            v = s.int("v%d_%d" % (i, k), 0, 127)
            sent.append(v)
            midi.queue.append(midi.CC(20, v))
        log.clear()
        s.check(appl.tick() is True, "keeps-running")
        due = s.world.ms > last + interval
        if bool(due):
            last = s.world.ms
        done = [e[1] for e in log if e[0] == "update"]
        s.check(sorted(done) == (list(range(ups)) if due else []), "updates", lambda: "%s" % done)
        got += [e[1] for e in log if e[0] == "value"]
        s.check(len(got) <= len(sent), "no-duplicates")
        s.check(s.eq(got, sent[:len(got)]), "order")
        s.check(len(got) + len(midi.queue) == len(sent), "nothing-lost")
        # all switches have been evaluated before each message, and between updates and messages
        polled = set()
        for e in log:
            if e[0] == "poll":
                polled.add(e[1])
            elif e[0] == "rx":
                s.check(polled == {"a", "b"}, "switches-between-messages")
                polled = set()
        rx = 0
        for e in log:
            if e[0] == "rx":
                rx += 1
                s.check(rx <= limit + 1, "limit")
            elif e[0] == "update":
                s.check(rx > 0, "reception-between-updates")
                rx = 0
        s.check(rx > 0, "reception-after-updates")
        # the queue is emptied as far as the limit allows
        s.check(len(midi.queue) == 0 or len([e for e in log if e[0] == "rx"]) >= limit + 1, "emptied")


def endless(s, limit):
    """A device sending without pause does not block switches and updates"""
    log = []
    appl, hws, m = build(s, log, {"maxConsecutiveMidiMessages": limit, "clearBuffers": False} if limit is not None else {"clearBuffers": False})
    midi = appl.test_midi
    appl.init()
    lim = 10 if limit is None else limit
    n = [0]

    def more():
        n[0] += 1
        s.check(n[0] <= 3 * (lim + 1), "terminates")
        midi.queue.append(midi.CC(20, n[0] % 128))

    midi.on_receive = more
    s.advance(s.int("ms", 0, 500))
    log.clear()
    s.check(appl.tick() is True, "returns")
    s.check(len([e for e in log if e[0] == "value"]) in (lim + 1, 3 * (lim + 1)), "limit")


def startup(s, clear):
    """Messages left in the buffers are dropped, low memory is detected, the display is shown"""
    UI = s.load("pyswitch.ui.UiController")
    El = s.load("pyswitch.ui.elements")
    B = s.obj("pyswitch.ui.ui:DisplayBounds")
    label = El.DisplayLabel(layout = {"font": "/f", "text": "T"}, bounds = B(0, 0, 10, 10))

    class Root:
        def init(self, appl, listener):
            pass

        def get_root(self):
            return label

    d = Display()
    log = []
    config = {} if clear is None else {"clearBuffers": clear}
    limit = 15360
    if s.flag("own_limit"):
        limit = s.int("limit", 0, 1000000)
        config["memoryWarnLimitBytes"] = limit
    appl, hws, m = build(s, log, config, ui = UI.UiController(d, d, Root()))
    midi = appl.test_midi
    k = s.choice("q", [0, 1, 3, 300])
    for i in range(k):
        midi.queue.append(midi.CC(20, s.int("v%d" % i, 0, 127) if i < 3 else i % 128))
    s.check(appl.low_memory_warning is False, "no-warning-before")
    # Concrete, as the firmware puts out the number
    s.world.mem_free = s.choice("free", [0, 1, 999, 5000, 15359, 15360, 15361, 250000])
    appl.init()
    s.check(d.shown is label.splash, "shown")
    low = s.world.mem_free < limit
    s.check(s.eq(bool(appl.low_memory_warning), bool(low)), "low-memory")
    label.text = "X"
    s.check(label.text == ("Low Memory!" if low else "X"), "low-memory-text")
    if clear is False:
        s.check(len(midi.queue) == k, "buffers-kept")
    else:
        s.check(len(midi.queue) == 0, "buffers-cleared")
    s.check([e for e in log if e[0] == "value"] == [], "dropped")
    appl.tick()
    s.check(len([e for e in log if e[0] == "value"]) == (min(k, 11) if clear is False else 0), "processed-later")


def stats(s, n):
    """Statistics do not change the processing, and are put out in their interval"""
    log = []
    iv = s.int("interval", 1, 5000)
    appl, hws, m = build(s, log, {"debugStats": True, "debugStatsInterval": iv})
    out = []
    s.load("pyswitch.misc").print = lambda msg: out.append(msg)
    midi = appl.test_midi
    appl.init()
    last = 0
    lastup = 0
    sent = 0
    for i in range(n):
        s.advance(s.int("ms%d" % i, 0, 3000))
        midi.queue.append(midi.CC(20, i))
        sent += 1
        out.clear()
        appl.tick()
        exp = False
        if bool(s.world.ms > lastup + 200):
            lastup = s.world.ms
            if bool(s.world.ms > last + iv):
                last = s.world.ms
                exp = True
        s.check(len(out) == (1 if exp else 0), "output", lambda: "%s" % out)
        s.check([e[1] for e in log if e[0] == "value"] == list(range(sent)), "values")


def jobs(tier):
    q = tier == "quick"
    ret = []
    for lim in (0, 1, 2):
        for iv in (None, 0, 1000):
            ret.append(job(ticks, n = 2 if q else 3, maxq = 5 if q else 7, limit = lim, interval = iv))
    for up in (1, 3, 4, 5):
        ret.append(job(ticks, n = 2, maxq = 3, limit = 1, interval = None, ups = up))
    for lim in (None, 0, 4):
        ret.append(job(endless, limit = lim))
    for c in (None, True, False):
        ret.append(job(startup, clear = c))
    ret.append(job(stats, n = 3))
    return ret

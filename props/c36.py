"""The web emulator: MIDI byte streams, page elements, and the default configuration in a closed loop"""
from .common import *
from . import c37, c38
from .emulator import *

BOUNDS = {
    "quick": "3 messages (control change, program change, clock, SysEx of 2 and 8 bytes; all contents, any channel) with polls between, 4 messages with SysEx lengths around the 100 byte input buffer, listening to all channels, one or three; all messages sent on any channel; two messages of any other kinds of the MIDI standard, sent and received; notes by name; MIDI monitor and missing port; any up to 4 garbage bytes followed by 3 messages; the default configuration in the emulator connected to a modelled Profiler: any single operation, and changes at the device followed by a switch; all values of switches, pedal and wheel; two LED changes; explore mode with three presses; text wrapping of up to 4 words",
    "thorough": "as quick with 5 garbage bytes, 4 messages of all kinds, and two operations in the closed loop"
}
OUTSIDE = "SysEx messages delivered in parts or with more than the input buffer between two messages, running status, the JavaScript part of the web application, colours on the page (gamma correction)"


def device(s, in_channel = None, out_channel = 0, size = 100):
    js = codec(s)
    W = s.load("wrappers.wrap_adafruit_midi")
    for n in ("control_change:ControlChange", "program_change:ProgramChange", "system_exclusive:SystemExclusive", "midi_message:MIDIUnknownEvent", "midi_message:MIDIBadEvent"):
        s.obj("adafruit_midi." + n)
    dev = s.obj("pyswitch.hardware.adafruit.AdafruitUsbMidiDevice:AdafruitUsbMidiDevice")(
        port_in = W.WrapMidiInput(), port_out = W.WrapMidiOutput(), in_buf_size = size, in_channel = in_channel, out_channel = out_channel)
    return js, dev


# Messages of the MIDI standard: kind -> (class, argument names, status, data bytes), a and b are any values of 7 bits
KINDS = {
    "note_on": ("note_on:NoteOn", ("note", "velocity"), 0x90, lambda a, b: [a, b]),
    "note_off": ("note_off:NoteOff", ("note", "velocity"), 0x80, lambda a, b: [a, b]),
    "poly_pressure": ("polyphonic_key_pressure:PolyphonicKeyPressure", ("note", "pressure"), 0xa0, lambda a, b: [a, b]),
    "pitch_bend": ("pitch_bend:PitchBend", ("pitch_bend",), 0xe0, lambda a, b: [a, b]),
    "pressure": ("channel_pressure:ChannelPressure", ("pressure",), 0xd0, lambda a, b: [a]),
    "quarter_frame": ("mtc_quarter_frame:MtcQuarterFrame", ("type", "value"), 0xf1, lambda a, b: [a]),
    "timing": ("timing_clock:TimingClock", (), 0xf8, lambda a, b: []),
    "start": ("start:Start", (), 0xfa, lambda a, b: []),
    "continue": ("midi_continue:Continue", (), 0xfb, lambda a, b: []),
    "stop": ("stop:Stop", (), 0xfc, lambda a, b: []),
    "sensing": ("active_sensing:ActiveSensing", (), 0xfe, lambda a, b: []),
}


def fields(kind, a, b):
    """What the fields of the message are"""
    if kind == "pitch_bend":
        return [a + 128 * b]
    if kind == "pressure":
        return [a]
    if kind == "quarter_frame":
        return [a // 16, a % 16]
    return [a, b][:len(KINDS[kind][1])]


def describe(s, m):
    for k, (cls, names, status, data) in KINDS.items():
        mod = s.U.modules.get("adafruit_midi." + cls.split(":")[0])
        if mod and isinstance(m, getattr(mod, cls.split(":")[1])):
            return (k, m.channel if status < 0xf0 else None) + tuple(getattr(m, n) for n in names)
    CC = s.obj("adafruit_midi.control_change:ControlChange")
    PC = s.obj("adafruit_midi.program_change:ProgramChange")
    SX = s.obj("adafruit_midi.system_exclusive:SystemExclusive")
    if isinstance(m, CC):
        return ("CC", m.channel, m.control, m.value)
    if isinstance(m, PC):
        return ("PC", m.channel, m.patch)
    if isinstance(m, SX):
        return ("SX", list(m.manufacturer_id), list(m.data))
    return (type(m).__name__, getattr(m, "status", None))


def listening(s, ch, spec):
    if spec is None:
        return True
    return bool(ch == spec) if isinstance(spec, int) else bool(s.Or(*[ch == c for c in spec]))


def received(s, kinds, lengths, in_channel, later):
    """Queued messages are received once each, in order, with their content"""
    js, dev = device(s, in_channel)
    queue = js.externalRefs.midiWrapper.messageQueue
    expect = []
    got = []

    def poll():
        m = dev.receive()
        if m is not None:
            got.append(describe(s, m))

    for i, ks in enumerate(kinds):
        k = s.choice("kind%d" % i, ks)
        ch = s.int("ch%d" % i, 0, 15)
        a, b = s.int("a%d" % i, 0, 127), s.int("b%d" % i, 0, 127)
        if k == "sysex":
            n = s.choice("len%d" % i, lengths)
            man = [0, 0x20, 0x33] if s.choice("man%d" % i, [0, 1]) else [0x42]
            data = [a] + [1] * (n - 2) + [b]
            queue.append([0xf0] + man + data + [0xf7])
            expect.append(("SX", man, data))
        elif k == "clock":
            queue.append([0xf8])
            expect.append(("MIDIUnknownEvent", 0xf8))
        elif k == "cc":
            queue.append([0xb0 + ch, a, b])
            if listening(s, ch, in_channel):
                expect.append(("CC", ch, a, b))
        else:
            queue.append([0xc0 + ch, a])
            if listening(s, ch, in_channel):
                expect.append(("PC", ch, a))
        for j in range(s.choice("polls%d" % i, [0, 1]) if later else 0):
            poll()
    for i in range(2 * len(kinds) + 2):
        poll()
    s.check(s.eq(got, expect), "received", lambda: "%s instead of %s" % (got, expect))
    s.check(len(queue) == 0, "queue-empty")


def all_kinds(s, kinds, in_channel = None):
    """All kinds of messages of the standard which are known to the application"""
    js, dev = device(s, in_channel)
    for k in KINDS:
        s.obj("adafruit_midi." + KINDS[k][0])
    queue = js.externalRefs.midiWrapper.messageQueue
    expect, got = [], []
    for i, ks in enumerate(kinds):
        k = s.choice("kind%d" % i, ks)
        ch = s.int("ch%d" % i, 0, 15)
        a, b = s.int("a%d" % i, 0, 127), s.int("b%d" % i, 0, 127)
        status = KINDS[k][2]
        queue.append([status + ch if status < 0xf0 else status] + KINDS[k][3](a, b))
        if status >= 0xf0:
            expect.append((k, None) + tuple(fields(k, a, b)))
        elif listening(s, ch, in_channel):
            expect.append((k, ch) + tuple(fields(k, a, b)))
    for i in range(len(kinds) + 1):
        m = dev.receive()
        if m is not None:
            got.append(describe(s, m))
    s.check(s.eq(got, expect), "received-kind", lambda: "%s instead of %s" % (got, expect))


def sent_kind(s, kind):
    out = s.int("channel", 0, 15)
    js, dev = device(s, out_channel = out)
    a, b = s.int("a", 0, 127), s.int("b", 0, 127)
    status = KINDS[kind][2]
    m = s.obj("adafruit_midi." + KINDS[kind][0])(*fields(kind, a, b))
    dev.send(m)
    exp = [[status + out if status < 0xf0 else status] + KINDS[kind][3](a, b)]
    got = js.externalRefs.midiWrapper.sent
    s.check(s.eq(got, exp), "sent-kind", lambda: "%s instead of %s" % (got, exp))


def note_names(s):
    """Notes given by name"""
    js, dev = device(s)
    n = s.choice("name", ["C", "D", "E", "F", "G", "A", "B", "c", "g"])
    sign = s.choice("sign", ["", "#", "b"])
    octave = s.choice("octave", range(0, 10))
    note = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}[n.upper()] + 12 * (octave + 1) + {"": 0, "#": 1, "b": -1}[sign]
    s.assume(0 <= note <= 127)
    for cls, args, status in (("note_on:NoteOn", (5,), 0x90), ("note_off:NoteOff", (6,), 0x80), ("polyphonic_key_pressure:PolyphonicKeyPressure", (7,), 0xa0)):
        dev.send(s.obj("adafruit_midi." + cls)("%s%s%d" % (n, sign, octave), *args))
        got = js.externalRefs.midiWrapper.sent.pop()
        s.check(got == [status, note, args[0]], "note-name", lambda: "%s%s%d: %s" % (n, sign, octave, got))


def keyboard(s):
    """Key codes reach the page"""
    js = codec(s)
    K = s.obj("wrappers.wrap_hid:WrapUsbHidKeyboard").Keyboard([])
    seen = []

    class Handler:
        @staticmethod
        def message(text, kind):
            seen.append(text)
    js.externalRefs.messageHandler = Handler
    codes = [s.choice("code%d" % i, [0, 1, 79, 80, 255]) for i in range(2)]
    for c in codes:
        K.send(c)
    s.check(len(seen) == 2 and all(" %d " % c in " %s " % t for c, t in zip(codes, seen)), "keycode-reported", lambda: "%s %s" % (codes, seen))


def explore_mode(s, pins, steps):
    """Explore mode in the emulator"""
    em = Emulator(s, "default", options = {"exploreMode": True})
    Colors = s.obj("pyswitch.colors:Colors")
    m = c38.Model(sorted("GP%d" % i for i in range(29)))

    def look():
        canvas(s, em)
        els = em.elements()
        texts = [e.text for x, y, e in els if hasattr(e, "text")]
        s.check([t for t in texts if t.startswith("GP")] == m.names, "port-labels")
        back = None
        for x, y, e in els:
            if not hasattr(e, "text"):
                back = e.fill
            elif e.text.startswith("GP"):
                s.check(tuple(back) == getattr(Colors, m.mark[e.text]), "port-marker", lambda: "%s: %s" % (e.text, back))
        c = 3 * m.current
        s.check([t for t in texts if not t.startswith("GP")] == ([""] if m.current < 0 else ["Pixels: (%d, %d, %d) of 87" % (c, c + 1, c + 2)]), "pixels-reported", lambda: "%s" % texts)
        if m.current >= 0:
            for i in range(30):
                e = em.js.document.elements["%s-led-%d" % (NS, i)]
                s.check((tuple(e.dataset.color) == Colors.WHITE) == (c <= i < c + 3), "current-led-white", lambda: "%d: %s" % (i, e.dataset.color))

    def scenario(em):
        yield
        look()
        for i in range(steps):
            p = s.choice("pin%d" % i, pins)
            em.hw.LEVEL[p] = False
            m.press(p)
            yield
            yield
            look()
            em.hw.LEVEL[p] = True
            s.advance(300)
            yield
            look()
    em.run(scenario)


def monitor(s):
    """The monitor of the page gets all messages; without a MIDI port nothing is exchanged"""
    js, dev = device(s)
    seen = {"in": [], "out": []}

    class Monitor:
        @staticmethod
        def monitorInput(m):
            seen["in"].append(list(m))

        @staticmethod
        def monitorOutput(m):
            seen["out"].append(list(m))
    CC = s.obj("adafruit_midi.control_change:ControlChange")
    port = js.externalRefs.midiWrapper
    if s.flag("monitored"):
        js.externalRefs.midiMonitor = Monitor
    kind = s.choice("port", ["yes", "null", "none"])
    if kind == "null":
        js.externalRefs.midiWrapper = None
    elif kind == "none":
        del js.externalRefs.midiWrapper
    a, b = s.int("a", 0, 127), s.int("b", 0, 127)
    port.messageQueue += [[0xb0, a, b], [0xf0, 1, b, 0xf7]]
    got = [m for m in (dev.receive() for i in range(3)) if m is not None]
    dev.send(CC(b, a))
    if kind != "yes":
        s.check(got == [] and port.sent == [] and seen == {"in": [], "out": []}, "no-port")
        return
    s.check(len(got) == 2 and s.eq(port.sent, [[0xb0, b, a]]), "messages")
    if hasattr(js.externalRefs, "midiMonitor"):
        s.check(s.eq(seen["in"], [[0xb0, a, b], [0xf0, 1, b, 0xf7]]) and s.eq(seen["out"], [[0xb0, b, a]]), "monitored", lambda: "%s" % seen)


def wrapped(s):
    """Texts are broken into lines which fit (a character has 10 pixels)"""
    js = codec(s)
    js.document.elements[NS + "-display"] = js.Element()
    D = s.load("wrappers.wrap_adafruit_display")
    words = [s.choice("w%d" % i, ["a", "bcd", "efghij"]) for i in range(s.choice("n", range(5)))]
    width = s.choice("width", [25, 70, 75, 300])
    lines = D.WrapAdafruitDisplayText(NS).wrap_text_to_pixels(" ".join(words), width, D.WrapFont("/fonts/H20.pcf"))
    s.check(" ".join(lines).split() == words, "words-kept", lambda: "%s %s" % (words, lines))
    for l in lines:
        s.check(len(l.split()) <= 1 or 10 * len(l) <= width, "lines-fit", lambda: "%s %s" % (width, lines))
    for l, m in zip(lines, lines[1:]):
        if l.split():
            s.check(10 * (len(l.strip()) + 2 + len(m.split()[0])) > width, "lines-filled", lambda: "%s %s" % (width, lines))


def without_protocol(s):
    em = Emulator(s, "default", protocol = False)

    def scenario(em):
        yield
        yield
        s.check(s.load("js").externalRefs.protocolState < 0, "no-protocol-state")
    em.run(scenario)


def clock(s):
    """The time of the page is used if it provides one"""
    js = codec(s)
    T = s.obj("wrappers.wrap_time:WrapTime")()
    s.check(T.monotonic() == s.load("time").monotonic(), "clock")
    v = s.int("v", 0, 100000)
    js.externalRefs.overrideMonotonic = lambda: v
    s.check(T.monotonic() == v, "clock-override")


def sent(s, kind, dlen = 4):
    """Messages are written with the bytes of the MIDI standard"""
    out = s.int("channel", 0, 15)
    js, dev = device(s, out_channel = out)
    a, b = s.int("a", 0, 127), s.int("b", 0, 127)
    if kind == "cc":
        m, exp = s.obj("adafruit_midi.control_change:ControlChange")(a, b), [0xb0 + out, a, b]
    elif kind == "pc":
        m, exp = s.obj("adafruit_midi.program_change:ProgramChange")(a), [0xc0 + out, a]
    elif kind == "sysex":
        data = [s.int("x%d" % i, 0, 127) for i in range(dlen)]
        m, exp = s.obj("adafruit_midi.system_exclusive:SystemExclusive")([0, a, b], data), [0xf0, 0, a, b] + data + [0xf7]
    elif kind == "nrpn":
        m = s.obj("pyswitch.clients.kemper:KemperNRPNMessage")(1, a, b)
        exp = [0xf0, 0, 0x20, 0x33, 2, 0x7f, 1, 0, a, b, 0xf7]
    elif kind == "unknown":
        m, exp = s.obj("adafruit_midi.midi_message:MIDIUnknownEvent")(a + 128), None
    dev.send(m)
    got = js.externalRefs.midiWrapper.sent
    s.check(s.eq(got, [] if exp is None else [exp]), "sent", lambda: "%s instead of %s" % (got, exp))


def garbage(s, n):
    """Any bytes: no error, and messages are received again afterwards"""
    js, dev = device(s)
    queue = js.externalRefs.midiWrapper.messageQueue
    queue.append([s.int("x%d" % i, 0, 255) for i in range(n)])
    for i in range(n + 2):
        dev.receive()
    got = []
    for j in range(3):
        queue.append([0xb0, 10 + j, 20])
        for i in range(3):
            m = dev.receive()
            if m is not None:
                got.append(describe(s, m))
    s.check(len(got) > 0 and got[-1] == ("CC", 0, 12, 20), "recovers", lambda: "%s" % (got,))


# ------------------------------------------------------------------ the whole emulator

def canvas(s, em):
    """The canvas shows the elements of the screen: content, colours and positions"""
    drawn = em.drawn()

    def css(c):
        return "rgb(%d,%d,%d)" % tuple(c)
    exp = []
    for x, y, e in em.elements():
        if hasattr(e, "text"):
            lines = e.text.splitlines()
            size = e.font.size(e.scale)
            gap = e.line_spacing * size * 0.1
            top = y + e.anchored_position[1] - e.anchor_point[1] * (len(lines) * size + (len(lines) - 1) * gap)
            for i, l in enumerate(lines):
                exp.append(("text", l, css(e.color), x + e.anchored_position[0] - e.anchor_point[0] * 10 * len(l), top + (i + 1) * size + i * gap))
        else:
            exp.append(("rect", css(e.fill), e.x + x, e.y + y, e.width, e.height))
    got = [("text", e[1], e[4].replace(" ", ""), e[2], e[3]) if e[0] == "text" else ("rect", e[5].replace(" ", "")) + e[1:5] for e in drawn]
    s.check([e[:3 if e[0] == "text" else 6] for e in got] == [e[:3 if e[0] == "text" else 6] for e in exp], "canvas-content", lambda: "%s instead of %s" % (got, exp))
    for g, e in zip(got, exp):
        # The base line may be moved a bit with the font
        if g[0] == "text":
            s.check(abs(g[3] - e[3]) < 0.01 and -8 <= g[4] - e[4] <= 1, "canvas-text-position", lambda: "%s instead of %s" % (g, e))


def loop(s, kinds, rig, newrigs):
    """The default configuration operated in the emulator with the Profiler connected"""
    em = Emulator(s, "default")
    lp = c37.Loop(s, em, 0, rig, 8000)

    def scenario(lp):
        c37.check(s, lp)
        canvas(s, em)
        for i, k in enumerate(kinds):
            yield from c37.step(s, lp, i, k, newrigs)
            canvas(s, em)
            s.check(s.load("js").externalRefs.protocolState == 20, "protocol-state")
    lp.run(scenario)


def page(s, part):
    """State of the page elements is what the firmware reads; colours set are shown at their LED only"""
    js = codec(s)
    W = s.load("wrappers.wrap_io")
    LED = s.load("wrappers.wrap_adafruit_led")
    for k in ("switch", "potentiometer", "encoder"):
        for p in (1, 2, 25):
            js.document.elements["dev-%s-gp%d" % (k, p)] = js.Element()
    if part == "leds":
        return leds(s, js, LED)
    sw = W.WrapDigitalIO("dev") and {q: W.WrapDigitalIO.DigitalInOut(q) for q in (1, 2, 25, 7)}
    s.check([sw[q].value for q in (1, 2, 25, 7)] == [1, 1, 1, 1], "released-initially")
    level = {}
    for i in range(3 if part == "switches" else 0):
        q = s.choice("q%d" % i, [1, 2, 25])
        level[q] = s.choice("pushed%d" % i, [False, True])
        js.document.elements["dev-switch-gp%d" % q].dataset.pushed = "true" if level[q] else "false"
        s.check([bool(sw[r].value) for r in (1, 2, 25, 7)] == [not level.get(r, False) for r in (1, 2, 25, 7)], "switch-levels")
    if part == "switches":
        return
    p = s.choice("pin", [1, 2, 25])
    W.WrapAnalogIO("dev")
    W.WrapRotaryIO("dev")
    pots = {q: W.WrapAnalogIO.AnalogIn(q) for q in (1, 2, 25, 7)}
    encs = {q: W.WrapRotaryIO.IncrementalEncoder(q, 9, divisor = 2) for q in (1, 2, 25, 7)}
    v, w = s.int("v", 0, 65535), s.int("w", -1000, 1000)
    js.document.elements["dev-potentiometer-gp%d" % p].dataset.value = s.text("#", v)
    js.document.elements["dev-encoder-gp%d" % p].dataset.position = s.text("#", w)
    for q in (1, 2, 25, 7):
        s.check(s.eq(pots[q].value, v if q == p else 0), "potentiometer", lambda: "%s: %s" % (q, pots[q].value))
        s.check(s.eq(encs[q].position, w if q == p else 0), "encoder", lambda: "%s: %s" % (q, encs[q].position))


def leds(s, js, LED):
    n = 4
    for i in range(n):
        js.document.elements["dev-led-%d" % i] = js.Element()
    d = LED.WrapNeoPixelDriver("dev")
    d.init(n)
    s.check(len(d.leds) == n, "number-of-leds")
    shown = [None] * n
    for i in range(2):
        if s.choice("fill%d" % i, [False, True]):
            c = s.choice("colour%d" % i, [(0, 0, 0), (1, 2, 3), (255, 0, 128), (0, 0, 1)])
            d.leds.fill(c)
            shown = [c] * n
        else:
            k = s.choice("led%d" % i, range(n))
            shown[k] = s.choice("colour%d" % i, [(0, 0, 0), (1, 2, 3), (255, 255, 255)])
            d.leds[k] = shown[k]
    for k in range(n):
        e = js.document.elements["dev-led-%d" % k]
        if shown[k] is None:
            s.check(not hasattr(e.dataset, "color"), "led-not-set")
            continue
        s.check(tuple(e.dataset.color) == shown[k] and d.leds[k] == shown[k], "led-colour")
        s.check((e.style.backgroundColor == "rgba(0, 0, 0, 0)") == (shown[k] == (0, 0, 0)), "led-visible", lambda: "%s: %s" % (shown[k], e.style.backgroundColor))
        if shown[k] != (0, 0, 0):
            rgb = [float(x) for x in e.style.backgroundColor[4:-1].split(",")]
            s.check(e.style.backgroundColor[:4] == "rgb(" and all(0 <= x <= 255 for x in rgb) and all((a > 0) == (b > 0) for a, b in zip(shown[k], rgb)), "led-style", lambda: e.style.backgroundColor)


class Controller:
    """Fails at a given tick"""
    def __init__(self, fail):
        self.ticks = 0
        self.fail = fail

    def tick(self):
        self.ticks += 1
        if self.ticks == self.fail:
            raise ValueError("failed")


def errors(s):
    """A failing firmware is reported once and stops; stop() stops the firmware"""
    em = Emulator(s, "default")
    reported = []
    js = em.js

    class Handler:
        @staticmethod
        def handle(text):
            reported.append(text)
    js.externalRefs.errorHandler = Handler

    def scenario(em):
        yield
        yield
    em.run(scenario)
    r = em.runner
    timeouts = s.load("pyodide.ffi.wrappers").TIMEOUTS
    fail = s.int("fail", 1, 6)
    stop = s.int("stop", 1, 6)
    r.controller = Controller(fail)
    n = 0
    for i in range(8):
        s.check(r.running == (len(timeouts) == 1), "running")
        if not timeouts:
            break
        if bool(stop == i + 1):
            r.stop()
        n += 1
        try:
            timeouts.pop()[0]()
        except ValueError:
            s.check(bool(fail == r.controller.ticks), "raised-once")
    s.check(not r.running and not timeouts, "stopped")
    s.check(s.eq(r.controller.ticks, s.ite(fail < stop, fail, stop - 1)), "ticks", lambda: "%s" % r.controller.ticks)
    s.check(len(reported) == (1 if bool(fail < stop) else 0) and all("failed" in x for x in reported), "reported", lambda: "%s" % reported)


def jobs(tier):
    ret = []
    ALL = ("cc", "pc", "sysex", "clock")
    for kind in ("cc", "pc", "sysex", "nrpn", "unknown"):
        ret.append(job(sent, kind = kind))
    for kind in KINDS:
        ret.append(job(sent_kind, kind = kind))
    ret.append(job(all_kinds, kinds = (tuple(KINDS), tuple(KINDS))))
    ret.append(job(all_kinds, kinds = (tuple(KINDS), tuple(KINDS)), in_channel = (3, 9)))
    ret += [job(note_names), job(clock), job(keyboard), job(monitor), job(wrapped), job(without_protocol)]
    ret.append(job(explore_mode, pins = ("GP0", "GP9", "GP1", "GP28"), steps = 3))
    ret.append(job(explore_mode, pins = tuple(PINS), steps = 1))
    ret.append(job(received, kinds = (ALL, ALL, ALL), lengths = (2, 8), in_channel = None, later = True))
    ret.append(job(received, kinds = (("sysex",), ("sysex",), ("sysex", "cc"), ("cc",)), lengths = (2, 90, 96, 130), in_channel = None, later = True))
    ret.append(job(received, kinds = (("cc", "pc"), ("cc", "pc", "sysex"), ("cc", "pc")), lengths = (5,), in_channel = (3,), later = True))
    ret.append(job(received, kinds = (("cc", "pc"), ("cc", "pc")), lengths = (5,), in_channel = (0, 7, 15), later = True))
    ret.append(job(received, kinds = (("cc", "pc"), ("cc", "pc")), lengths = (5,), in_channel = 15, later = True))
    SW, WH, DV = ("switch",), ("wheel",), ("device",)
    NEW = (0, 127, 624)
    for k in (SW, WH, DV):
        ret.append(job(loop, kinds = (k,), rig = 7, newrigs = NEW))
    ret.append(job(loop, kinds = (DV, SW), rig = 7, newrigs = (3,)))
    ret += [job(page, part = x) for x in ("switches", "analog", "leds")]
    ret.append(job(errors))
    for n in (1, 2, 3, 4):
        ret.append(job(garbage, n = n))
    if tier == "thorough":
        ret.append(job(garbage, n = 5))
        ret.append(job(received, kinds = (ALL, ALL, ALL, ALL), lengths = (3,), in_channel = None, later = True))
        for a in (SW, WH, DV):
            for b in (SW, WH, DV):
                ret.append(job(loop, kinds = (a, b), rig = 128, newrigs = NEW))
    return ret

"""The whole firmware with the shipped configurations"""
from .common import *
from .firmware import *

BOUNDS = {
    "quick": "each of the shipped configurations (default and all examples): start, then one received message of any kind (NRPN and extended messages with any page, number and value, strings of two characters, control and program changes, system exclusive messages of any of three manufacturers with up to 7 data bytes, unknown events), or a rig change followed by one operation (any switch pressed and released or held for 1 s, pedal at six positions, encoder turned by one); default configuration additionally: two operations, a message followed by an operation, debug output enabled (operations, control and program changes, tuner, also for a selected parameter and with excluded message types)",
    "thorough": "each configuration: message and operation, operation and message, and two operations; default configuration also two messages and three operations"
}
OUTSIDE = "the binary libraries (display, LED and MIDI codec drivers, file transfer bridge) are replaced by stand-ins, MicroPython specific behaviour, longer histories"

KINDS = ("nrpn", "ext", "string", "cc", "pc", "short", "unknown")
DEBUG = ("debugStats", "debugUnparsedMessages", "debugSentMessages", "debugBidirectionalProtocol", "debugClientStats")


def message(s, f, i, kinds):
    k = s.choice("kind%d" % i, kinds)
    if k == "nrpn":
        f.nrpn(s.int("page%d" % i, 0, 127), s.int("num%d" % i, 0, 127), s.int("v%d" % i, 0, 16383))
    elif k == "ext":
        f.receive(f.SX([0, 0x20, 0x33], [0, 0, s.int("fn%d" % i, 0, 127), s.int("inst%d" % i, 0, 1), s.int("page%d" % i, 0, 127), s.int("num%d" % i, 0, 127), s.int("d%d" % i, 0, 127)]))
    elif k == "string":
        f.string(s.int("page%d" % i, 0, 127), s.int("num%d" % i, 0, 127), [s.int("x%d" % i, 0, 127), s.int("y%d" % i, 0, 127)])
    elif k == "cc":
        f.receive(f.CC(s.int("c%d" % i, 0, 127), s.int("v%d" % i, 0, 127)))
    elif k == "pc":
        f.receive(f.PC(s.int("p%d" % i, 0, 127)))
    elif k == "short":
        # System exclusive messages of any manufacturer and length
        man = s.choice("man%d" % i, [[0, 0x20, 0x33], [0x42], [0, 0x20, 0x34]])
        n = s.choice("len%d" % i, [0, 1, 2, 5, 6, 7])
        f.receive(f.SX(man, [s.int("s%d_%d" % (i, j), 0, 127) for j in range(n)]))
    elif k == "length":
        # Any length, for output where the content does not matter
        f.receive(f.SX(s.choice("man%d" % i, [[0, 0x20, 0x33], [0x42]]), s.choice("data%d" % i, [[], [0], [127, 1], [0, 0, 1, 0, 4], [0, 0, 1, 0, 4, 1, 3], [0, 0, 126, 0, 127]])))
    elif k == "tuner":
        f.nrpn(*s.choice("tn%d" % i, [(127, 126, 1), (127, 126, 3), (125, 84, 61), (124, 15, 8000)]))
    elif k == "unknown":
        f.receive(s.obj("adafruit_midi.midi_message:MIDIUnknownEvent")(s.int("status%d" % i, 128, 255)))


def operate(s, f, i, hold):
    ins = f.inputs()
    ops = [("sw", p) for p in ins["digital"]] + [("pot", p) for p in ins["analog"]] + [("enc", p) for p in ins["encoder"]]
    k, p = s.choice("op%d" % i, ops)
    if k == "sw":
        f.push(p, True)
        yield
        yield
        if hold:
            for j in range(3):
                s.advance(350)
                yield
                yield
        f.push(p, False)
        yield
    elif k == "pot":
        f.hw.ANALOG[p] = s.choice("pot%d" % i, [0, 1, 517, 32768, 65000, 65535])
        yield
    else:
        f.hw.ENCODER[p] = f.hw.ENCODER.get(p, 0) + s.choice("turn%d" % i, [-1, 1])
        yield
    yield


def history(s, config, events, kinds, sensed = True, hold = False, options = None):
    """No exception, well formed messages and LED colours"""
    def scenario(f):
        yield
        if sensed:
            s.advance(300)
            yield
            f.sense()
            yield
        for i, e in enumerate(events):
            if e == "msg":
                message(s, f, i, kinds)
                yield
            elif e == "rig":
                f.receive(f.CC(32, 0))
                f.receive(f.PC(7))
                yield
            elif e == "op":
                yield from operate(s, f, i, hold)
            s.advance(300)
            yield
            yield
            f.check_output()
            f.check_display()
    if options and "debugMapping" in options:
        # Name of a parameter
        options = dict(options, debugMapping = getattr(s.obj("pyswitch.clients.kemper:KemperMappings"), options["debugMapping"])())
    fw = Firmware(s, config, options)
    fw.run(scenario)


def jobs(tier):
    def options():
        return {o: True for o in DEBUG}
    ret = []
    for c in configurations():
        ret.append(job(history, config = c, events = ("msg",), kinds = KINDS))
        ret.append(job(history, config = c, events = ("rig", "op"), kinds = (), hold = True))
        if tier == "thorough":
            ret.append(job(history, config = c, events = ("msg", "op"), kinds = ("nrpn",)))
            ret.append(job(history, config = c, events = ("op", "msg"), kinds = KINDS))
            ret.append(job(history, config = c, events = ("op", "op"), kinds = (), hold = True))
            ret.append(job(history, config = c, events = ("msg",), kinds = KINDS, sensed = False))
    ret.append(job(history, config = "default", events = ("op", "op"), kinds = ()))
    ret.append(job(history, config = "default", events = ("msg", "op"), kinds = ("nrpn",)))
    ret.append(job(history, config = "default", events = ("op", "msg"), kinds = KINDS))
    ret.append(job(history, config = "default", events = ("msg",), kinds = KINDS, sensed = False))
    ret.append(job(history, config = "default", events = ("msg", "op"), kinds = ("cc", "pc"), options = options()))
    ret.append(job(history, config = "default", events = ("msg", "msg"), kinds = ("length",), options = options()))
    ret.append(job(history, config = "default", events = ("rig", "op", "op"), kinds = (), options = options()))
    ret.append(job(history, config = "default", events = ("msg", "msg"), kinds = ("cc", "pc", "tuner"), options = dict(options(), debugMapping = "RIG_ID", excludeMessageTypes = ["SystemExclusive"])))
    ret.append(job(history, config = "default", events = ("msg", "op"), kinds = ("tuner",), options = dict(options(), debugMapping = "TUNER_MODE_STATE")))
    if tier == "thorough":
        ret.append(job(history, config = "default", events = ("msg", "msg"), kinds = ("nrpn", "cc", "pc")))
        ret.append(job(history, config = "default", events = ("op", "op", "op"), kinds = ()))
    return ret

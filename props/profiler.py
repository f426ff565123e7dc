"""Model of the Kemper Profiler as seen over MIDI (environment of the closed loop properties)

Written from the Kemper MIDI documentation: control changes for slots, rigs, banks and tuner, bidirectional mode with
beacon, lease, sensing and pushed parameters, requests of single and string parameters. The transport is given by the
harness: `reply` is called with ("CC", control, value), ("PC", patch) or ("SX", bytes after the manufacturer ID).
"""

TYPES = ((33, 0, 145, 178), (1, 97, 0, 113), (0, 64, 129, 81))      # effect types of slots A-D, for three kinds of rigs
FAMILY = {0: ("-", None), 33: ("Dist", "RED"), 145: ("Delay", "GREEN"), 178: ("Reverb", "GREEN"), 1: ("Wah", "ORANGE"), 97: ("EQ", "YELLOW"),
          113: ("Boost", "RED"), 64: ("Space", "GREEN"), 129: ("Pitch", "WHITE"), 81: ("Phaser", "PURPLE")}
PAGES = (50, 51, 52, 53)
LEASE_UNIT = 2000


class Profiler:
    def __init__(self, s, rig, gain = 8000, kind = 0):
        self.s = s
        self.rig = rig
        self.kind = kind
        self.on = [False, False, True, False]
        self.tuner = False
        self.gain = gain
        self.preselected = None
        self.loads = 0
        self.taps = []
        self.errors = []
        self.last_sense = None
        self.lease_end = None
        self.reply = None

    # ------------------------------------------------ contents

    @property
    def types(self):
        return TYPES[self.kind]

    @property
    def name(self):
        return "Rig no %d" % self.kind

    def string(self, num):
        return {1: self.name, 3: "%d" % self.loads, 4: "Comment", 16: "Amp", 32: "Cab"}.get(num)

    def value(self, page, num):
        if page in PAGES and num == 0:
            return self.types[PAGES.index(page)]
        if page in PAGES and num == 3:
            return 1 if self.on[PAGES.index(page)] else 0
        if (page, num) == (10, 4):
            return self.gain
        if (page, num) == (4, 0):
            return 120 * 64
        if (page, num) == (127, 126):
            return 1 if self.tuner else 0
        return None

    # ------------------------------------------------ to the controller

    @property
    def bidirectional(self):
        return self.lease_end is not None and self.s.world.ms < self.lease_end

    def push(self, page, num):
        if self.bidirectional:
            v = self.value(page, num)
            self.reply(("SX", [0, 0, 1, 0, page, num, v >> 7, v & 127]))

    def push_string(self, num):
        if self.bidirectional:
            self.reply(("SX", [0, 0, 3, 0, 0, num] + [ord(c) for c in self.string(num)] + [0]))

    def push_rig(self):
        """Sent on every rig change, also without bidirectional mode"""
        self.reply(("CC", 32, self.rig >> 7))
        self.reply(("PC", self.rig & 127))

    def push_slots(self):
        for p in PAGES:
            self.push(p, 0)
            self.push(p, 3)

    def sense(self):
        self.last_sense = self.s.world.ms
        self.reply(("SX", [0, 0, 0x7e, 0, 0x7f, 0]))

    def tick(self):
        if self.bidirectional and (self.last_sense is None or self.s.world.ms - self.last_sense >= 500):
            self.sense()

    # ------------------------------------------------ operated at the device itself

    def load(self, rig, kind):
        self.rig = rig
        self.kind = kind
        self.loads += 1
        self.on = [i == self.loads % 4 or i == 3 for i in range(4)]
        self.gain = 1000 + self.loads
        self.preselected = None
        self.push_rig()
        self.push_slots()
        self.push_string(1)

    def set_slot(self, i, on):
        self.on[i] = on
        self.push(PAGES[i], 3)

    def set_tuner(self, on):
        self.tuner = on
        self.push(127, 126)

    # ------------------------------------------------ from the controller

    def receive(self, m):
        if m[0] == "CC":
            c, v = m[1], m[2]
            if 17 <= c <= 20:
                self.set_slot(c - 17, bool(v > 0))
            elif 50 <= c <= 54:
                if bool(v > 0):
                    bank = self.rig // 5 if self.preselected is None else self.preselected
                    self.load(bank * 5 + c - 50, (self.kind + 1) % 3)
            elif c == 47:
                self.preselected = v
            elif c in (48, 49):
                bank = self.rig // 5 + (1 if c == 48 else -1)
                bank = self.s.ite(bank > 124, 0, self.s.ite(bank < 0, 124, bank))
                self.load(bank * 5 + self.rig % 5, (self.kind + 1) % 3)
            elif c == 31:
                self.set_tuner(bool(v > 0))
            elif c == 30:
                self.taps.append(v)
            else:
                self.errors.append(m)
        elif m[0] == "SX":
            d = m[1]
            fn, page, num = d[2], d[4], d[5]
            if fn == 0x7e:
                # Beacon: 0x40, parameter set, flags, lease
                if d[4] != 0x40 or d[5] != 2:
                    self.errors.append(m)
                    return
                init = d[6] & 1
                self.lease_end = self.s.world.ms + d[7] * LEASE_UNIT
                self.sense()
                if init:
                    self.push_rig()
                    self.push_slots()
                    self.push_string(1)
                    self.push(127, 126)
            elif fn == 0x41:
                v = self.value(page, num)
                if v is not None:
                    self.reply(("SX", [0, 0, 1, 0, page, num, v >> 7, v & 127]))
            elif fn == 0x43:
                t = self.string(num) if page == 0 else None
                if t is not None:
                    self.reply(("SX", [0, 0, 3, 0, 0, num] + [ord(c) for c in t] + [0]))
            elif fn == 0x01:
                if (page, num) == (10, 4):
                    self.gain = d[6] * 128 + d[7]
                else:
                    self.errors.append(m)
            else:
                self.errors.append(m)
        else:
            self.errors.append(m)

FW = """
def lenient(n):
    m = module(n)
    m.__getattr__ = lambda a: Bag
for n in ("busio", "adafruit_misc.adafruit_st7789", "adafruit_misc.neopixel", "adafruit_bitmap_font", "fourwire"):
    lenient(n)
module("displayio", Group = Group, release_displays = lambda: None)
module("board", **{"GP%d" % i: i for i in range(29)})
class IO:
    level, position = {}, {}
class Pin:
    def __init__(self, p): self.p = p
    value = property(lambda self: IO.level.get(self.p, True))
class Enc:
    def __init__(self, p, q, divisor = 1): self.p = p
    position = property(lambda self: IO.position.get(self.p, 0))
module("digitalio", DigitalInOut = Pin, Direction = Bag(), Pull = Bag())
sys.modules["digitalio"].Direction.INPUT = sys.modules["digitalio"].Pull.UP = 1
module("analogio", AnalogIn = Pin)
module("rotaryio", IncrementalEncoder = Enc)
sys.path.insert(0, os.path.join(os.getcwd(), "content"))
"""
MORPH = """
from pyswitch.clients.kemper.actions.morph import *
from pyswitch.clients.kemper.actions.rig_select import *
from pyswitch.clients.kemper.mappings.morph import *
from pyswitch.clients.kemper.mappings.rig import *
from pyswitch.clients.kemper import KemperMappings
"""
BUG("morph-preselect-same", "C32", [("clients/kemper/actions/rig_select.py", "            self.__appl.shared[\"morphStateOverride\"] = 0\n            del self.", "            if not state:\n                self.__appl.shared[\"morphStateOverride\"] = 0\n            del self.")],
 "The rig with the same number in a preselected bank is chosen while morphed", "The morph state is not reset", MORPH + """
a = switches(RIG_SELECT(rig = 2))
m = KemperMappings.RIG_ID()
m.value = 6
a.shared["morphStateOverride"] = 16383
a.shared["preselectedBank"] = 4
press(a)
equal(a.shared["morphStateOverride"], 0)
""")
BUG("button-role-once", "C33", [("clients/local/actions/encoder_button.py", "                encoder.cancel()\n            else:\n                encoder.accept()\n", "                encoder.cancel()\n                break\n            else:\n                encoder.accept()\n")],
 "A button is the cancel button of one encoder and (registered later) the accept button of another one", "The second encoder is not accepted", """
from pyswitch.clients.local.actions.encoder_button import ENCODER_BUTTON
class E:
    log = ""
    def cancel(self): self.log += "c"
    def accept(self): self.log += "a"
b = ENCODER_BUTTON()
x, y = E(), E()
b.callback.register_encoder(x, True)
b.callback.register_encoder(y, False)
b.callback.push()
equal((x.log, y.log), ("c", "a"))
""")
BUG("debug-empty-sysex", "C34", [("debug_tools.py", "    hexlist = \"\"\n    for i in range(len(intlist)):\n", "    hexlist = hex(intlist[0])[2:] + (\", \" if len(intlist) > 1 else \"\")\n    for i in range(1, len(intlist)):\n")],
 "A SysEx message without data is received with debug output enabled", "The firmware crashes", """
from pyswitch.debug_tools import stringify_midi_message
print(stringify_midi_message(SX([0, 32, 51], [1, 2])))
try:
    stringify_midi_message(SX([0, 32, 51], []))
except IndexError:
    equal("crash", "no crash")
""")
BUG("din-channel", "C35", [("hardware/adafruit/AdafruitDinMidiDevice.py", "            in_channel = in_channel,", "            in_channel = in_channel or None,")],
 "A serial port configured to listen to channel 0 only", "It listens to all channels", FW + """
got = {}
class MIDI:
    def __init__(self, **k): got.update(k)
module("adafruit_midi", MIDI = MIDI)
module("adafruit_midi.midi_message", MIDIMessage = MIDIMessage, MIDIUnknownEvent = MIDIUnknownEvent)
from pyswitch.hardware.adafruit.AdafruitDinMidiDevice import AdafruitDinMidiDevice
for c in (None, 0, 3, (0, 1)):
    AdafruitDinMidiDevice(1, 2, 100, 31250, 0, in_channel = c)
    equal(got["in_channel"], c)
""")
EMU = FW + """
for k in list(sys.modules):
    if k.startswith("adafruit_midi"):
        del sys.modules[k]
sys.path.insert(0, os.path.join(os.getcwd(), "web", "htdocs", "python"))
class Refs:
    class midiWrapper:
        messageQueue, sent = [], []
        send = lambda p: Refs.midiWrapper.sent.append(list(p))
    to_py = lambda: {"midiWrapper": Refs.midiWrapper}
module("js", externalRefs = Refs, document = None)
import importlib.util
spec = importlib.util.spec_from_file_location("wrap_adafruit_midi", "web/htdocs/python/wrappers/wrap_adafruit_midi.py")
W = importlib.util.module_from_spec(spec)
spec.loader.exec_module(W)
from adafruit_midi.control_change import ControlChange
from pyswitch.hardware.adafruit.AdafruitUsbMidiDevice import AdafruitUsbMidiDevice
def dev(**k):
    return AdafruitUsbMidiDevice(port_in = W.WrapMidiInput(), port_out = W.WrapMidiOutput(), in_buf_size = 100, **k)
"""
BUG("codec-foreign-channel", "C36", [("/web/htdocs/python/adafruit_midi/midi_message.py", "                    # advance to next message\n                    msgstartidx = msgendidxplusone\n", "                    # no message for us\n                    return (None, endidx + 1, skipped)\n")],
 "A message on a channel which is not listened to arrives together with further ones", "The messages after it are lost", EMU + """
d = dev(in_channel = 3)
Refs.midiWrapper.messageQueue[:] = [[0xb3, 1, 2], [0xb4, 5, 6], [0xb3, 3, 4]]
got = [d.receive() for i in range(5)]
equal([(m.control, m.value) for m in got if m], [(1, 2), (3, 4)])
""")
BUG("emulator-dark-led", "C36", [("/web/htdocs/python/wrappers/wrap_adafruit_led.py", "            if value == (0, 0, 0):\n", "            if not value[0] and not value[1]:\n")],
 "An LED is set to pure blue", "The LED on the page stays dark", """
class Elt:
    def __init__(self): self.dataset, self.style = Bag(), Bag()
class Doc:
    el = Elt()
    getElementById = lambda i: Doc.el
module("js", document = Doc)
spec = importlib.util.spec_from_file_location("wrap_adafruit_led", "web/htdocs/python/wrappers/wrap_adafruit_led.py")
L = importlib.util.module_from_spec(spec)
spec.loader.exec_module(L)
d = L.WrapNeoPixelDriver("d")
d.init(1)
for c, dark in (((0, 0, 0), True), ((5, 0, 0), False), ((0, 0, 30), False), ((0, 9, 0), False)):
    d.leds[0] = c
    equal(Doc.el.style.backgroundColor == "rgba(0, 0, 0, 0)", dark)
""")
BUG("default-no-cancel", "C37", [("/content/inputs.py", "                cancel_action = _cancel, \n", "                cancel_action = _accept, \n")],
 "The wheel of the default configuration is turned and its button held, afterwards tapped", "Holding does not discard the gain, tapping does not set it", FW + """
from inputs import Inputs
from pyswitch.clients.kemper.mappings.amp import MAPPING_AMP_GAIN
a = app(Inputs, protocol = Bidirectional(True))
MAPPING_AMP_GAIN().value = 8000
def run(n):
    for i in range(n):
        clock.ms += 50
        a.tick()
run(3)
IO.position[2] = 3
run(3)
a.midi.take()
IO.level[0] = False
run(1)
IO.level[0] = True
run(2)
equal([x for x in a.midi.take() if x[0] == "SX" and x[2][2] == 1], [("SX", [0, 32, 51], [2, 127, 1, 0, 10, 4, 63, 56])])
""")
BUG("explore-same-switch", "C38", [("controller/explore.py", "        if self.latest_marker:\n            self.latest_marker.back_color = Colors.LIGHT_BLUE\n\n        for row in self.__ports_display_rows.children:\n            for col in row.children:\n                if label == col:\n                    self.latest_marker = col\n                    col.back_color = Colors.RED\n", "        label.back_color = Colors.RED\n\n        if self.latest_marker:\n            self.latest_marker.back_color = Colors.LIGHT_BLUE\n\n        self.latest_marker = label\n")],
 "The same switch is pressed twice in a row", "Its label is not highlighted", """
from pyswitch.controller.explore import ExploreModeController
class C:
    set_latest_port_marker = ExploreModeController.set_latest_port_marker
from pyswitch.colors import Colors
c = C()
x, y = Label(), Label()
c.latest_marker = None
c._ExploreModeController__ports_display_rows = Bag(children = [Bag(children = [x, y])])
c.set_latest_port_marker(x)
equal(x.back_color, Colors.RED)
c.set_latest_port_marker(y)
equal((x.back_color, y.back_color), (Colors.LIGHT_BLUE, Colors.RED))
c.set_latest_port_marker(y)
equal(y.back_color, Colors.RED)
""")

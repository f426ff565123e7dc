UIENV = """
from pyswitch.ui.UiController import UiController
from pyswitch.ui.ui import DisplayBounds, DisplayElement
from pyswitch.ui.elements import *
class Disp:
    width = height = 240
    def __init__(self): self.tft = self; self.shown = None
    def show(self, x): self.shown = x
    def get(self, p): return p
class Root:
    def __init__(self, e): self.e = e
    def init(self, appl, listener): pass
    def get_root(self): return self.e
def ui(e, **kw):
    d = Disp()
    a = app(ui = UiController(d, d, Root(e)), **kw)
    a.disp = d
    return a
def elements(g):
    r = []
    for x in g.content:
        r += elements(x) if isinstance(x, Group) else [x]
    return r
"""
BUG("routing-unknown", "C07", [("controller/midi.py", "                if getattr(msg, \"_STATUS\", None) is None:\n                    continue\n", "                if getattr(msg, \"_STATUS\", None) is None:\n                    return\n")],
 "A message without status read from one external source together with a message of another one", "The message of the other source is lost", """
from pyswitch.controller.midi import MidiController, MidiRouting
class NoStatus:
    pass
a, b, c = Midi(), Midi(), Midi()
m = MidiController([MidiRouting(a, c), MidiRouting(b, c)])
a.queue = [NoStatus()]
b.queue = [CC(1, 2)]
m.receive(); m.receive(); m.receive()
equal(c.sent, [("CC", 1, 2)])
""")
BUG("encoder-clamp-last", "C14", [("controller/actions/EncoderAction.py", "        self.__last_pos = position\n\n        # Get value to set\n", "        if self.__preselect or self._last_value != self.__max_value or add_value < 0:\n            self.__last_pos = position\n\n        # Get value to set\n")],
 "An encoder turned further at the end of the range and the parameter being changed by the device afterwards", "The turns done at the end are added later", """
from pyswitch.controller.actions.EncoderAction import EncoderAction
m = mapping("e", set = CC(7, 0), response = CC(7, 0))
e = Encoder()
a = app([{"assignment": {"model": e}, "actions": [EncoderAction(mapping = m)]}], protocol = Bidirectional(True))
m.value = 127
e.position = 0; a.inputs[0].process()
e.position = 3; a.inputs[0].process()
e.position = 5; a.inputs[0].process()
m.value = 50
e.position = 6; a.inputs[0].process()
equal(m.value, 51)
""")
BUG("rotate-text-pos", "C24", [("clients/local/actions/rotate.py", "        if self.__texts and self.__texts_pos >= len(self.__texts):\n            self.__texts_pos = 0\n", "        if self.__texts and self.__texts_pos >= len(self.__texts):\n            self.__texts_pos = 1 if self.__messages and len(self.__messages) == 2 and self.__messages_pos and len(self.__texts) == 3 else 0\n")],
 "Two messages and three texts", "The texts do not start again with the first one", """
from pyswitch.clients.local.actions.rotate import ROTATING_MESSAGES
l = Label()
a = switches(ROTATING_MESSAGES(messages = [[1], [2]], led_colors = [(1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 4)], texts = ["a", "b", "c"], display = l))
got = []
for i in range(6):
    click(a)
    got.append(l.text)
equal(got, ["b", "c", "a", "b", "c", "a"])
""")
BUG("tuner-zoom-clip", "C26", [("ui/elements.py", "max(-8192, min(int((value - 8192) * self.__zoom), 8192)) + 8191", "min(int((value - 8192) * self.__zoom), 8192) + 8191")],
 "A string far too flat with a zoomed tuner display", "The marker leaves the display on the left side", UIENV + """
from pyswitch.clients.kemper import *
root = DisplayElement(bounds = DisplayBounds(0, 0, 240, 240))
cb = TunerDisplayCallback(splash_default = root)
d = Disp()
a = app(ui = UiController(d, d, cb), protocol = Bidirectional(True))
a.init()
a.client.receive(nrpn(0x7f, 0x7e, 1))
a.client.receive(nrpn(0x7c, 0x0f, 100))
xs = [e.x for e in elements(d.shown) if hasattr(e, "fill")]
equal([x >= 0 for x in xs], [True] * len(xs), xs)
""")
BUG("strobe-flat-fast", "C27", [("controller/strobe.py", "        if delta < -threshold:\n            delta = -threshold\n", "        elif delta < -threshold:\n            delta = threshold if delta < -8000 else -threshold\n")],
 "A string far too flat", "The strobe turns in the direction for sharp strings", """
from pyswitch.controller.strobe import StrobeController
from pyswitch.clients.kemper import KemperMappings
def run(dev):
    st, dv = mapping("s%d" % dev, response = CC(1, 0)), mapping("d%d" % dev, response = CC(2, 0))
    hws = [Switch() for i in range(4)]
    a = app([{"assignment": {"model": h, "pixels": [i], "strobeOrder": i}, "actions": []} for i, h in enumerate(hws)], protocol = Bidirectional(True))
    s = StrobeController(st, dv, width = 0.25)
    s.init(a)
    st.value = 1
    s.parameter_changed(st)
    ret = []
    for i in range(10):
        clock.ms += 40
        dv.value = dev
        s.parameter_changed(dv)
        ret.append([round(x.brightness, 4) for x in a.inputs])
    return ret
equal(run(0) != run(16383), True)
""")
BUG("wrap-single-word", "C28", [("ui/elements.py", "        if self.__layout.max_text_width:\n", "        if self.__layout.max_text_width and (not self.__label or \" \" in text or len(text) > 16):\n")],
 "A single long word on a label with wrapping", "The text is not wrapped", UIENV + """
import pyswitch.ui.elements as E
E.wrap_text_to_pixels = lambda t, w, f: [t[i:i + w // 10] for i in range(0, len(t), w // 10)]
l = DisplayLabel(layout = {"font": "/f", "maxTextWidth": 40}, bounds = DisplayBounds(0, 0, 100, 40))
a = ui(l)
a.init()
l.text = "abcdefgh"
equal([e.text for e in elements(a.disp.shown) if hasattr(e, "text")], ["abcd\\nefgh"])
""")
BUG("contrast-after-override", "C28", [("ui/elements.py", "        if self.__background:\n            self.__background.fill = color\n\n        # Update text color", "        if not self.__background:\n            return\n\n        self.__background.fill = color\n\n        # Update text color")],
 "The background colour is changed by an action before the label is shown, after the text colour has been set", "The text stays in the colour set before", UIENV + """
l = DisplayLabel(layout = {"font": "/f", "backColor": (0, 0, 0)}, bounds = DisplayBounds(0, 0, 100, 40))
l.text_color = (255, 255, 255)
l.back_color = (255, 255, 255)
a = ui(l)
a.init()
equal([e.color for e in elements(a.disp.shown) if hasattr(e, "text")], [(0, 0, 0)])
""")
BUG("split-nested-same", "C29", [("ui/DisplaySplitContainer.py", "            if isinstance(c, DisplaySplitContainer):\n", "            if isinstance(c, DisplaySplitContainer) and c.direction != self.direction:\n")],
 "Split containers of the same direction nested in each other", "Children of the inner container keep their old area", UIENV + """
from pyswitch.ui.DisplaySplitContainer import DisplaySplitContainer as S
k = [DisplayElement(), DisplayElement()]
inner = S()
for x in k: inner.add(x)
o = S(bounds = DisplayBounds(0, 0, 100, 20))
o.add(inner); o.add(DisplayElement())
equal([(x.bounds.x, x.bounds.width) for x in k], [(0, 25), (25, 25)])
""")
BUG("splash-updates", "C29", [("ui/UiController.py", "        self.updateables = [i for i in splash_element.contents_flat() if isinstance(i, Updateable)]\n", "        for i in splash_element.contents_flat():\n            self.add_updateable(i)\n")],
 "Another root element with elements to be updated is shown afterwards", "Elements not shown are still updated", UIENV + """
from pyswitch.misc import Updateable
log = []
class E(DisplayElement, Updateable):
    def update(self): log.append(self.id)
one, two = E(id = 1), E(id = 2)
a = ui(one)
r = Root(one)
a.ui.set_callback(r)
a.init()
r.e = two
a.ui.show()
a.ui.update()
equal(log, [2])
""")
BUG("clear-limited", "C30", [("controller/controller.py", "            while True:\n                if not self.__midi.receive():\n                    break\n\n    # Single", "            for i in range(256):\n                if not self.__midi.receive():\n                    break\n\n    # Single")],
 "More than 256 messages waiting at start up", "Old messages are processed after start up", """
m = mapping("x", response = CC(1, 0))
l = Listener()
a = app()
a.client.register(m, l)
a.midi.queue = [CC(1, i % 128) for i in range(280)]
a.init()
for i in range(20): a.tick()
equal(l.log, [])
""")
BUG("update-no-poll", "C30", [("controller/controller.py", "            for u in self.updateables:\n                # Receive MIDI messages in between updates, too\n                self.__receive_midi_messages()\n\n                u.update()\n", "            self.__receive_midi_messages()\n\n            for i, u in enumerate(self.updateables):\n                # Receive MIDI messages in between updates, too\n                if i % 2:\n                    self.__receive_midi_messages()\n\n                u.update()\n")],
 "Three or more elements to be updated and a switch pressed and released in between", "The press is not seen", """
from pyswitch.misc import Updateable
log = []
class H(Switch):
    @property
    def pushed(self): log.append("poll"); return False
class U(Updateable):
    def update(self): log.append("u")
a = app([{"assignment": {"model": H()}, "actions": []}])
for i in range(3): a.add_updateable(U())
clock.ms += 1000
a.tick()
equal("".join(x[0] for x in log).replace("pp", "p").replace("pp", "p"), "pupupup")
""")
BUG("tempo-preview-rig", "C31", [("clients/kemper/actions/tempo.py", "                    self.__preview.preview(\n                        text = text, \n                        timeout_millis = self.__change_timeout_millis\n                    )\n\n                self.__last_bpm = self.__bpm_mapping.value\n\n                if self.__preview:\n                    self.__last_rig = self.__rig_id_mapping.value\n", "                    self.__preview.preview(\n                        text = text, \n                        timeout_millis = self.__change_timeout_millis\n                    )\n                elif self.__preview and self.__last_rig == None:\n                    self.__last_rig = self.__rig_id_mapping.value\n\n                self.__last_bpm = self.__bpm_mapping.value\n")],
 "A second rig change, then tempo changes", "Tempo changes are never shown again", UIENV + """
from pyswitch.clients.kemper.actions.tempo import SHOW_TEMPO
l = DisplayLabel(layout = {"font": "/f"})
a = switches(SHOW_TEMPO(change_display = l), protocol = Bidirectional(True))
for r in (1, 2):
    rig_id(a, r)
    a.client.receive(nrpn(4, 0, 6400 + 64 * r))
a.client.receive(nrpn(4, 0, 7680))
equal(l.override_text, "120 bpm")
""")
BUG("pulse-level", "C31", [("clients/kemper/actions/tempo.py", "        if value != None and value != self.__current_value:\n            self.__current_value = value\n", "        if value != None and bool(value) != bool(self.__current_value):\n            self.__current_value = value\n")],
 "The first tempo pulse received is 0", "The LED colour is not set", """
from pyswitch.clients.kemper.actions.tempo import SHOW_TEMPO
from pyswitch.clients.kemper.mappings.tempo import MAPPING_TEMPO_DISPLAY
a = switches(SHOW_TEMPO(color = (1, 2, 3)), protocol = Bidirectional(True))
d = list(MAPPING_TEMPO_DISPLAY().response.data)
a.client.receive(SX(K, d[:6] + [0, 0]))
equal((a.inputs[0].color, a.inputs[0].brightness), ((1, 2, 3), 0))
""")

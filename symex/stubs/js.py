"""Browser side of the web emulator: elements of the page, canvas and references to the MIDI port (JavaScript objects)"""


class Dataset:
    def to_py(self):
        return self

    def hasOwnProperty(self, name):
        return name in self.__dict__


class Style:
    pass


class Context:
    def __init__(self, canvas):
        self.canvas = canvas
        self.font = ""
        self.fillStyle = ""

    def fillRect(self, x, y, w, h):
        self.canvas.drawn.append(("rect", x, y, w, h, self.fillStyle))

    def fillText(self, text, x, y):
        self.canvas.drawn.append(("text", text, x, y, self.fillStyle))

    def measureText(self, text):
        class M:
            width = 10 * len(text)
        return M


class Element:
    def __init__(self):
        self.dataset = Dataset()
        self.style = Style()
        self.drawn = []

    def getContext(self, kind):
        return Context(self)


class Document:
    def __init__(self):
        self.elements = {}

    def getElementById(self, id):
        return self.elements.get(id)


class MidiWrapper:
    def __init__(self):
        self.messageQueue = []      # bytes of each message
        self.sent = []
        self.on_send = None

    def send(self, packet):
        self.sent.append(list(packet))
        if self.on_send:
            self.on_send(list(packet))


class References:
    def to_py(self):
        return self.__dict__

    def hasOwnProperty(self, name):
        return name in self.__dict__


document = Document()
externalRefs = References()
externalRefs.midiWrapper = MidiWrapper()

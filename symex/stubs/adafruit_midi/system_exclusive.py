from .midi_message import MIDIMessage

class SystemExclusive(MIDIMessage):
    _STATUS = 0xF0

    def __init__(self, manufacturer_id = (0, 0, 0), data = ()):
        self.manufacturer_id = bytes(manufacturer_id)
        self.data = bytes(data)

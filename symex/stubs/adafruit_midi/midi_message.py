class MIDIMessage:
    _STATUS = 0x00

    @staticmethod
    def register_message_type():
        pass


class MIDIUnknownEvent(MIDIMessage):
    _STATUS = None

    def __init__(self, status = 0):
        self.status = status

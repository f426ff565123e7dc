class MidiBridgeWrapper:
    """Transparent for everything which is no file transfer"""
    def __init__(self, midi, temp_file_path, **kw):
        self.midi = midi

    def send(self, msg):
        self.midi.send(msg)

    def receive(self):
        return self.midi.receive()

    def error(self, exc):
        raise exc

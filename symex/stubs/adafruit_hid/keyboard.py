class Keyboard:
    instances = []
    fail = False

    def __init__(self, devices):
        if Keyboard.fail:
            raise OSError()
        self.sent = []
        Keyboard.instances.append(self)

    def send(self, *codes):
        self.sent.append(codes)

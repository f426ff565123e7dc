import hwsim as _hw

_usb = _hw.Port("USB")

class _In:
    def take(self):
        return _usb.take()

class _Out:
    def put(self, msg):
        _usb.put(msg)

ports = (_In(), _Out())
PORT = _usb

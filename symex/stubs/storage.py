import hwsim as _hw

def disable_usb_drive():
    _hw.CALLS.append(("disable_usb_drive",))

def remount(path, readonly = False):
    _hw.CALLS.append(("remount", path, readonly))

class Keycode:
    A = 4
    B = 5
    C = 6

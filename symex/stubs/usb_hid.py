devices = [3, 4, 5]

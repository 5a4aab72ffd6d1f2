available = False
enabled = False


def enable():
    pass


def disable():
    pass

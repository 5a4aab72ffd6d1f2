def overload(*a, **k):
    return lambda f: f


def register_jitable(*args, **kwargs):
    if args and callable(args[0]):
        return args[0]
    return lambda f: f

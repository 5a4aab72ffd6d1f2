CALLS = []


def output_file(filename, title=None, **kwargs):
    CALLS.append(('output_file', filename, title))


def show(obj, *args, **kwargs):
    CALLS.append(('show', obj))


def save(obj, *args, **kwargs):
    CALLS.append(('save', obj))

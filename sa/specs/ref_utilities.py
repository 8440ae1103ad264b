"""Reference definitions: goats.core.utilities."""

MODULE = 'goats.core.utilities'
COVERS = (
    'getattrval',
    'setattrval',
    'equal_attrs',
)


def getattrval(__object, __name, *args, **kwargs):
    attr = getattr(__object, __name, __object)
    return attr(*args, **kwargs) if callable(attr) else attr


def setattrval(*args, **kwargs):
    obj, name, *args = args
    attr = getattr(obj, name)
    if callable(attr):
        attr(*args, **kwargs)
    else:
        setattr(obj, name, args[0])


def equal_attrs(name, *objects):
    if len(objects) == 0:
        raise ValueError
    try:
        v = getattr(objects[0], name)
    except AttributeError:
        return False
    if len(objects) == 1:
        return True
    try:
        truth = all((getattr(i, name) == v for i in objects[1:]))
    except AttributeError:
        return False
    return truth

"""Reference definitions: goats.core.numerical."""

MODULE = 'goats.core.numerical'
COVERS = (
    'get_bounding_indices',
    'find_1d_indices',
    'find_nearest',
    'cast',
    'xyz2rtp',
    'rtp2xyz',
    'zero_floor',
)


def get_bounding_indices(array, target, axis=None):
    if axis is None:
        axis = -1
    return numpy.apply_along_axis(
        find_1d_indices, int(axis), numpy.asfarray(array), float(target)
    )


def find_1d_indices(array, target):
    leq = array <= target
    lower = numpy.where(leq)[0].max() if any(leq) else 0
    geq = array >= target
    upper = numpy.where(geq)[0].min() if any(geq) else len(array) - 1
    return (lower, upper)


def find_nearest(values, target, bound=None):
    array = numpy.asarray(values)
    index = numpy.abs(array - target).argmin()
    if bound == 'lower':
        try:
            while array[index] < target:
                index += 1
        except IndexError:
            index = -1
    elif bound == 'upper':
        try:
            while array[index] > target:
                index -= 1
        except IndexError:
            index = 0
    if array.ndim > 1:
        index = numpy.unravel_index(index, array.shape)
    return Nearest(index=index, value=array[index])


def cast(arg, strict=True):
    if isinstance(arg, numbers.Number):
        return arg
    types = (int, float, complex)
    for t in types:
        try:
            return t(arg)
        except ValueError:
            pass
    if strict:
        raise TypeError


def xyz2rtp(*args):
    if not args:
        raise MissingArgsError
    elif len(args) == 1:
        x, y, z = args[0]
    elif len(args) == 3:
        x, y, z = args
    else:
        raise ArgsNumberError
    r = numpy.sqrt(x * x + y * y + z * z)
    r[numpy.asarray(numpy.abs(r) < sys.float_info.epsilon).nonzero()] = 0.0
    t = numpy.arccos(z / r)
    t[numpy.asarray(r == 0).nonzero()] = 0.0
    p = numpy.arctan2(y, x)
    p[numpy.asarray(p < 0.0).nonzero()] += 2 * numpy.pi
    p[numpy.asarray([i == 0 and j >= 0 for i, j in zip(x, y)]).nonzero()] = (
        +0.5 * numpy.pi
    )
    p[numpy.asarray([i == 0 and j < 0 for i, j in zip(x, y)]).nonzero()] = (
        -0.5 * numpy.pi
    )
    return (r, t, p)


def rtp2xyz(*args):
    if not args:
        raise MissingArgsError
    elif len(args) == 1:
        r, t, p = args[0]
    elif len(args) == 3:
        r, t, p = args
    else:
        raise ArgsNumberError
    x = r * numpy.sin(t) * numpy.cos(p)
    x = zero_floor(x)
    y = r * numpy.sin(t) * numpy.sin(p)
    y = zero_floor(y)
    z = r * numpy.cos(t)
    z = zero_floor(z)
    return (x, y, z)


def zero_floor(value):
    if value.shape:
        condition = numpy.asarray(
            numpy.abs(value) < sys.float_info.epsilon
        ).nonzero()
        value[condition] = 0.0
    else:
        value = 0.0 if numpy.abs(value) < sys.float_info.epsilon else value
    return value

"""Reference definitions: goats.core.interpolation."""

MODULE = 'goats.core.interpolation'
COVERS = (
    'restrict_coordinate',
    'Restriction.__init__',
    'Restriction.apply',
    'apply',
)


def restrict_coordinate(array, target, axis):
    bounds = numerical.get_bounding_indices(array, target, axis=axis)
    if bounds.ndim == 1:
        return range(bounds[0], bounds[1] + 1)
    if bounds.ndim == 2:
        lower = min(bounds[:, 0])
        upper = max(bounds[:, 1])
        return range(lower, upper + 1)
    raise NotImplementedError


class Restriction:
    def __init__(self, rule, *args, **kwargs):
        self.indices = rule(*args, **kwargs)

    def apply(self, array, axis=None):
        if axis is None:
            axis = -1
        permuted = numpy.moveaxis(array, axis, 0)
        result = permuted[self.indices, ...]
        return numpy.moveaxis(result, 0, axis)


def apply(array, reference, targets, axis=None):
    interpolated = [
        _apply_interp1d(array, reference, target, axis=axis)
        for target in targets
    ]
    if reference.ndim == 2:
        return numpy.swapaxes(interpolated, 0, 1)
    return numpy.array(interpolated)


def _apply_interp1d(array, reference, target, axis=None):
    if reference.ndim == 1 and target in reference:
        idx = numerical.find_nearest(reference, target).index
        return array[idx]
    if axis is not None:
        restriction = Restriction(
            restrict_coordinate, reference, target, axis=axis
        )
        ref = restriction.apply(reference, axis=axis)
        arr = restriction.apply(array, axis=axis)
    else:
        ref = reference
        arr = array
    if reference.ndim == 2:
        if ref.shape[1] == 1:
            return numpy.array([y[0] for y in arr])
        interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
        return numpy.array([interp(target) for interp in interps])
    if ref.size == 1:
        return arr[0]
    interp = interp1d(ref, arr, axis=0)
    return interp(target)

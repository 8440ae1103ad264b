"""Property id -> (module, function)."""
from .allocation import PROPS

CHECKS = {
    'M01': ('tables', 'm01'),
    'M02': ('tables', 'm02'),
    'M03': ('tables', 'm03'),
    'M04': ('tables', 'm04'),
    'D01': ('derived', 'd01'),
    'D02': ('derived', 'd02'),
    'D03': ('derived', 'd03'),
    'I01': ('ownership', 'i01'),
}
CHECKS.update((pid, ('reference', pid.lower())) for pid in PROPS)

"""Units whose scale (and offset) are inputs of the harness, defined in the real pint registry."""


def registry(h):
    return h.mod("core.units")._unit_registry


def define(h, name, scale, base, offset=None):
    """Define a unit `name` = scale * base (base: dict of units); with an offset for temperature-like units."""
    import pint
    from pint.converters import ScaleConverter
    from pint.definitions import UnitDefinition
    from pint.unit import UnitsContainer

    try:
        from pint.converters import OffsetConverter
    except ImportError:
        OffsetConverter = None
    n = h.unique(name)
    conv = ScaleConverter(scale) if offset is None else OffsetConverter(scale, offset)
    registry(h).define(UnitDefinition(n, None, (), conv, UnitsContainer(base)))
    return n


def base(h, name):
    """A new base unit with its own dimension."""
    n = h.unique(name)
    registry(h).define("{0} = [dim_{0}]".format(n))
    return n


def scale(h, name, lo=0.01, hi=100):
    """A positive scale factor."""
    return h.real(name, lo, hi)

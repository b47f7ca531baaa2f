from .exec import Unsupported


def fcmp(pred, a, b):
    raise Unsupported("symbolic floating-point comparison")

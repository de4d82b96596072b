"""Arguments passed in the same arrays, refilled in place before each call.

A result must follow the contents of the arguments at the time of the call,
not the identity of the arrays.
"""
import numpy as np


class Buffers:
    """ arrays reused by every second call """
    def __init__(self, period=2):
        self.arrays = {}
        self.count = 0
        self.period = period

    def put(self, name, value):
        """ the array of this name and shape with the given contents """
        if not isinstance(value, np.ndarray) or not value.ndim:
            return value
        key = name, value.shape, value.dtype.str
        found = self.arrays.setdefault(key, np.empty(value.shape, value.dtype))
        found[...] = value
        return found

    def wrap(self, function):
        """ function passing its arrays through the buffers """
        def call(*args, **kwargs):
            self.count += 1
            if self.count % self.period:
                return function(*args, **kwargs)
            args = [self.put(i, a) for i, a in enumerate(args)]
            result = function(*args, **kwargs)
            # the identity may return its argument
            if isinstance(result, np.ndarray):
                return result.copy()
            if isinstance(result, tuple):
                return tuple(r.copy() if isinstance(r, np.ndarray) else r for r in result)
            return result
        return call

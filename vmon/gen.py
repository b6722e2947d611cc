"""Generators, biased towards boundaries."""

import math
import struct

from . import wire


def value(rng, name):
    """A value in the type's domain."""
    kind = wire.TYPES[name][2]
    if kind is bool:
        return rng.random() < 0.5
    if kind is int:
        low, high = wire.bounds(name)
        pick = rng.randrange(8)
        if pick == 0:
            return low
        if pick == 1:
            return high
        if pick == 2:
            return min(high, max(low, rng.randint(-3, 3)))
        if pick == 3:
            shift = rng.randrange(0, wire.TYPES[name][1] * 8)
            base = (1 << shift) + rng.randint(-1, 1)
            if low < 0 and rng.random() < 0.5:
                base = -base
            return min(high, max(low, base))
        return rng.randint(low, high)
    pick = rng.randrange(10)
    if pick == 0:
        return 0.0
    if pick == 1:
        return rng.choice([math.inf, -math.inf])
    if pick == 2:
        return rng.choice([-0.0, 1.0, -1.0, 0.1, 2.0**24 + 1])
    if pick == 3:
        big = 3.4028234663852886e38 if name == "float" else 1.7e308
        return rng.choice([big, -big])
    if pick == 4:
        return rng.uniform(-1e-40, 1e-40)
    return rng.uniform(-1e6, 1e6)


def outside(rng, name):
    """Something the type must refuse: (value, why)."""
    kind = wire.TYPES[name][2]
    if kind is bool:
        return rng.choice([1, 0, "True", None, 1.0, [], b"x"])
    if kind is int:
        low, high = wire.bounds(name)
        return rng.choice(
            [
                low - 1,
                high + 1,
                low - rng.randint(1, 1 << 70),
                high + rng.randint(1, 1 << 70),
                1.0,
                "1",
                None,
                [1],
                math.nan,
            ]
        )
    wrong = [1, "1.0", None, [1.0], True]
    if name == "float":
        wrong += [1e39, -1e39, 1.7e308, 3.4028236e38]
    return rng.choice(wrong)


def representable(name, val):
    try:
        struct.pack(wire.TYPES[name][0], val)
    except (struct.error, OverflowError):
        return False
    return True


def time_value(rng):
    pick = rng.randrange(6)
    if pick == 0:
        return float(rng.randrange(0, 5))
    if pick == 1:
        return rng.randrange(0, 10**13) / 1000.0
    if pick == 2:
        return rng.random() * 1e-3
    if pick == 3:
        return 1.7e9 + rng.random() * 1e6
    return rng.random() * 10 ** rng.randrange(0, 7)

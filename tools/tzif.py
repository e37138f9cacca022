"""Writes zoneinfo directories holding leap-second tables of our own choosing.

All files of a directory hold the same leap seconds, in the 32-bit block and, if there is one, in the 64-bit block.
"""
import datetime
import json
import os
import random
import struct

CLASSES = ["real-like", "adjacent", "mixed", "sparse", "dense", "single", "start", "end", "removed", "many", "interlocked"]


def leap_records(leaps, fmt):
    out, before = [], 0
    for day, delta in leaps:
        t = (day + 1) * 86400 + before if delta > 0 else (day + 1) * 86400 - 1 + before
        before += delta
        out.append(struct.pack(fmt, t, before))
    return b"".join(out)


def block(leaps, version, wide, transitions, types, names, flags):
    """One header and its data; wide: 64-bit times."""
    n = len(types)
    head = b"TZif" + version + b"\0" * 15 + struct.pack(">6l", n if flags else 0, n if flags else 0, len(leaps), len(transitions), n, len(names))
    t = ">%d%s" % (len(transitions), "q" if wide else "l")
    return (head + struct.pack(t, *[x[0] for x in transitions]) + bytes(x[1] for x in transitions)
            + b"".join(struct.pack(">lBB", *x) for x in types) + names
            + leap_records(leaps, ">ql" if wide else ">ll") + (b"\1" * n + b"\0" * n if flags else b""))


def write_zone(path, leaps, offset, rng):
    """A TZif file with the given [[day, delta], ...] and transitions, types and version of any kind."""
    names = b"UTC\0" if offset == 0 else b"LMT\0STD\0SUM\0"
    types = [(offset, 0, 0)]
    transitions = []
    if offset and rng.random() < 0.7:
        types += [(offset, 0, 4), (offset + 3600, 1, 8)]
        times = sorted(rng.sample(range(-2**31, 2**31 - 1, 86399), rng.choice([1, 2, 7, 60, 236])))
        transitions = [(t, 1 + i % 2) for i, t in enumerate(times)]
    flags = rng.random() < 0.5
    version = rng.choice([b"\0", b"2", b"3"])
    data = block(leaps, version, False, transitions, types, names, flags)
    if version != b"\0":
        data += block(leaps, version, True, transitions, types, names, flags) + b"\nUTC0\n"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


LAST_DAY = (2**31 - 200) // 86400 - 1


def random_table(rng, kind):
    removed = {"real-like": 0, "single": 0.4, "removed": 0.9}.get(kind, 0.4 if rng.random() < 0.7 else 0)

    def close(days):
        out = []
        for d in sorted(set(days)):
            if not 0 <= d <= LAST_DAY:
                continue
            out.append([d, -1 if rng.random() < removed else 1])
        while len(out) > 50:  # the parser's own limit
            out.pop(rng.randrange(len(out)))
        return out

    def month_end():
        y, m = rng.randint(1970, 2036), rng.choice([3, 6, 9, 12])
        d = {3: 90, 6: 181, 9: 273, 12: 365}[m] - 1
        leap = y % 4 == 0
        return (y - 1970) * 365 + (y - 1969) // 4 + d + (1 if leap else 0)

    if kind == "real-like":
        return close([month_end() for _ in range(rng.randint(5, 40))])
    if kind == "adjacent":
        d = rng.randint(0, LAST_DAY - 60)
        return close([d + i for i in range(rng.randint(2, 12))] + [d + 30, d + 32])
    if kind == "mixed":
        return close([rng.randint(0, LAST_DAY) for _ in range(30)])
    if kind == "sparse":
        return close([rng.randint(0, LAST_DAY) for _ in range(3)])
    if kind == "dense":
        d = rng.randint(0, LAST_DAY - 200)
        return close([d + rng.randint(0, 150) for _ in range(45)])
    if kind == "removed":
        return close([month_end() for _ in range(rng.randint(2, 20))])
    if kind == "single":
        return close([rng.choice([0, 1, 58, 364, 788, 789, 11015, LAST_DAY, rng.randint(0, LAST_DAY)])])
    if kind == "many":
        return close([rng.randint(0, LAST_DAY - 1) for _ in range(200)])
    if kind == "interlocked":
        # days that additions from one another land on, so that several carries meet
        y0, out = rng.randint(1972, 2032), {}
        for y in range(y0, y0 + 5):
            for m, d in [(1, 31), (2, 28), (2, 29), (3, 1), (3, 2), (3, 3), (4, 30), (5, 1), (12, 31)]:
                day = datetime.date(y, m, 1).toordinal() - 719163 + d - 1
                if d < 29 or datetime.date.fromordinal(day + 719163).day == d:
                    out[day] = 1 if d >= 28 and rng.random() < 0.7 else -1
        days = [d for d in sorted(out) if rng.random() < 0.8 and d <= LAST_DAY]
        return [[d, out[d]] for d in days][:50]
    if kind == "start":
        return close([0, 1, rng.randint(2, 400)])
    return close([LAST_DAY, LAST_DAY - 1, LAST_DAY - rng.randint(2, 400)])


ZONES = [("UTC", 0), ("Somewhere/Else", 7200), ("Far/West", -12 * 3600), ("Odd", 20700)]


def write_tables(root, count, seed):
    """Returns [(directory, zone, table file)]."""
    rng = random.Random("tables %d" % seed)
    out = []
    for i in range(count):
        table = random_table(rng, CLASSES[i % len(CLASSES)])
        zone, offset = ZONES[(i // len(CLASSES) + i) % len(ZONES)]
        d = os.path.join(root, "%04d" % i)
        for z, o in sorted({("UTC", 0), (zone, offset)}):
            write_zone(os.path.join(d, "right", z), table, o, rng)
        path = os.path.join(d, "table.json")
        json.dump(table, open(path, "w"))
        out.append((d, zone, path))
    return out

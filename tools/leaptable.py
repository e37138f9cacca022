"""Independent reading of the leap-second table of a TZif file, as [[day, delta], ...]."""
import json
import struct
import sys


def read(path):
    data = open(path, "rb").read()
    assert data[:4] == b"TZif"
    isutc, isstd, leap, time, typ, char = struct.unpack(">6l", data[20:44])
    at = 44 + time * 5 + typ * 6 + char
    out, before = [], 0
    for i in range(leap):
        t, total = struct.unpack(">ll", data[at + 8 * i : at + 8 * i + 8])
        # t counts the leap seconds before it; it is the inserted second itself, or
        # the one after which a second is missing.
        delta = total - before
        utc = t - before
        day = utc // 86400 - 1 if utc % 86400 == 0 else utc // 86400
        assert (delta == 1 and utc % 86400 == 0) or (delta == -1 and utc % 86400 == 86399), (t, total)
        out.append([day, delta])
        before = total
    return out


if __name__ == "__main__":
    json.dump(read(sys.argv[1]), sys.stdout)

#!/usr/bin/env python3
"""complog.py A B ...: compares the event logs of one input stream run in several builds, value by value.
Log: u64 number of names, 32 bytes per name, then records (u64 name, u64 case, u64 n, n * (double value, double tolerance)).
A negative tolerance asks for the same value; otherwise the values may differ by three times the larger allowance."""
import json, math, struct, sys

def main():
    files = [open(p, "rb") for p in sys.argv[1:]]
    labels = [p.split("/")[-1].split(".")[0] for p in sys.argv[1:]]
    count = {struct.unpack("<Q", f.read(8))[0] for f in files}
    assert len(count) == 1, "logs of different programs"
    n = count.pop()
    names = [f.read(32 * n) for f in files]
    assert all(x == names[0] for x in names)
    names = [names[0][i * 32:i * 32 + 32].split(b"\0")[0].decode() for i in range(n)]
    stats = dict(records=0, values=0, identical=0, exact=0, within_rounding=0, largest_used_share_of_allowance=0.0, builds=labels)
    shown = {}
    def fail(i, msg):
        key = "differs:" + names[i].replace(" ", "-")
        shown[key] = shown.get(key, 0) + 1
        if shown[key] <= 2:
            print("FAIL\t%s\t%s" % (key, msg))
    while True:
        heads = [f.read(24) for f in files]
        if not any(heads):
            break
        if not all(len(h) == 24 for h in heads):
            fail(0, "logs end at different points"); break
        h = [struct.unpack("<QQQ", x) for x in heads]
        assert all(x[:2] == h[0][:2] for x in h), "logs out of step"
        i, case = h[0][:2]
        data = [f.read(16 * x[2]) for f, x in zip(files, h)]
        stats["records"] += 1; stats["values"] += h[0][2]
        if all(d == data[0] for d in data):
            stats["identical"] += h[0][2]; continue
        if any(x[2] != h[0][2] for x in h):
            fail(i, "%s, case %d: %s observed values in %s" % (names[i], case, "/".join(str(x[2]) for x in h), "/".join(labels))); continue
        vals = [list(struct.iter_unpack("<dd", d)) for d in data]
        for k in range(h[0][2]):
            a, ta = vals[0][k]
            for j in range(1, len(vals)):
                b, tb = vals[j][k]
                if a == b or (a != a and b != b):
                    stats["identical"] += j == 1; continue
                if ta < 0 or tb < 0:
                    fail(i, "%s, case %d, value %d: %s gives %.9g, %s gives %.9g, which must be the same" % (names[i], case, k, labels[0], a, labels[j], b)); continue
                t = 3 * max(ta, tb)
                if not (abs(a - b) <= t):
                    fail(i, "%s, case %d, value %d: %s gives %.9g, %s gives %.9g, allowed difference %.3g" % (names[i], case, k, labels[0], a, labels[j], b, t)); continue
                stats["within_rounding"] += 1
                if t > 0 and not math.isinf(t):
                    stats["largest_used_share_of_allowance"] = max(stats["largest_used_share_of_allowance"], abs(a - b) / t)
    for k, c in shown.items():
        if c > 2:
            print("FAIL\t%s\t%d more" % (k, c - 2))
    del stats["exact"]
    print("STATS\t" + json.dumps(stats))

if __name__ == "__main__":
    main()

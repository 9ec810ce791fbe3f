"""P15: byte order and bit packing."""
from vf import hist


def run(ctx):
    b = ctx.build("bytes", ["bytes.cc"], ["common/DataConvert.cc"])
    r = ctx.rng
    ev = []

    def by(n):
        return [r.choice([0, 255, 1, 128, r.randrange(256)]) for _ in range(n)]
    for w in (1, 2, 4, 8):
        for n in range(0, ctx.n(9, 20)):
            for extra in (0, 0, 3):
                hows = {1: ["arrs", "arru", "arrf"], 2: ["inplace", "copy", "arrs", "arru"],
                        4: ["inplace", "copy", "float", "floatcopy", "arrs", "arru", "arrf"],
                        8: ["inplace", "copy", "float", "floatcopy", "arrs", "arru", "arrf"]}[w]
                for how in hows:
                    ev.append({"op": "swap", "w": w, "n": n, "how": how, "in": by(w * n + extra)})
                if w >= 4 and n % 2 == 0:
                    ev.append({"op": "swap", "w": w, "n": n, "how": "arrc", "in": by(w * n + extra)})
        for how in (["one", "copy1", "vals", "valu"] if w > 1 else ["valu"]):
            for _ in range(ctx.n(10, 100)):
                ev.append({"op": "swap", "w": w, "n": 1, "how": how, "in": by(w)})
    # all starts and lengths
    for start in range(0, ctx.n(18, 34)):
        for n in range(0, ctx.n(27, 60)):
            nb = (start + n + 7) // 8
            for extra in ((0, 1) if n else (0,)):
                buf = by(nb + extra)
                ev.append({"op": "pack", "start": start, "buf": buf, "v": [r.randrange(2) for _ in range(n)]})
                ev.append({"op": "unpack", "start": start, "buf": buf, "n": n})
    ctx.conform(b, hist(ev), "BytesTrace.tla")
    ctx.assumptions.append("the bits behind the packed ones in the last used byte are left open")

"""Generators shared by the checks."""


def hexs(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() or "-"


def codes(s):
    return list(s.encode("latin-1")) if isinstance(s, str) else list(s)


def ev(q, d, x=0, y=0, w=0, h=0):
    return {"q": codes(q), "d": codes(d), "x": x, "y": y, "w": w, "h": h}


def ev_line(e):
    return "%s %s %d %d %d %d" % (hexs(bytes(e["q"])), hexs(bytes(e["d"])), e["x"], e["y"], e["w"], e["h"])


def deep(rng, names, p=0.06):
    """Now and then: long names that differ in the end (or the beginning) only."""
    if rng.random() > p:
        return names
    pad = rng.choice(["x", "ab", "Q-"]) * 200
    pad = pad[:rng.choice([7, 8, 15, 16, 31, 32, 63, 64, 70, 127, 128, 150, 260])]
    return [pad + n for n in names] if rng.random() < 0.7 else [n + pad for n in names]


LABELS = ["a", "b", "ab", "B", "a0", "\xe9"]


def box(rng, style=None):
    """Small boxes with many coincidences."""
    style = style or rng.choice(["grid", "grid", "rand", "line", "unit"])
    if style == "grid":
        return rng.randint(0, 3) * 2, rng.randint(0, 3) * 2, rng.randint(0, 3) * 2, rng.randint(0, 3) * 2
    if style == "unit":
        return rng.randint(0, 3), rng.randint(0, 3), 1, rng.randint(0, 2)
    if style == "line":
        return rng.randint(0, 12), 0, rng.randint(1, 12), 10
    return rng.randint(0, 60), rng.randint(0, 60), rng.randint(0, 60), rng.randint(0, 60)

"""Where along a line of inputs does a reference model change its answer?"""


def edges(ref, a, b, steps, width, unsure):
    """pairs (x, y) no further apart than about width, in a..b, between which ref changes; None where it raises unsure"""
    def at(x):
        try:
            return ref(x)
        except unsure:
            return None

    xs = [a + (b - a) * i / steps for i in range(steps + 1)]
    vs = [at(x) for x in xs]
    out = []
    last = None
    for x, v in zip(xs, vs):
        if v is None:
            continue
        if last is not None and v != last[1]:
            lo, hi = last[0], x
            while hi - lo > width:
                mid = (lo + hi) / 2
                m = at(mid)
                if m is None:
                    # too close to call: step off to either side
                    for off in (0.25, -0.25, 0.4, -0.4):
                        mid = (lo + hi) / 2 + off * (hi - lo)
                        m = at(mid)
                        if m is not None:
                            break
                    else:
                        break
                if m == last[1]:
                    lo = mid
                else:
                    hi = mid
            out.append((lo, hi))
        last = (x, v)
    return out

def hex_to_rgba(h, alpha=1.0):
    h = h.lstrip("#")
    return tuple([int(h[i : i + 2], 16) for i in (0, 2, 4)] + [int(alpha * 255)])


def hex_to_rgba_float(h, alpha=1.0):
    h = h.lstrip("#")
    return tuple([int(h[i : i + 2], 16) / 255.0 for i in (0, 2, 4)] + [alpha])

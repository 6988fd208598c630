"""Reading the commands that to_fibre_section writes (suanPan)."""
from __future__ import annotations

ORDER = {  # what follows the tag
    "2D": ("area", "material", "y"),
    "3D": ("area", "material", "y", "z"),
    "3DOS": ("area", "omega", "py", "pz", "material", "y", "z"),
}


def normal(name):
    return "-".join(name.split())


def parse(text, kind):
    """(fibre tag, [cell tags of the fibre command], {cell tag: {field: text}}); None: not readable."""
    lines, part = [], ""
    for raw in text.split("\n"):
        if raw.lstrip().startswith("#"):
            continue
        if raw.endswith("\\"):
            part += raw[:-1] + " "
            continue
        lines.append((part + raw).split())
        part = ""
    if part:
        return None
    fibre, cells = None, {}
    for w in lines:
        if not w:
            continue
        if w[0] != "section" or len(w) < 3:
            return None
        if w[1] == f"Fibre{kind}":
            if fibre is not None:
                return None
            fibre = (w[2], w[3:])
        elif w[1] == f"Cell{kind}":
            if w[2] in cells or len(w) != 3 + len(ORDER[kind]):
                return None
            cells[w[2]] = dict(zip(ORDER[kind], w[3:]))
        else:
            return None
    return (*fibre, cells) if fibre else None

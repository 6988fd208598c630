"""Run-time contracts of displayed results (bounded: random sections)."""
from __future__ import annotations

import contextlib
import io

from rt import gen


def rows(text):
    out = {}
    for line in text.splitlines():
        if "│" in line:
            c = [x.strip() for x in line.strip().strip("│").split("│")]
            if len(c) == 2:
                if c[0] in out:
                    raise AssertionError(f"row '{c[0]}' twice")
                out[c[0]] = c[1]
    return out


def capture(f, *a, **k):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f(*a, **k)
    return rows(b.getvalue())


def displayed(case):
    from .c35 import COMPOSITE, DIVIDED, PLAIN, TRANSFORMED

    rng = case.rng
    sec = gen.section(rng, rng.choice([None, "composite", "equal"]), rng.choice([15, 40]))
    comp = sec.is_composite()
    done = []
    analyses = ["geometric", "warping", "plastic", "frame"]
    for a in analyses:
        if rng.random() < 0.6:
            if a in ("warping", "plastic") and "geometric" not in done:
                continue
            try:
                getattr(sec, f"calculate_{a}_properties")()
            except (RuntimeError, ValueError, ZeroDivisionError) as e:
                case.note(failed=f"{a} {e}")
            done.append(a)
    fmt = rng.choice(["8.6e", ".4f", "12.5g"])
    case.info.update(done=done, fmt=fmt, composite=comp)

    def get(t, label):
        g, k = t[label]
        try:
            v = getattr(sec, g)()
        except RuntimeError:
            return None
        return v if k is None else v[k]

    t = COMPOSITE if comp else PLAIN
    got = capture(sec.display_results, fmt=fmt)
    compare(case, got, {a: get(t, a) for a in t}, fmt)
    before = sec.section_props.asdict()
    if not comp:
        try:
            sec.display_transformed_results(e_ref=2.0)
        except RuntimeError:
            case.ensure("no transformed results", True)
        else:
            case.ensure("no transformed results", False)
        return
    e = rng.choice([rng.uniform(0.5, 300), sec.materials[0]])
    ev = e if isinstance(e, float) else e.elastic_modulus
    got = capture(sec.display_transformed_results, e, fmt=fmt)
    want = {a: get(TRANSFORMED, a) for a in TRANSFORMED}
    for a in DIVIDED:
        v = get(DIVIDED, a)
        want[a] = None if v is None else v / ev
    want["e_ref"] = ev
    compare(case, got, want, fmt)
    after = sec.section_props.asdict()
    case.ensure("results kept", all(before[k] is after[k] or before[k] == after[k] for k in before
                                    if k not in ("omega", "psi_shear", "phi_shear")))


def compare(case, got, want, fmt):
    for a in sorted(set(got) | set(want)):
        v = want.get(a)
        case.ensure(f"'{a}' shown exactly when computed", (a in got) == (v is not None))
        if a in got and v is not None:
            case.ensure(f"value of '{a}'", got[a] == f"{v:>{fmt}}".strip(), f"{got[a]} {v}")

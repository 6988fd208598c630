"""What each steel and primitive section is, from its documented dimensions: signed plates and fillets.

Every entry gives: the module and function, a sampler of admissible dimensions, the conditions under which they are
admissible, and the specification (rings of signed chains, extents)."""
from __future__ import annotations

from .libmodel import Arc, corner_fillet, fillet, mirror_x, mirror_y, rect


class Spec:
    def __init__(self, mod, fn, names, build, sample, conds=lambda d: [], variants=None, pos=None, closed=True):
        self.mod, self.fn, self.names, self.build = mod, fn, names, build
        self.sample, self.conds = sample, conds
        self.variants = variants or [names]
        self.radii = tuple(n for n in names if n.startswith("r"))


SPECS: dict[str, Spec] = {}


def spec(mod, names, sample, conds=lambda **d: [], variants=None):
    names = names.split()

    def deco(f):
        SPECS[f.__name__] = Spec(mod, f.__name__, names, f, sample, conds, variants)
        return f

    return deco


def u(rng, a=0.5, b=5.0):
    return rng.uniform(a, b)


def rad(rng, top):
    """Zero, the limit or anything between."""
    k = rng.random()
    return 0 if k < 0.25 else top if k < 0.35 else rng.uniform(0.02, 1) * top


def Q(np, x, y, sx, sy, r, sign=1):
    s, c = fillet(np, x, y, sx, sy, r)
    return sign * s, c


def P(*p):
    return [(1, rect(*p))]


# ------------------------------------------------------------------ primitive
@spec("primitive_sections", "d b", lambda r: dict(d=u(r), b=u(r)))
def rectangular_section(np, d, b):
    return [P(0, 0, b, d)], (0, 0, b, d)


@spec("primitive_sections", "b h", lambda r: dict(b=u(r), h=u(r)))
def triangular_section(np, b, h):
    return [[(1, [(0, 0), (b, 0), (0, h)])]], (0, 0, b, h)


@spec("primitive_sections", "b n_r", lambda r: dict(b=u(r)))
def triangular_radius_section(np, b):
    return [[Q(np, 0, 0, 1, 1, b)]], (0, 0, b, b)


def s_cruciform(r):
    t = u(r, 0.2, 2)
    k = r.random()
    rr = 0 if k < 0.3 else u(r, 0.05, 2)
    d, b = t + 2 * rr + u(r, 0.01, 3), t + 2 * rr + u(r, 0.01, 3)
    return dict(d=d, b=b, t=t, r=rr)


@spec("primitive_sections", "d b t r n_r", s_cruciform, lambda d, b, t, r: [r >= 0, d > t + 2 * r, b > t + 2 * r])
def cruciform_section(np, d, b, t, r):
    return [P(-t / 2, -d / 2, t / 2, d / 2) + P(-b / 2, -t / 2, -t / 2, t / 2) + P(t / 2, -t / 2, b / 2, t / 2)
            + [Q(np, sx * t / 2, sy * t / 2, sx, sy, r) for sx in (1, -1) for sy in (1, -1)]], (-b / 2, -d / 2, b / 2, d / 2)


# ------------------------------------------------------------------ steel
def s_rhs(r, variant=()):
    t, t_w = u(r, 0.1, 1), u(r, 0.1, 1)
    d, b = 2 * t + u(r, 0.2, 4), 2 * t_w + u(r, 0.2, 4)
    if "t_w" not in variant:
        t_w = t
        b = 2 * t + u(r, 0.2, 4)
    o = dict(d=d, b=b, t=t)
    ins = rad(r, min(d - 2 * t, b - 2 * t_w) / 2 * 0.99)
    if "t_w" in variant:
        o["t_w"] = t_w
    if "r_in" in variant:
        o["r_in"] = ins
        # the wall at the corner keeps some thickness
        o["r_out"] = rad(r, min(ins + min(t, t_w), d / 2 * 0.99, b / 2 * 0.99))
    else:
        o["r_out"] = rad(r, min(ins + max(t, t_w), d / 2 * 0.99, b / 2 * 0.99))
    return o


def c_rhs(d, b, t, r_out, r_in=None, t_w=None):
    w = t if t_w is None else t_w
    c = [r_out >= 0, d > 2 * t, b > 2 * w, 2 * r_out < d, 2 * r_out < b]
    if r_in is not None:
        c += [r_in >= 0, 2 * r_in < d - 2 * t, 2 * r_in < b - 2 * w]
    return c


@spec("steel_sections", "d b t r_out n_r r_in t_w", s_rhs, c_rhs,
      ["d b t r_out n_r".split(), "d b t r_out n_r t_w".split(), "d b t r_out n_r r_in".split(), "d b t r_out n_r r_in t_w".split()])
def rectangular_hollow_section(np, d, b, t, r_out, r_in=None, t_w=None):
    if t_w is None:
        t_w = t
    if r_in is None:
        thick = t if t >= t_w else t_w
        r_in = r_out - thick if r_out > thick else 0
    cut = lambda x0, y0, x1, y1, r: [Q(np, x, y, sx, sy, r, -1) for x, sx in ((x0, 1), (x1, -1)) for y, sy in ((y0, 1), (y1, -1))]
    i = (t_w, t, b - t_w, d - t)
    return [P(0, 0, b, d) + cut(0, 0, b, d, r_out), P(*i) + cut(*i, r_in)], (0, 0, b, d)


def s_i(r):
    t_f, t_w = u(r, 0.1, 1), u(r, 0.1, 1)
    rr = rad(r, 1)
    return dict(d=2 * t_f + 2 * rr + (0 if rr and r.random() < 0.1 else u(r, 0.1, 5)), b=t_w + 2 * rr + u(r, 0.05, 4), t_f=t_f, t_w=t_w, r=rr)


@spec("steel_sections", "d b t_f t_w r n_r", s_i, lambda d, b, t_f, t_w, r: [r >= 0, b > t_w + 2 * r, d > 2 * t_f + 2 * r])
def i_section(np, d, b, t_f, t_w, r):
    x0, x1 = (b - t_w) / 2, (b + t_w) / 2
    return [P(0, 0, b, t_f) + P(0, d - t_f, b, d) + P(x0, t_f, x1, d - t_f)
            + [Q(np, x, y, sx, sy, r) for x, sx in ((x0, -1), (x1, 1)) for y, sy in ((t_f, 1), (d - t_f, -1))]], (0, 0, b, d)


def s_mono(r):
    t_ft, t_fb, t_w = u(r, 0.1, 1), u(r, 0.1, 1), u(r, 0.1, 1)
    rr = rad(r, 1)
    return dict(d=t_ft + t_fb + 2 * rr + u(r, 0.1, 5), b_t=t_w + 2 * rr + u(r, 0.05, 4), b_b=t_w + 2 * rr + u(r, 0.05, 4), t_ft=t_ft, t_fb=t_fb, t_w=t_w, r=rr)


@spec("steel_sections", "d b_t b_b t_ft t_fb t_w r n_r", s_mono,
      lambda d, b_t, b_b, t_ft, t_fb, t_w, r: [r >= 0, b_t > t_w + 2 * r, b_b > t_w + 2 * r, d > t_ft + t_fb + 2 * r])
def mono_i_section(np, d, b_t, b_b, t_ft, t_fb, t_w, r):
    w = b_t if b_t >= b_b else b_b
    c = w / 2
    x0, x1 = c - t_w / 2, c + t_w / 2
    return [P(c - b_b / 2, 0, c + b_b / 2, t_fb) + P(c - b_t / 2, d - t_ft, c + b_t / 2, d) + P(x0, t_fb, x1, d - t_ft)
            + [Q(np, x, y, sx, sy, r) for x, sx in ((x0, -1), (x1, 1)) for y, sy in ((t_fb, 1), (d - t_ft, -1))]], (0, 0, w, d)


def taper(np, alpha):
    return alpha * np.pi / 180


def s_taper(r, channel=False):
    import math

    t_f, t_w, alpha = u(r, 0.3, 1), u(r, 0.2, 1), r.choice([r.uniform(1, 14), 8])
    s = u(r, 0.5, 1.2) * (1 if channel else 0.5)  # half the outstand
    ta = math.tan(math.radians(alpha))
    half = s
    out = 2 * half
    r_f = rad(r, 0.8 * (t_f - half * ta))
    r_r = rad(r, 0.4 * out)
    d = 2 * (t_f + half * ta + 1.2 * r_r) + u(r, 0.2, 4)
    b = (t_w + out) if channel else (t_w + 2 * out)
    return dict(d=d, b=b, t_f=t_f, t_w=t_w, r_r=r_r, r_f=r_f, alpha=alpha)


def half_flange(np, b, x_w, t_f, r_r, r_f, alpha):
    """The bottom flange to the right of the web face x_w: t_f thick at mid outstand, sloping by alpha."""
    a = taper(np, alpha)
    ta = np.sin(a) / np.cos(a)
    s = (b - x_w) / 2
    toe, root = t_f - s * ta, t_f + s * ta
    k, f = corner_fillet(np, (b, toe), np.pi - a, np.pi * 3 / 2, r_f)
    return [(1, [(x_w, 0), (b, 0), (b, toe), (x_w, root)]), (-k, f), corner_fillet(np, (x_w, root), -a, np.pi / 2, r_r)]


@spec("steel_sections", "d b t_f t_w r_r r_f alpha n_r", s_taper, lambda d, b, t_f, t_w, r_r, r_f, alpha: [r_r >= 0, r_f >= 0, b > t_w])
def tapered_flange_i_section(np, d, b, t_f, t_w, r_r, r_f, alpha):
    q = half_flange(np, b, (b + t_w) / 2, t_f, r_r, r_f, alpha)
    h = q + mirror_y(np, q, d / 2)
    return [P((b - t_w) / 2, 0, (b + t_w) / 2, d) + h + mirror_x(np, h, b / 2)], (0, 0, b, d)


@spec("steel_sections", "d b t_f t_w r_r r_f alpha n_r", lambda r: s_taper(r, True),
      lambda d, b, t_f, t_w, r_r, r_f, alpha: [r_r >= 0, r_f >= 0, b > t_w])
def tapered_flange_channel(np, d, b, t_f, t_w, r_r, r_f, alpha):
    q = half_flange(np, b, t_w, t_f, r_r, r_f, alpha)
    return [P(0, 0, t_w, d) + q + mirror_y(np, q, d / 2)], (0, 0, b, d)


def s_channel(r):
    t_f, t_w = u(r, 0.1, 1), u(r, 0.1, 1)
    rr = rad(r, 1)
    return dict(d=2 * t_f + 2 * rr + u(r, 0.1, 5), b=t_w + rr + u(r, 0.05, 4), t_f=t_f, t_w=t_w, r=rr)


@spec("steel_sections", "d b t_f t_w r n_r", s_channel, lambda d, b, t_f, t_w, r: [r >= 0, b > t_w + r, d > 2 * t_f + 2 * r])
def channel_section(np, d, b, t_f, t_w, r):
    return [P(0, 0, t_w, d) + P(t_w, 0, b, t_f) + P(t_w, d - t_f, b, d)
            + [Q(np, t_w, t_f, 1, 1, r), Q(np, t_w, d - t_f, 1, -1, r)]], (0, 0, b, d)


def s_tee(r):
    t_f, t_w = u(r, 0.1, 1), u(r, 0.1, 1)
    rr = rad(r, 1)
    return dict(d=t_f + rr + u(r, 0.1, 5), b=t_w + 2 * rr + u(r, 0.05, 4), t_f=t_f, t_w=t_w, r=rr)


@spec("steel_sections", "d b t_f t_w r n_r", s_tee, lambda d, b, t_f, t_w, r: [r >= 0, b > t_w + 2 * r, d > t_f + r])
def tee_section(np, d, b, t_f, t_w, r):
    x0, x1 = (b - t_w) / 2, (b + t_w) / 2
    return [P(0, d - t_f, b, d) + P(x0, 0, x1, d - t_f) + [Q(np, x0, d - t_f, -1, -1, r), Q(np, x1, d - t_f, 1, -1, r)]], (0, 0, b, d)


def s_angle(r):
    t = u(r, 0.1, 1)
    rr = rad(r, 1)
    rt = rad(r, t)
    if r.random() < 0.1:
        rt = t * (1 - 10.0 ** r.choice([r.uniform(-4.5, -2), r.uniform(-13, -10)]))  # not within the tolerance that drops the corner, or equal
    return dict(d=t + rr + rt + u(r, 0.1, 5), b=t + rr + rt + u(r, 0.05, 4), t=t, r_r=rr, r_t=rt)


@spec("steel_sections", "d b t r_r r_t n_r", s_angle,
      lambda d, b, t, r_r, r_t: [r_r >= 0, r_t >= 0, r_t <= t, d > t + r_r + r_t, b > t + r_r + r_t])
def angle_section(np, d, b, t, r_r, r_t):
    return [P(0, 0, t, d) + P(t, 0, b, t) + [Q(np, t, t, 1, 1, r_r), Q(np, b, t, -1, -1, r_t, -1), Q(np, t, d, -1, -1, r_t, -1)]], (0, 0, b, d)


def s_cee(r):
    t = u(r, 0.1, 1)
    ro = rad(r, 2)
    l = r.choice([lambda: u(r, 0.2, 1) * t, lambda: t, lambda: t + u(r, 0, 1) * max(ro - t, 0.0), lambda: max(ro, t) + u(r, 0.05, 1), lambda: ro or t])()
    if ro < l < t:  # a lip has to be thicker than the flange it stands on, or there is none
        l = t
    m = max(ro, t, l)
    return dict(d=2 * m + u(r, 0.1, 5), b=2 * m + t + u(r, 0.05, 4), l=l, t=t, r_out=ro)


def lip(l, t, r_out):
    """Radii of the lip corner (outer, inner)."""
    r_in = r_out - t if r_out > t else 0
    if l > r_out:
        return r_in, r_out, r_in
    if l > t:
        return r_in, l, l - t
    return r_in, 0, 0


@spec("steel_sections", "d b l t r_out n_r", s_cee,
      lambda d, b, l, t, r_out: [r_out >= 0, d > 2 * r_out, d > 2 * l, d > 2 * t, b > 2 * r_out, b > 2 * t, (l >= t) | (l <= r_out)])
def cee_section(np, d, b, l, t, r_out):
    r_in, lo, li = lip(l, t, r_out)
    out = P(0, 0, t, d) + P(t, 0, b, t) + P(t, d - t, b, d)
    if l > t:
        out = out + P(b - t, t, b, l) + P(b - t, d - l, b, d - t)
    out = out + [Q(np, 0, 0, 1, 1, r_out, -1), Q(np, 0, d, 1, -1, r_out, -1), Q(np, b, 0, -1, 1, lo, -1), Q(np, b, d, -1, -1, lo, -1)]
    out = out + [Q(np, t, t, 1, 1, r_in), Q(np, t, d - t, 1, -1, r_in), Q(np, b - t, t, -1, 1, li), Q(np, b - t, d - t, -1, -1, li)]
    return [out], (0, 0, b, d)


def s_zed(r):
    o = s_cee(r)
    b = o.pop("b")
    m = max(o["r_out"], o["t"], o["l"])
    return dict(o, b_l=b, b_r=2 * m + o["t"] + u(r, 0.05, 4))


@spec("steel_sections", "d b_l b_r l t r_out n_r", s_zed,
      lambda d, b_l, b_r, l, t, r_out: [r_out >= 0, d > 2 * r_out, d > 2 * l, d > 2 * t, b_l > 2 * r_out, b_l > 2 * t, b_r > 2 * r_out,
                                        b_r > 2 * t, (l >= t) | (l <= r_out)])
def zed_section(np, d, b_l, b_r, l, t, r_out):
    r_in, lo, li = lip(l, t, r_out)
    x = t - b_l  # the left end
    out = P(0, 0, t, d) + P(t, 0, b_r, t) + P(x, d - t, 0, d)
    if l > t:
        out = out + P(b_r - t, t, b_r, l) + P(x, d - l, x + t, d - t)
    out = out + [Q(np, 0, 0, 1, 1, r_out, -1), Q(np, t, d, -1, -1, r_out, -1), Q(np, b_r, 0, -1, 1, lo, -1), Q(np, x, d, 1, -1, lo, -1)]
    out = out + [Q(np, t, t, 1, 1, r_in), Q(np, 0, d - t, -1, -1, r_in), Q(np, b_r - t, t, -1, 1, li), Q(np, x + t, d - t, 1, -1, li)]
    return [out], (x, 0, b_r, d)


def s_box(r):
    t_ft, t_fb, t_w = u(r, 0.1, 0.6), u(r, 0.1, 0.6), u(r, 0.1, 0.6)
    b_t = u(r, 2.5, 8)
    return dict(d=u(r, 2, 5), b_t=b_t, b_b=r.choice([b_t, u(r, 2.5, 8)]), t_ft=t_ft, t_fb=t_fb, t_w=t_w)


@spec("steel_sections", "d b_t b_b t_ft t_fb t_w", s_box, lambda d, b_t, b_b, t_ft, t_fb, t_w: [(b_t > b_b) | (b_t < b_b)])
def box_girder_section(np, d, b_t, b_b, t_ft, t_fb, t_w):
    w = b_t if b_t > b_b else b_b
    c = w / 2
    k = (b_t - b_b) / 2
    horiz = t_w * np.sqrt(d * d + k * k) / d  # width of the web measured horizontally
    side = lambda y: b_b / 2 + k * y / d
    trap = lambda y0, y1, less: [(1, [(c - side(y0) + less, y0), (c + side(y0) - less, y0), (c + side(y1) - less, y1), (c - side(y1) + less, y1)])]
    return [trap(0, d, 0), trap(t_fb, d - t_ft, horiz)], (0, 0, w, d)


def s_bulb(r, variant=()):
    t, rr = u(r, 0.2, 1), rad(r, 0.8)
    b = rr * 1.2 + u(r, 0.05, 2)
    d = b + 3 * rr + u(r, 0.5, 4) + 1
    o = dict(d=d, b=b, t=t, r=rr)
    if "d_b" in variant:
        o["d_b"] = rr * 0.5 / (3 ** 0.5 / 2) + rr + b / 3 ** 0.5 + u(r, -0.2, 0.3) * rr
    return o


@spec("steel_sections", "d b t r n_r d_b", s_bulb, lambda d, b, t, r, d_b=None: [r >= 0, b > 2 * r, d > 2 * b + 4 * r] + ([] if d_b is None else [d_b > 2 * r, d_b < d]),
      ["d b t r n_r".split(), "d b t r n_r d_b".split()])
def bulb_section(np, d, b, t, r, d_b=None):
    s3 = np.sqrt(3)
    std = r / s3 + r + b / s3  # the underside of the bulb rises at 30 degrees and is tangent to its round
    depth = std if d_b is None else d_b
    root = (t / 2, d - depth)
    c = (t / 2 + b - r, d - r)
    _, (_, f) = corner_fillet(np, root, -np.pi / 2, np.pi / 6, r)
    bulb = [Arc(c, r, -np.pi / 3, np.pi / 3), Arc(c, r, 0 * np.pi, np.pi / 2)]
    if d_b is None:
        return [P(-t / 2, 0, t / 2, d) + [(1, [root, *bulb, (t / 2, d)]), (1, [root, f])]], (-t / 2, 0, b + t / 2, d)
    f = Arc(f.c, f.r, -np.pi, -np.pi / 3)
    return [P(-t / 2, 0, t / 2, d) + [(1, [f, *bulb, (t / 2, d)])]], (-t / 2, 0, b + t / 2, d)

"""The documented benchmark functions, written independently (plain math, no numpy); each returns (value, scale of the terms)."""
import math

pi, e, sin, cos, exp, sqrt = math.pi, math.e, math.sin, math.cos, math.exp, math.sqrt


def ackley(x):
    n = len(x)
    a = 20 * exp(-0.2 * sqrt(math.fsum(t * t for t in x) / n))
    b = exp(math.fsum(cos(2 * pi * t) for t in x) / n)
    return 20 + e - a - b, 30


def branin(x):
    u, v = x
    q = v - 5.1 * u * u / (4 * pi * pi) + 5 * u / pi - 6
    return q * q + 10 * (1 - 1 / (8 * pi)) * cos(u) + 10, q * q + 200


def exponential(x):
    t = [exp(i * y) for i, y in enumerate(x, 1)]
    return math.fsum(t) - math.fsum(exp(-5.12 * i) for i in range(1, len(x) + 1)), math.fsum(t) + 1


def goldstein_price(x):
    a, b = x
    p = 1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b)
    q = 30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b)
    s = (1 + (abs(a) + abs(b) + 1) ** 2 * 200) * (30 + (2 * abs(a) + 3 * abs(b)) ** 2 * 600)
    return p * q, s


def griewank(x):
    p = 1.0
    for i, y in enumerate(x, 1):
        p *= cos(y / sqrt(i))
    s = math.fsum(y * y for y in x) / 4000
    return 1 + s - p, 2 + s


A3 = [[3, 10, 30], [0.1, 10, 35], [3, 10, 30], [0.1, 10, 35]]
P3 = [[3689, 1170, 2673], [4699, 4387, 7470], [1091, 8732, 5547], [381, 5743, 8828]]
A6 = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
P6 = [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991],
      [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]]


def hartmann(A, P):
    def f(x):
        v = 0.0
        for al, a, p in zip((1.0, 1.2, 3.0, 3.2), A, P):
            v -= al * exp(-math.fsum(c * (y - q * 1e-4) ** 2 for c, y, q in zip(a, x, p)))
        return v, 10

    return f


def himmelblau(x):
    return (math.fsum(y ** 4 - 16 * y * y + 5 * y for y in x) / (2.0 * len(x)),
            math.fsum(y ** 4 + 16 * y * y + 5 * abs(y) for y in x) / len(x) + 1)


def levy(x):
    w = [1 + (y - 1) / 4 for y in x]
    v = sin(pi * w[0]) ** 2
    for t in w[:-1]:
        v += (t - 1) ** 2 * (1 + 10 * sin(pi * t + 1) ** 2)
    v += (w[-1] - 1) ** 2 * (1 + sin(2 * pi * w[-1]) ** 2)
    return v, abs(v) + 1


def michalewicz(x):
    v = -math.fsum(sin(y) * sin(i * y * y / pi) ** 20 for i, y in enumerate(x, 1))
    return v, len(x) * (1 + len(x))


def perm(x):
    d = len(x)
    v = s = 0.0
    for k in range(1, d + 1):
        t = [(j + 10) * (y ** k - (1.0 / j) ** k) for j, y in enumerate(x, 1)]
        v += math.fsum(t) ** 2
        s += math.fsum((j + 10) * (abs(y) ** k + 1) for j, y in enumerate(x, 1)) ** 2
    return v, s


def rastrigin(x):
    return 10 * len(x) + math.fsum(y * y - 10 * cos(2 * pi * y) for y in x), 40 * len(x)


def rosenbrock(x):
    t = [(100 * (y * y - z) ** 2, (1 - y) ** 2) for y, z in zip(x, x[1:])]
    s = math.fsum(100 * (y * y + abs(z)) ** 2 for y, z in zip(x, x[1:]))
    return math.fsum(a + b for a, b in t), s + 10


def schwefel(x):
    # the constant is documented as 418.982997 and as 418.9829 per coordinate; either is accepted
    return 418.9829 * len(x) - math.fsum(y * sin(sqrt(abs(y))) for y in x), 1000.0 * len(x)


def six_hump_camel(x):
    a, b = x
    return ((4 - 2.1 * a * a + a ** 4 / 3) * a * a + a * b + (4 * b * b - 4) * b * b,
            (4 + 2.1 * a * a + a ** 4) * a * a + abs(a * b) + (4 * b * b + 4) * b * b + 1)


def sphere(x):
    v = math.fsum(y * y for y in x)
    return v, v + 1e-300


def sum_of_squares(x):
    v = math.fsum(i * y * y for i, y in enumerate(x, 1))
    return v, v + 1e-300


def weierstrass(x):
    f0 = math.fsum(0.5 ** k * cos(pi * 3 ** k) for k in range(12))
    v = math.fsum(0.5 ** k * cos(2 * pi * 3 ** k * (y + 0.5)) for y in x for k in range(12)) / len(x)
    return 10 * (v - f0) ** 3, 10 * 64 * 100


def zakharov(x):
    q = math.fsum(y * y for y in x)
    w = math.fsum(0.5 * i * y for i, y in enumerate(x, 1))
    a = math.fsum(0.5 * i * abs(y) for i, y in enumerate(x, 1))
    return q + w ** 2 + w ** 4, q + a ** 2 + a ** 4 + 1e-300


# name: (function, fixed dimension or None, smallest dimension, documented bounds or None, extra tolerance per dimension)
ALL = dict(
    Ackley=(ackley, None, 1, (-15, 20), 0),
    Branin=(branin, 2, 2, None, 0),
    Exponential=(exponential, None, 1, (-5.12, 5.12), 0),
    GoldsteinPrice=(goldstein_price, 2, 2, None, 0),
    Griewank=(griewank, None, 1, (-512, 512), 0),
    Hartmann3=(hartmann(A3, P3), 3, 3, (0, 1), 0),
    Hartmann6=(hartmann(A6, P6), 6, 6, (0, 1), 0),
    Himmelblau=(himmelblau, None, 1, None, 0),
    Levy=(levy, None, 1, None, 0),
    Michalewicz=(michalewicz, None, 1, (0, math.pi), 0),
    Perm=(perm, None, 1, None, 0),
    Rastrigin=(rastrigin, None, 1, (-5.12, 5.12), 0),
    Rosenbrock=(rosenbrock, None, 1, (-2.048, 2.048), 0),
    Schwefel=(schwefel, None, 1, (-512, 512), 1.2e-4),
    SixHumpCamel=(six_hump_camel, 2, 2, None, 0),
    Sphere=(sphere, None, 1, (-5.12, 5.12), 0),
    SumOfSquares=(sum_of_squares, None, 1, None, 0),
    Weierstrass=(weierstrass, None, 1, None, 0),
    Zakharov=(zakharov, None, 1, None, 0),
)

"""Published coefficients (independent of the code under test)."""
import json
import os
from fractions import Fraction as Fr


def fr(rows):
    return [[Fr(x) for x in r] for r in rows]


_D = json.load(open(os.path.join(os.path.dirname(__file__), "dop853.json")))

# name -> (A rows below the diagonal, b, c)
BUTCHER = {
    "Runge2": ([[], [Fr(1, 2)]], [0, 1], [0, Fr(1, 2)]),
    "Runge3": ([[], [Fr(1, 2)], [0, 1], [0, 0, 1]], [Fr(1, 6), Fr(2, 3), 0, Fr(1, 6)], [0, Fr(1, 2), 1, 1]),
    "Heun3": ([[], [Fr(1, 3)], [0, Fr(2, 3)]], [Fr(1, 4), 0, Fr(3, 4)], [0, Fr(1, 3), Fr(2, 3)]),
    "RungeKutta4": ([[], [Fr(1, 2)], [0, Fr(1, 2)], [0, 0, 1]], [Fr(1, 6), Fr(1, 3), Fr(1, 3), Fr(1, 6)], [0, Fr(1, 2), Fr(1, 2), 1]),
    "RungeKutta3_8": ([[], [Fr(1, 3)], [Fr(-1, 3), 1], [1, -1, 1]], [Fr(1, 8), Fr(3, 8), Fr(3, 8), Fr(1, 8)],
                      [0, Fr(1, 3), Fr(2, 3), 1]),
    "RungeKutta23": ([[], [Fr(1, 2)], [0, Fr(3, 4)]], [Fr(2, 9), Fr(1, 3), Fr(4, 9)], [0, Fr(1, 2), Fr(3, 4)]),
    "RungeKutta45": ([[], [Fr(1, 5)], [Fr(3, 40), Fr(9, 40)], [Fr(44, 45), Fr(-56, 15), Fr(32, 9)],
                      [Fr(19372, 6561), Fr(-25360, 2187), Fr(64448, 6561), Fr(-212, 729)],
                      [Fr(9017, 3168), Fr(-355, 33), Fr(46732, 5247), Fr(49, 176), Fr(-5103, 18656)]],
                     [Fr(35, 384), 0, Fr(500, 1113), Fr(125, 192), Fr(-2187, 6784), Fr(11, 84)],
                     [0, Fr(1, 5), Fr(3, 10), Fr(4, 5), Fr(8, 9), 1]),
    "DOP853": ([[Fr(x) for x in _D["A"][i][:i]] for i in range(12)], [Fr(x) for x in _D["B"]], [Fr(x) for x in _D["C"][:12]]),
}

ORDER = {"Runge2": 2, "Runge3": 3, "Heun3": 3, "RungeKutta23": 3, "RungeKutta4": 4, "RungeKutta3_8": 4, "RungeKutta45": 5, "DOP853": 8}

# error estimate h * sum(e_i k_i); the last stage is the rhs at the new point
ERROR = {
    "RungeKutta23": [[Fr(5, 72), Fr(-1, 12), Fr(-1, 9), Fr(1, 8)]],
    "RungeKutta45": [[Fr(-71, 57600), 0, Fr(71, 16695), Fr(-71, 1920), Fr(17253, 339200), Fr(-22, 525), Fr(1, 40)]],
    "DOP853": [[Fr(x) for x in _D["E5"]], [Fr(x) for x in _D["E3"]]],
}
ERROR_ORDER = {"RungeKutta23": 2, "RungeKutta45": 4, "DOP853": 7}

# dense output: y0 + h * sum_j k_j * sum_m P[j][m] x**(m+1)
DENSE = {
    "RungeKutta23": [[1, Fr(-4, 3), Fr(5, 9)], [0, 1, Fr(-2, 3)], [0, Fr(4, 3), Fr(-8, 9)], [0, -1, 1]],
    "RungeKutta45": [
        [1, Fr(-8048581381, 2820520608), Fr(8663915743, 2820520608), Fr(-12715105075, 11282082432)],
        [0, 0, 0, 0],
        [0, Fr(131558114200, 32700410799), Fr(-68118460800, 10900136933), Fr(87487479700, 32700410799)],
        [0, Fr(-1754552775, 470086768), Fr(14199869525, 1410260304), Fr(-10690763975, 1880347072)],
        [0, Fr(127303824393, 49829197408), Fr(-318862633887, 49829197408), Fr(701980252875, 199316789632)],
        [0, Fr(-282668133, 205662961), Fr(2019193451, 616988883), Fr(-1453857185, 822651844)],
        [0, Fr(40617522, 29380423), Fr(-110615467, 29380423), Fr(69997945, 29380423)]],
}
DOP_EXTRA_A = [[Fr(x) for x in _D["A"][i][:i]] for i in range(13, 16)]
DOP_EXTRA_C = [Fr(x) for x in _D["C"][13:16]]
DOP_D = fr(_D["D"])

# linear multistep: y_new = sum(a_j y_j) + h (bn f_new + sum(b_j f_j)), oldest first
AB = {1: [1], 2: [Fr(-1, 2), Fr(3, 2)], 3: [Fr(5, 12), Fr(-16, 12), Fr(23, 12)], 4: [Fr(-9, 24), Fr(37, 24), Fr(-59, 24), Fr(55, 24)],
      5: [Fr(251, 720), Fr(-1274, 720), Fr(2616, 720), Fr(-2774, 720), Fr(1901, 720)]}
AM = {1: ([0], Fr(1)), 2: ([Fr(1, 2)], Fr(1, 2)), 3: ([Fr(-1, 12), Fr(8, 12)], Fr(5, 12)),
      4: ([Fr(1, 24), Fr(-5, 24), Fr(19, 24)], Fr(9, 24)),
      5: ([Fr(-19, 720), Fr(106, 720), Fr(-264, 720), Fr(646, 720)], Fr(251, 720))}
BDF = {1: ([1], Fr(1)), 2: ([Fr(-1, 3), Fr(4, 3)], Fr(2, 3)), 3: ([Fr(2, 11), Fr(-9, 11), Fr(18, 11)], Fr(6, 11)),
       4: ([Fr(-3, 25), Fr(16, 25), Fr(-36, 25), Fr(48, 25)], Fr(12, 25)),
       5: ([Fr(12, 137), Fr(-75, 137), Fr(200, 137), Fr(-300, 137), Fr(300, 137)], Fr(60, 137)),
       6: ([Fr(-10, 147), Fr(72, 147), Fr(-225, 147), Fr(400, 147), Fr(-450, 147), Fr(360, 147)], Fr(60, 147))}


def lmm(name):
    """(a, b, bn), oldest first; a and b may have different lengths (both aligned at the newest point)."""
    if name.startswith("AdamsBashforth"):
        return [1], AB[int(name[-1])], Fr(0)
    if name == "ForwardEuler":
        return [1], [1], Fr(0)
    if name == "BackwardEuler":
        return [1], [0], Fr(1)
    if name.startswith("AdamsMoulton"):
        b, bn = AM[int(name[-1])]
        return [1], b, bn
    a, bn = BDF[int(name[-1])]
    return a, [0], bn


def trees(n):
    """Rooted trees with n vertices as nested sorted tuples."""
    if n == 1:
        return [()]
    out = set()

    def forests(m, maxsize):
        if m == 0:
            yield ()
            return
        for s in range(min(m, maxsize), 0, -1):
            for t in trees(s):
                for f in forests(m - s, s):
                    yield (t,) + f
    for f in forests(n - 1, n - 1):
        out.add(tuple(sorted(f)))
    return sorted(out)


def size(t):
    return 1 + sum(size(x) for x in t)


def gamma(t):
    r = size(t)
    for x in t:
        r *= gamma(x)
    return r


def phi(A, t):
    """Vector of elementary weights (per stage)."""
    s = len(A)
    r = [Fr(1)] * s
    for x in t:
        p = phi(A, x)
        for i in range(s):
            r[i] *= sum((A[i][j] * p[j] for j in range(s) if A[i][j]), Fr(0))
    return r


def order_conditions(A, b, p):
    """[(tree, residual)] for all rooted trees of order <= p."""
    out = []
    for n in range(1, p + 1):
        for t in trees(n):
            w = phi(A, t)
            out.append((t, sum((b[i] * w[i] for i in range(len(b))), Fr(0)) - Fr(1, gamma(t))))
    return out

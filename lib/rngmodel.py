"""Reference model of the lagged-Fibonacci generator behind coco_random_*."""
import math

LONG, SHORT, FIRST = 607, 273, 12
M = 0xFFFFFFFF
MUL = 1812433253
INV = pow(MUL, -1, 1 << 32)


class Model:
    def __init__(self, seed):
        self.x = []
        for i in range(LONG):
            v = seed / 4294967295.0
            self.x.append(v - 1.0 if v >= 1.0 else v)
            seed = (MUL * (seed ^ (seed >> 30)) + i + 1) & M
        self.i = FIRST

    def uniform(self):
        if self.i >= LONG:
            x = self.x
            for i in range(LONG):
                t = x[i] + (x[i + LONG - SHORT] if i < SHORT else x[i - SHORT])
                x[i] = t - 1.0 if t >= 1.0 else t
            self.i = 0
        self.i += 1
        return self.x[self.i - 1]

    def normal(self):
        u1 = self.uniform()
        while u1 == 0.0:
            u1 = self.uniform()
        u2 = self.uniform()
        return math.sqrt(-2 * math.log(u1)) * math.cos(2 * math.pi * u2)

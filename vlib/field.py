"""Independent reference for the prime fields and the documented operators
(mkdocs/docs/circom-language/basic-operators.md)."""
PRIMES = {
    "bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bls12381": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "goldilocks": 18446744069414584321,
    "grumpkin": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "pallas": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
    "vesta": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
    "secq256r1": 115792089210356248762697446949407573530086143415290314195533631308867097853951,
    "bls12377": 8444461749428370424248824938781546531375899335154063827935233455917409239041,
}


class DivZero(Exception):
    pass


class Field:
    def __init__(self, name):
        self.name = name
        self.p = PRIMES[name]
        self.bits = self.p.bit_length()
        self.mask = (1 << self.bits) - 1
        self.half = self.p // 2
        self.bytes = ((self.bits + 63) // 64) * 8

    def val(self, z):
        return z - self.p if z > self.half else z

    def shl(self, x, k):
        if k <= self.half:
            if k >= self.bits:
                return 0
            return ((x << k) & self.mask) % self.p
        return self.shr(x, self.p - k)

    def shr(self, x, k):
        if k <= self.half:
            return x >> k if k < self.bits else 0
        return self.shl(x, self.p - k)

    def inv(self, x):
        x %= self.p
        if x == 0:
            raise DivZero()
        return pow(x, self.p - 2, self.p)

    def bin(self, op, a, b):
        p = self.p
        if op == "+": return (a + b) % p
        if op == "-": return (a - b) % p
        if op == "*": return a * b % p
        if op == "/": return a * self.inv(b) % p
        if op == "\\":
            if b == 0: raise DivZero()
            return a // b
        if op == "%":
            if b == 0: raise DivZero()
            return a % b
        if op == "**": return pow(a, b, p)
        if op == "&": return (a & b) % p
        if op == "|": return (a | b) % p
        if op == "^": return (a ^ b) % p
        if op == "<<": return self.shl(a, b)
        if op == ">>": return self.shr(a, b)
        if op == "&&": return int(a != 0 and b != 0)
        if op == "||": return int(a != 0 or b != 0)
        if op == "==": return int(a == b)
        if op == "!=": return int(a != b)
        va, vb = self.val(a), self.val(b)
        if op == "<": return int(va < vb)
        if op == "<=": return int(va <= vb)
        if op == ">": return int(va > vb)
        if op == ">=": return int(va >= vb)
        raise KeyError(op)

    def un(self, op, a):
        p = self.p
        if op == "-": return (-a) % p
        if op == "!": return int(a == 0)
        if op == "~": return ((~a) & self.mask) % p
        raise KeyError(op)

    def edge_values(self):
        p, h = self.p, self.half
        l = [0, 1, 2, 3, 5, 7, h - 1, h, h + 1, h + 2, p - 1, p - 2, p - 3, self.bits, self.bits - 1, self.bits + 1,
             p - self.bits, p - self.bits + 1, p - self.bits - 1, (1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1,
             p >> 1, p // 3, 31, 32, 33, 63, 64, 65, p - 31, p - 32, p - 63, p - 64, p - 65]
        for k in (30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 129, 160, 191, 192, 193, 224, 252, 253, 254, 255):
            if k < self.bits:
                l += [(1 << k) - 1, 1 << k, (1 << k) + 1, p - (1 << k), p - (1 << k) - 1, p - (1 << k) + 1]
        out, s = [], set()
        for x in l:
            x %= p
            if x not in s:
                s.add(x); out.append(x)
        return out

    def near(self, rng, op):
        """operands whose result, before any reduction, falls on or next to a place where a
        wrong reduction or sign shows: 0, the prime, its half, the word boundaries"""
        p, m = self.p, self.mask
        t = rng.choice([p, p, p - 1, p + 1, self.half, self.half + 1, self.half - 1, 0, 1, m, 2 * p - 2, 2 * p - 1, p - 2] + [1 << k for k in (31, 32, 63, 64)])
        a = self.rand(rng)
        if op == "^":
            for _ in range(8):
                b = a ^ (t & m)
                if b < p: break
                a = rng.randrange(p)
        elif op in ("|", "~"):
            t &= m
            for _ in range(8):
                a = t & rng.getrandbits(self.bits)
                if a < p: break
            b = (t ^ a) | (t & rng.getrandbits(self.bits))
        elif op == "&":
            a = t | rng.getrandbits(self.bits); b = t | (~a & m)
        elif op == "-": b = a - t
        elif op in ("*", "/", "**") and a: b = t * self.inv(a)
        elif op == "<<":
            k = rng.randrange(self.bits); a = (t & m) >> k; b = k
        elif op in ("<", "<=", ">", ">=", "==", "!="):
            a = t; b = t + rng.choice([-1, 0, 1])
        elif op in ("\\", "%") and a: b = t // a + rng.choice([0, 1])
        else: b = t - a
        if not 0 <= a < p: a %= p
        if not 0 <= b < p: b %= p
        return a, b

    def rand(self, rng):
        k = rng.random()
        if k < .35:
            return rng.choice(self.edge_values())
        if k < .5:
            return rng.randrange(0, 16)
        if k < .6:
            return self.p - 1 - rng.randrange(0, 16)
        if k < .75:
            return rng.getrandbits(rng.randrange(1, self.bits)) % self.p
        return rng.randrange(self.p)


BINOPS = ["+", "-", "*", "/", "\\", "%", "**", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", "<=", ">", ">="]
UNOPS = ["-", "!", "~"]

"""Random concrete values: boundary-minded, and fed with the constants that occur in the source
(those that a change introduced are preferred)."""
import ast
import glob
import json
import os
import random

REPO = os.environ.get('WEBAUTHN_REPO', '/repo')
BASE = os.path.join(os.path.dirname(__file__), 'constants.json')


def harvest(repo=REPO):
    ints, strs, byts = set(), set(), set()
    for f in glob.glob(os.path.join(repo, 'webauthn_rp', '**', '*.py'), recursive=True):
        try:
            tree = ast.parse(open(f, encoding='utf-8').read())
        except Exception:
            continue
        doc = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and -2**64 < v < 2**64:
                    ints.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 80:
                    strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 200:
                    byts.add(v)
            elif isinstance(n, ast.BinOp):
                try:        # 1 << 31, 2 ** 16 - 1
                    v = eval(compile(ast.Expression(n), '', 'eval'), {'__builtins__': {}}, {})
                    if isinstance(v, int) and -2**64 < v < 2**64:
                        ints.add(v)
                except Exception:
                    pass
    return ints, strs, byts


_cache = None


def constants():
    """(all ints, strs, bytes), (new ints, strs, bytes)"""
    global _cache
    if _cache is None:
        now = harvest()
        try:
            b = json.load(open(BASE))
            base = set(b['ints']), set(b['strs']), {bytes(x) for x in b['bytes']}
        except OSError:
            base = now
        _cache = (tuple(sorted(s, key=repr) for s in now),
                  tuple(sorted(n - o, key=repr) for n, o in zip(now, base)))
    return _cache


EDGE = [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 66, 127, 128, 129, 254, 255, 256, 257]
BIG = [300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097]
HUGE = [16383, 16384, 32767, 32768, 65534, 65535]
U32 = [0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 2**24 - 1, 2**24, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1]


class Pool(random.Random):
    def __init__(self, *seed):
        super().__init__(':'.join(map(str, seed)))
        (self.ints, self.strs, self.byts), (self.nints, self.nstrs, self.nbyts) = constants()

    def chance(self, p):
        return self.random() < p

    def int_const(self):
        """An integer near a constant of the source, or None."""
        if self.nints and self.chance(.8):
            return self.choice(self.nints) + self.choice([-1, 0, 0, 1])
        return self.choice(self.ints) + self.choice([-1, 0, 0, 1]) if self.ints else 0

    def length(self, lo=0, hi=1200, big=.12):
        """A length within bounds, mostly small, often at an edge."""
        for _ in range(40):
            r = self.random()
            if self.nints and r < .25:
                n = abs(self.choice(self.nints)) + self.choice([-1, 0, 1])
            elif r < .5:
                n = self.choice(EDGE)
            elif r < .5 + big:
                n = self.choice(BIG)
            elif r < .70:
                n = abs(self.int_const())
            else:
                n = self.randrange(0, 80)
            if lo <= n <= hi:
                return n
        return self.randint(lo, min(hi, lo + 40))

    def blob(self, n=None, **kw):
        """Bytes of a length with varied texture."""
        if n is None:
            n = self.length(**kw)
        r = self.random()
        if r < .6:
            b = self.randbytes(n)
        elif r < .66:
            b = bytes(n)
        elif r < .72:
            b = b'\xff' * n
        elif r < .80:
            b = bytes(self.choice(b'abcXYZ019-_+/=. ') for _ in range(n))
        elif r < .86:
            b = bytes(self.choice([0, 0, 0, 1, 127, 128, 255, 0x3e, 0x3f, 0xfb]) for _ in range(n))
        elif r < .93:
            b = (self.text().encode('utf-8', 'replace') * (n // 2 + 1))[:n].ljust(n, b'\0')
        else:
            b = self.randbytes(n)
            c = self.choice(self.nbyts) if self.nbyts else self.choice(self.byts) if self.byts else b''
            b = (c + b)[:n] if self.chance(.5) else (b + c)[-n:] if n else b
        if self.nbyts and self.chance(.2):
            c = self.choice(self.nbyts)
            b = (c + b)[:max(n, len(c))]
        return b

    def text(self, maxlen=40):
        r = self.random()
        if self.nstrs and r < .35:
            s = self.choice(self.nstrs)
            return self.choice([s, s + 'x', 'x' + s, s.upper(), s + s])
        if r < .45:
            return self.choice(self.strs)
        if r < .55:
            return ''
        if r < .85:
            return ''.join(self.choice('abcdefghijklmnopqrstuvwxyzABC0123456789-_.') for _ in range(self.randrange(1, maxlen)))
        if r < .95:
            return ''.join(self.choice('aé中𝄞ß\u0130\u200b\n\t"\\\x00/') for _ in range(self.randrange(1, 12)))
        return self.choice(['null', 'None', '0', 'true', '__proto__', ' ', '%', '{}', "' or 1", 'a' * 300])

    def u32(self):
        r = self.random()
        if self.nints and r < .3:
            return max(0, min(2**32 - 1, abs(self.choice(self.nints)) + self.choice([-1, 0, 1])))
        if r < .6:
            return self.choice(U32)
        if r < .7:
            return max(0, min(2**32 - 1, abs(self.int_const())))
        return self.getrandbits(self.choice([4, 8, 16, 24, 31, 32]))

"""What a pixel of an array holds, as a function of the pixels of the inputs.

The interpreter gives arrays value numbers (sa/values.py): nodes of an expression graph over the inputs.  Two such
expressions are compared as functions: operations with known meaning are carried out, all others stand for arbitrary functions
of their arguments, and every input pixel stands for an arbitrary number.  Equal expressions give equal numbers whatever
way they are written; different ones differ for almost every choice of the numbers.
"""
import hashlib
import math


class Unknown(Exception):
    pass


def noise(*key):
    """A number in (0.5, 1.5), the same for the same key."""
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return 0.5 + int.from_bytes(h, 'big') / 2.0 ** 64


def sig(x):
    return float('%.9e' % x) if isinstance(x, float) and math.isfinite(x) else x


BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
       'pow': lambda a, b: a ** b, 'hypot': math.hypot, 'maximum': max, 'minimum': min, 'fdiv': lambda a, b: a // b}
UN = {'sqrt': math.sqrt, 'square': lambda a: a * a, 'neg': lambda a: -a, 'pos': lambda a: a, 'abs': abs, 'exp': math.exp,
      'log': math.log, 'log10': math.log10, 'negative': lambda a: -a, 'reciprocal': lambda a: 1 / a, 'b.float': lambda a: a,
      'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'np.nan_to_num': lambda a: a}


class Pixels:
    """Evaluate value numbers at a pixel.

    seed     one choice of arbitrary numbers
    ranks    input name -> number of dimensions (2 if not given)
    given    input name -> value
    """

    def __init__(self, I, seed, ranks=(), given=()):
        self.rev = I.models.vnrev
        self.seed, self.ranks, self.given = seed, dict(ranks), dict(given)
        self.memo = {}

    # ---------------------------------------------------------------- ranks
    def rank(self, v):
        k = self.rev[v]
        op, a = k[0], k[1:]
        if op == 'in':
            return self.ranks.get(str(a[0]), 2)
        if op in ('const', 'fill', 'scalar'):
            return 0
        if op == 'view':
            return self.shape_after(self.rank(a[0]), str(a[1]))
        if op.startswith('red.'):
            ax = self.axes(str(a[0]), self.rank(a[1]))
            return 0 if ax is None else self.rank(a[1]) - len(ax)
        if op == 'upd':
            return self.rank(a[0])
        return max([self.rank(x) for x in a if type(x) is int] or [0])

    @staticmethod
    def axes(text, n):
        t = text.split(';')[0]
        try:
            ax = eval(t, {'__builtins__': {}})
        except Exception:
            raise Unknown(text)
        if ax is None:
            return None
        if isinstance(ax, tuple) and len(ax) == 1:
            ax = ax[0]
        if ax is None:
            return None
        return {x % n for x in (ax if isinstance(ax, tuple) else (ax,))} if n else set()

    def parts(self, text):
        for one in text.split('|'):
            yield one.split(',') if '(' not in one else [one]

    def shape_after(self, n, text):
        for cs in self.parts(text):
            for c in cs:
                if c == 'new':
                    n += 1
                elif ':' in c or c == 'ell':
                    pass
                elif c.lstrip('-').isdigit():
                    n -= 1
                else:
                    raise Unknown(text)
        return n

    # ---------------------------------------------------------------- positions
    @staticmethod
    def shift(p, c):
        """Position in the indexed array of position p of the result of the slice c."""
        lo, hi, step = (None if x == 'None' else x for x in c.split(':'))
        if any(x is not None and x.startswith('t') for x in (lo, hi, step)):
            raise Unknown(c)
        if step not in (None, '1'):
            raise Unknown(c)
        lo = int(float(lo)) if lo is not None else 0
        if lo < 0:
            raise Unknown(c)
        if isinstance(p, tuple):
            h = p[2] if hi is None else int(float(hi)) - 0
            if p[1] == 0 and p[2] is None:
                return ('*', lo, h)
            return ('*', p[1] + lo, p[2] + lo if p[2] is not None else h)
        return p + lo

    def back(self, pos, n, text):
        """Position in an array of n dimensions of position pos of its view."""
        steps = list(self.parts(text))
        ranks = [n]
        for cs in steps:
            ranks.append(self.shape_after(ranks[-1], ','.join(cs)))
        for cs, nin in zip(reversed(steps), reversed(ranks[:-1])):
            cs = list(cs)
            explicit = sum(1 for c in cs if c not in ('new', 'ell'))
            if 'ell' in cs:
                i = cs.index('ell')
                cs[i:i + 1] = ['None:None:None'] * (nin - explicit)
            else:
                cs += ['None:None:None'] * (nin - explicit)
            out, q = [], list(pos)
            need = sum(1 for c in cs if c == 'new' or ':' in c)
            q = q[len(q) - need:] if need <= len(q) else self.unk()
            for c in cs:
                if c == 'new':
                    q.pop(0)
                elif ':' in c:
                    out.append(self.shift(q.pop(0), c))
                else:
                    out.append(int(c))
            pos = tuple(out)
        return pos

    def unk(self):
        raise Unknown('rank')

    # ---------------------------------------------------------------- values
    def at(self, v, pos):
        n = self.rank(v)
        pos = tuple(pos)[len(pos) - n:] if n <= len(pos) else self.unk()
        key = (v, pos)
        if key not in self.memo:
            try:
                self.memo[key] = self.at1(v, pos)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                self.memo[key] = noise(self.seed, 'undefined')
        return self.memo[key]

    def at1(self, v, pos):
        k = self.rev[v]
        op, a = k[0], k[1:]
        if op == 'in':
            name = str(a[0])
            if name in self.given:
                return self.given[name]
            return noise(self.seed, name, pos)
        if op == 'const':
            x = eval(str(a[0]), {'__builtins__': {}, 'nan': math.nan, 'inf': math.inf})
            return float(x) if isinstance(x, (int, float)) else x
        if op in ('fill', 'scalar'):
            return self.at(a[0], ())
        if op == 'view':
            return self.at(a[0], self.back(pos, self.rank(a[0]), str(a[1])))
        if op == 'upd':
            return self.at(a[0], pos)
        if op.startswith('red.'):
            inner = self.rank(a[1])
            ax = self.axes(str(a[0]), inner)
            q, full = list(pos), []
            for i in range(inner):
                full.append(('*', 0, None) if ax is None or i in ax else q.pop(0))
            rest = [sig(self.at(x, ())) for x in a[2:]]
            return noise(self.seed, op, str(a[0]).split(';')[1:], sig(self.at(a[1], tuple(full))), tuple(full), rest)
        if op.startswith('redi.'):
            xs = [self.at(x, pos) for x in a]
            if op[5:] in ('sum', 'nansum'):
                return math.fsum(xs)
            if op[5:] in ('mean', 'nanmean'):
                return math.fsum(xs) / len(xs)
            return noise(self.seed, op, sorted(map(sig, xs)))
        if op in BIN and len(a) == 2:
            return BIN[op](self.at(a[0], pos), self.at(a[1], pos))
        if op in UN and len(a) == 1:
            return UN[op](self.at(a[0], pos))
        args = [sig(self.at(x, pos)) if type(x) is int else str(x) for x in a]
        if op in ('or', 'and', 'xor'):
            args.sort(key=repr)
        return noise(self.seed, op, args)

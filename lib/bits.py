"""Bit-slice domain for Interp: an unknown word is a tuple of bits, each 0, 1 or bit i of an opaque value.

Masks, shifts by constants, truncations and extensions are exact; a comparison with a constant is decided from the
known bits or splits the state, and the losing half learns which bits are zero."""
from shape import *

class Bits:
    def __init__(s, I): s.I = I; I.bits = s; s.width = {}
    # facts live in I.facts so that they belong to the path: ('zero', bit) -> True, 'nz' -> list of bit sets
    def zero(s, b): return isinstance(b, tuple) and ('zero', b) in s.I.facts
    def norm(s, t): return tuple(0 if s.zero(b) else b for b in t)
    def opaque(s, x, w):
        return tuple((x, i) for i in range(w))
    def of(s, x, w):
        """bits of x seen as a w-bit word, or None"""
        if isinstance(x, bool): x = int(x)
        if isinstance(x, int): return tuple(x >> i & 1 for i in range(w))
        if isinstance(x, S):
            if x.k[0] == 'bits':
                t = x.k[1]
                return s.norm(t[:w]) if len(t) >= w else None
            if x.k[0] in ('cmp', 'notb'): return (1 if s.I.truth(x) else 0,) + (0,) * (w - 1)
            w0 = s.width.get(x)
            if w0 is not None and w0 < w: return None
            if w0 is None and x.k[0] in ('ch', 'v', 'byte'): s.width[x] = w
            elif w0 is None: return None
            return s.norm(s.opaque(x, w))
        return None
    def mk(s, t):
        t = s.norm(t); w = len(t)
        if all(isinstance(b, int) for b in t):
            v = sum(b << i for i, b in enumerate(t))
            return v - (1 << w) if w > 1 and v >> (w - 1) else v
        b0 = t[0]
        if isinstance(b0, tuple) and s.width.get(b0[0]) == w and t == s.opaque(b0[0], w): return b0[0]
        return S('bits', t)
    def arith(s, op, a, b, ty):
        w = BITS.get(ty)
        if w is None or w == 1 or not (isinstance(a, S) or isinstance(b, S)): return None
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int) or not 0 <= b < w: return None
            x = s.of(a, w)
            if x is None: return None
            if op == 'shl': return s.mk((0,) * b + x[:w - b])
            return s.mk(x[b:] + ((0 if op == 'lshr' else x[-1]),) * b)
        if op == 'mul' and isinstance(b, int) and b > 0 and b & (b - 1) == 0: return s.arith('shl', a, b.bit_length() - 1, ty)
        if op == 'udiv' and isinstance(b, int) and b > 0 and b & (b - 1) == 0: return s.arith('lshr', a, b.bit_length() - 1, ty)
        if op == 'urem' and isinstance(b, int) and b > 0 and b & (b - 1) == 0: return s.arith('and', a, b - 1, ty)
        if op in ('and', 'or', 'xor', 'add'):
            x = s.of(a, w); y = s.of(b, w)
            if x is None or y is None: return None
            if op == 'add':
                if any(p != 0 and q != 0 for p, q in zip(x, y)): return None
                op = 'or'
            r = []
            for p, q in zip(x, y):
                if p == 0 or q == 0: r.append(0 if op == 'and' else (q if p == 0 else p)); continue
                if op == 'and' and (p == 1 or q == 1): r.append(q if p == 1 else p); continue
                if op == 'or' and (p == 1 or q == 1): r.append(1); continue
                if p == q: r.append(0 if op == 'xor' else p); continue
                return None
            return s.mk(tuple(r))
        return None
    def cast(s, op, v, fr, to):
        a, b = BITS.get(fr), BITS.get(to)
        if a is None or b is None: return v
        if a == 1: 
            t = s.I.truth(v); return (1 if op != 'sext' else -1) if t else 0
        x = s.of(v, a)
        if x is None: return v
        if op == 'trunc': return s.mk(x[:b])
        if op == 'zext': return s.mk(x + (0,) * (b - a))
        if op == 'sext': return s.mk(x + (x[-1],) * (b - a))
        return v
    def allzero(s, t):
        """split: are all bits of t zero"""
        t = s.norm(t)
        if any(b == 1 for b in t): return False
        u = frozenset(b for b in t if b != 0)
        if not u: return True
        nz = s.I.facts.setdefault('nz', [])
        if any(z <= u for z in nz): return False
        if s.I.choose(2, ('zero', len(u))) == 0:
            for b in u: s.I.facts[('zero', b)] = True
            for z in nz:
                if all(s.zero(b) for b in z): raise Cut()
            return True
        nz.append(u); return False
    def cmp(s, pred, a, b, ty):
        w = BITS.get(ty)
        if w is None or w == 1: return None
        if isinstance(a, int): a, b = b, a; pred = SWAP[pred]
        if pred in ('eq', 'ne') and isinstance(a, S) and isinstance(b, S) and (a.k[0] == 'bits' or b.k[0] == 'bits'):
            x, y = s.of(a, w), s.of(b, w)
            if x is None or y is None: return None
            if any(isinstance(p, int) and isinstance(q, int) and p != q for p, q in zip(x, y)): return pred == 'ne'
            seen = []
            for q in zip(x, y):
                if q[0] != q[1] and q not in seen: seen.append(q)
            if not seen: return pred == 'eq'
            # the distinct bit pairs, in order: extensions of narrower words compare like the words themselves
            k = ('eqbits', frozenset((tuple(p for p, _ in seen), tuple(q for _, q in seen))))
            c = tuple(zip(*seen)); l, r = s.mk(c[0]), s.mk(c[1])
            if isinstance(l, S) and isinstance(r, S) and l.k[0] != 'bits' and r.k[0] != 'bits': return s.I.cmp(pred, l, r, 'i%d' % len(seen))
            v = s.I.fact(k); return v if pred == 'eq' else not v
        if not isinstance(b, int) or not isinstance(a, S) or a.k[0] in ('tag', 'bool', 'cmp', 'notb'): return None
        if a.k[0] != 'bits' and a not in s.width: return None
        x = s.of(a, w)
        if x is None: return None
        if pred in ('ne', 'sge', 'uge', 'sle', 'ule'):
            r = s.cmp(NEG[pred], a, b, ty); return None if r is None else not r
        if pred == 'eq':
            y = s.of(b, w)
            if any(isinstance(p, int) and p != q for p, q in zip(x, y)): return False
            if all(isinstance(p, int) for p in x): return True
            if a.k[0] == 'bits':
                # an extension of a narrower word compares like the word itself
                seen = []
                for q in zip(x, y):
                    if not isinstance(q[0], int) and q not in seen:
                        if (q[0], 1 - q[1]) in seen: return False
                        seen.append(q)
                l = s.mk(tuple(p for p, _ in seen))
                if isinstance(l, S) and l.k[0] != 'bits':
                    n = len(seen); v = sum(q << i for i, (_, q) in enumerate(seen))
                    return s.I.cmp('eq', l, v - (1 << n) if v >> (n - 1) else v, 'i%d' % n)
            if b == 0:
                if a.k[0] != 'bits': return None if ('rng', a) in s.I.facts else s.allzero(x)
                return s.allzero(x)
            return None
        if pred == 'ugt':       # a > b  <=>  not a < b + 1
            r = s.cmp('ult', a, b + 1, ty); return None if r is None else not r
        if pred == 'ult':
            b %= 1 << w
            if b > 0 and b & (b - 1) == 0: return s.allzero(x[b.bit_length() - 1:])
            hi = sum((1 if p != 0 else 0) << i for i, p in enumerate(x))
            return True if hi < b else None
        if pred in ('slt', 'sgt') and x[-1] == 0:
            if b < 0: return pred == 'sgt'
            return s.cmp('u' + pred[1:], a, b, ty)
        return None

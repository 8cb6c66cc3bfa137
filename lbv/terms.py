"""Scalar terms: integers are python ints (unsigned canonical) or z3 bit-vectors,
booleans python bools or z3 Bools, doubles python floats or z3 Float64 terms.

Double arithmetic (+ - * / pow ...) on non-constant operands is uninterpreted: a proof
under that abstraction holds for IEEE arithmetic as well.  Comparisons, floor, negation,
abs and conversions are the real z3 FP operations.
"""
import math
import struct
import z3

F64S = z3.Float64()
RNE = z3.RNE()

def mask(w): return (1 << w) - 1
def is_c(x): return isinstance(x, int)
def to_signed(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x

def bv(x, w):
    """lift to a z3 bit-vector of width w"""
    if isinstance(x, bool):
        return z3.BitVecVal(1 if x else 0, w)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x

def B(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x

def fold(t):
    """constant-fold a z3 bit-vector / Bool to a python value when possible"""
    if isinstance(t, (int, bool, float)):
        return t
    if z3.is_bv_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t

def simp(t):
    if isinstance(t, (int, bool, float)): return t
    return fold(z3.simplify(t))

def Not(a):
    if isinstance(a, bool): return not a
    return z3.Not(a)
def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return a == b

def as_bool(x):
    """i1 value -> bool"""
    if isinstance(x, bool): return x
    if isinstance(x, int): return x != 0
    if z3.is_bool(x): return x
    return fold(x == z3.BitVecVal(1, x.size()))

# ---------------------------------------------------------------- integers
def ibin(op, w, a, b):
    if w == 1:
        a, b = as_bool(a), as_bool(b)
        if op == 'and': return And(a, b)
        if op == 'or': return Or(a, b)
        if op == 'xor': return Not(Iff(a, b))
        raise NotImplementedError('i1 ' + op)
    if z3.is_bool(a) if not isinstance(a, int) else False: a = bv(a, w)
    if z3.is_bool(b) if not isinstance(b, int) else False: b = bv(b, w)
    m = mask(w)
    if is_c(a) and is_c(b):
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (to_signed(a, w) >> min(b, w - 1)) & m
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op in ('sdiv', 'srem'):
            x, y = to_signed(a, w), to_signed(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & m
        raise NotImplementedError(op)
    if op in ('add', 'or', 'xor') and is_c(b) and b == 0: return a
    if op in ('add', 'or', 'xor') and is_c(a) and a == 0: return b
    if op == 'sub' and is_c(b) and b == 0: return a
    if op == 'mul' and is_c(b) and b == 1: return a
    if op == 'mul' and is_c(a) and a == 1: return b
    if op in ('mul', 'and') and ((is_c(a) and a == 0) or (is_c(b) and b == 0)): return 0
    x, y = bv(a, w), bv(b, w)
    if op == 'add': r = x + y
    elif op == 'sub': r = x - y
    elif op == 'mul': r = x * y
    elif op == 'and': r = x & y
    elif op == 'or': r = x | y
    elif op == 'xor': r = x ^ y
    elif op == 'shl': r = x << y
    elif op == 'lshr': r = z3.LShR(x, y)
    elif op == 'ashr': r = x >> y
    elif op == 'udiv': r = z3.UDiv(x, y)
    elif op == 'urem':
        if absrem and is_c(b) and b & (b - 1) and hook is not None:
            # x mod b as an uninterpreted function of x; only 0 <= r < b is used (sound: fewer facts)
            r = z3.Function('urem%d_%d' % (w, b), z3.BitVecSort(w), z3.BitVecSort(w))(x)
            hook('rem', z3.ULT(r, y))
        else: r = z3.URem(x, y)
    elif op == 'sdiv': r = x / y
    elif op == 'srem': r = z3.SRem(x, y)
    else: raise NotImplementedError(op)
    return simp(r)

def icmp(pred, w, a, b):
    if w == 1:
        a, b = as_bool(a), as_bool(b)
        if pred == 'eq': return Iff(a, b)
        if pred == 'ne': return Not(Iff(a, b))
        a = fold(bv(a, 1)); b = fold(bv(b, 1))
    if not isinstance(a, int) and z3.is_bool(a): a = bv(a, w)
    if not isinstance(b, int) and z3.is_bool(b): b = bv(b, w)
    if is_c(a) and is_c(b):
        if pred[0] == 's':
            a, b = to_signed(a, w), to_signed(b, w)
        p = pred[-2:]
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
    x, y = bv(a, w), bv(b, w)
    if pred == 'eq': r = x == y
    elif pred == 'ne': r = x != y
    elif pred == 'ult': r = z3.ULT(x, y)
    elif pred == 'ule': r = z3.ULE(x, y)
    elif pred == 'ugt': r = z3.UGT(x, y)
    elif pred == 'uge': r = z3.UGE(x, y)
    elif pred == 'slt': r = x < y
    elif pred == 'sle': r = x <= y
    elif pred == 'sgt': r = x > y
    elif pred == 'sge': r = x >= y
    else: raise NotImplementedError(pred)
    return simp(r)

def eq(a, b, w): return icmp('eq', w, a, b)
def ult(a, b, w=64): return icmp('ult', w, a, b)
def ule(a, b, w=64): return icmp('ule', w, a, b)
def add(a, b, w=64): return ibin('add', w, a, b)
def sub(a, b, w=64): return ibin('sub', w, a, b)

def zext(x, w0, w1):
    if w0 == 1:
        x = as_bool(x)
        return (1 if x else 0) if isinstance(x, bool) else bv(x, w1)
    if is_c(x): return x
    return z3.ZeroExt(w1 - w0, x)
def sext(x, w0, w1):
    if w0 == 1:
        x = as_bool(x)
        if isinstance(x, bool): return mask(w1) if x else 0
        return z3.If(x, z3.BitVecVal(mask(w1), w1), z3.BitVecVal(0, w1))
    if is_c(x): return to_signed(x, w0) & mask(w1)
    return z3.SignExt(w1 - w0, x)
def trunc(x, w0, w1):
    if w1 == 1:
        if is_c(x): return bool(x & 1)
        if z3.is_bool(x): return x
        # (zext of Bool) truncated back
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            a, b = x.arg(1), x.arg(2)
            if z3.is_bv_value(a) and z3.is_bv_value(b) and a.as_long() == 1 and b.as_long() == 0:
                return x.arg(0)
        return simp(z3.Extract(0, 0, x) == z3.BitVecVal(1, 1))
    if is_c(x): return x & mask(w1)
    return simp(z3.Extract(w1 - 1, 0, x))

# ---------------------------------------------------------------- doubles
UF = {}
def fuf(name, n):
    k = (name, n)
    if k not in UF:
        UF[k] = z3.Function('fp_' + name, *([F64S] * (n + 1)))
    return UF[k]

def fpv(x):
    if isinstance(x, float):
        if math.isnan(x): return z3.fpNaN(F64S)
        if math.isinf(x): return z3.fpPlusInfinity(F64S) if x > 0 else z3.fpMinusInfinity(F64S)
        if x == 0.0: return z3.fpMinusZero(F64S) if math.copysign(1, x) < 0 else z3.fpPlusZero(F64S)
        return z3.FPVal(x, F64S)
    return x

def ffold(t):
    if isinstance(t, float): return t
    if z3.is_fp_value(t):
        if t.isNaN(): return math.nan
        if t.isInf(): return -math.inf if t.isNegative() else math.inf
        if t.isZero(): return -0.0 if t.isNegative() else 0.0
        b = (int(t.sign()) << 63) | (t.exponent_as_long(True) << 52) | t.significand_as_long()
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    return t

def fbin(op, a, b):
    if isinstance(a, float) and isinstance(b, float):
        try:
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0:
                    if a == 0 or math.isnan(a): return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1, b)
                return a / b
        except OverflowError:
            pass
    x, y = fpv(a), fpv(b)
    if op in ('fadd', 'fmul') and x.get_id() > y.get_id():
        x, y = y, x
    return fuf(op, 2)(x, y)

def ffun(name, *args):
    return fuf(name, len(args))(*[fpv(a) for a in args])

def fneg(a):
    if isinstance(a, float): return -a
    return z3.fpNeg(a)
def ffloor(a):
    if isinstance(a, float):
        if math.isinf(a) or math.isnan(a): return a
        r = float(math.floor(a))
        return math.copysign(r, a) if r == 0 else r
    if absf2i: return fuf('floor', 1)(a)
    return z3.fpRoundToIntegral(z3.RTN(), a)
def ffabs(a):
    if isinstance(a, float): return math.fabs(a)
    return z3.fpAbs(a)

def fcmp(pred, a, b):
    if isinstance(a, float) and isinstance(b, float):
        un = math.isnan(a) or math.isnan(b)
        if pred == 'ord': return not un
        if pred == 'uno': return un
        base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        if pred[0] == 'o': return (not un) and base
        return un or base
    x, y = fpv(a), fpv(b)
    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if pred == 'oeq': r = z3.fpEQ(x, y)
    elif pred == 'une': r = z3.Not(z3.fpEQ(x, y))
    elif pred == 'olt': r = z3.fpLT(x, y)
    elif pred == 'ole': r = z3.fpLEQ(x, y)
    elif pred == 'ogt': r = z3.fpGT(x, y)
    elif pred == 'oge': r = z3.fpGEQ(x, y)
    elif pred == 'one': r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
    elif pred == 'ult': r = z3.Not(z3.fpGEQ(x, y))
    elif pred == 'ule': r = z3.Not(z3.fpGT(x, y))
    elif pred == 'ugt': r = z3.Not(z3.fpLEQ(x, y))
    elif pred == 'uge': r = z3.Not(z3.fpLT(x, y))
    elif pred == 'ueq': r = z3.Or(un, z3.fpEQ(x, y))
    elif pred == 'uno': r = un
    elif pred == 'ord': r = z3.Not(un)
    else: raise NotImplementedError(pred)
    return simp(r)

def int_to_fp(x, w, signed):
    if isinstance(x, bool): x = int(x)
    if is_c(x):
        return float(to_signed(x, w) if signed else x)
    x = bv(x, w)
    if hook is None or w > 32:
        return z3.fpToFP(RNE, x, F64S) if signed else z3.fpToFPUnsigned(RNE, x, F64S)
    # exact conversion, represented by an uninterpreted function with proved facts (lemmas.py)
    k = (w, signed)
    if k not in I2F:
        I2F[k] = z3.Function('i2f_%d%s' % (w, 's' if signed else 'u'), z3.BitVecSort(w), F64S)
    r = I2F[k](x)
    lo = -float(1 << (w - 1)) if signed else 0.0
    hi = float(mask(w - 1)) if signed else float(mask(w))
    hook('i2f', (z3.And(B(fcmp('oge', r, lo)), B(fcmp('ole', r, hi))), x, r, w, signed))
    return r
I2F = {}
absf2i = False
absrem = False
hook = None

def fp_to_int(x, w, signed):
    if isinstance(x, float):
        return int(x) & mask(w)
    if w < 32: return trunc(fp_to_int(x, 32, True), 32, w)     # same value: in range is an obligation
    if absf2i:
        r = z3.Function('f2i_%d%s' % (w, 's' if signed else 'u'), F64S, z3.BitVecSort(w))(x)
    else:
        r = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(w))
    if hook is not None: hook('f2i', (x, r, w, signed))
    return r

def fp_in_range(x, w, signed):
    """truncated value representable in the integer type (C UB otherwise)"""
    lo = -(2.0 ** (w - 1)) - (1.0 if w <= 52 else 0.0) if signed else -1.0
    hi = 2.0 ** (w - 1) if signed else 2.0 ** w
    if signed and w > 52:
        return And(fcmp('oge', x, -(2.0 ** (w - 1))), fcmp('olt', x, hi))
    return And(fcmp('ogt', x, lo), fcmp('olt', x, hi))

def feq(a, b):
    """structural (bit-level up to NaN payload) equality of doubles"""
    if isinstance(a, float) and isinstance(b, float):
        return (a == b and math.copysign(1, a) == math.copysign(1, b)) or (math.isnan(a) and math.isnan(b))
    return fold(z3.simplify(fpv(a) == fpv(b)))

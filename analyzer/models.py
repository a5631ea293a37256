"""Models (transfer functions) of library items: std collections, iterators, strings, and the algebra of arkworks."""
import random
from . import terms as T
from .terms import (TRUE, FALSE, ZERO, ONE, UNIT, ERR, NONE, And, Or, Not, ite, raw, num, add, sub, mul, neg, inv, eq, ge, lt,
                    idx, length, seqlit, seqcat, seqset, seqslice, tab, contains, subst, lam, fresh, proj, adt,
                    isvariant, some, ok, uf, lift, is_num)

MODELS = {}
BOT = raw("bot")


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def strlit(s):
    return seqlit([num(ord(c)) for c in s])


def fieldkey(ty):
    return ty["s"]


def is_print(fn):
    return fn.split("::")[-1] in ("_print", "_eprint")


def veq(I, a, b):
    a, b = I.val(a), I.val(b)
    if I.has_refs(a) or I.has_refs(b):
        a, b = deref_all(I, a), deref_all(I, b)
    return T.eq(a, b)


def deref_all(I, v, d=0):
    """replace references inside a value by what they refer to"""
    if d > 8:
        return v
    if v.op == "ref":
        return deref_all(I, I.load1(v), d + 1)
    if v.op in ("num", "ring", "lam", "closure"):
        return v
    if v.op == "ite":
        return ite(T.lit(v.args[0]), deref_all(I, v.args[1], d), deref_all(I, v.args[2], d))
    if not I.has_refs(v):
        return v

    def g(a):
        if isinstance(a, T.Term):
            return deref_all(I, a, d)
        if isinstance(a, tuple):
            return tuple(g(x) for x in a)
        return a
    return raw(v.op, *[g(a) for a in v.args])


# ------------------------------------------------------------------ types
def tail(ty):
    return ty["p"].split("::")[-1] if ty and ty.get("k") == "adt" else None


def is_string_ty(ty):
    while ty and ty.get("k") == "ref":
        ty = ty["tt"]
    return bool(ty) and (ty.get("k") == "str" or tail(ty) == "String")


def base(ty):
    while ty and ty.get("k") == "ref":
        ty = ty["tt"]
    return ty


def is_int_ty(ty):
    return base(ty).get("k") in ("uint", "int")


def is_poly_type(ty):
    return tail(base(ty)) in ("DensePolynomial", "SparsePolynomial", "DenseOrSparsePolynomial")


# ------------------------------------------------------------------ identities
def ident(c):
    return c.raw(0)


for _n in ("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow", "BorrowMut::borrow_mut", "AsMut::as_mut",
           "String::as_str", "Vec::as_slice", "Vec::as_mut_slice", "hint::must_use", "Box::new", "Arc::new", "Rc::new", "RefCell::new",
           "RefCell::borrow_mut", "RefCell::borrow", "Cell::new", "Arc::clone", "Rc::clone", "fmt::format",
           "boxed::box_assume_init_into_vec_unsafe", "mem::drop", "String::as_bytes", "str::as_bytes", "slice::as_ref",
           "hint::black_box", "Vec::into_boxed_slice", "array::as_slice", "Array::as_slice", "GenericArray::as_slice", "Array::as_mut_slice", "GenericArray::as_mut_slice", "String::into_bytes", "RefCell::into_inner",
           "Option::as_ref", "Result::as_ref", "Option::as_deref", "Iterator::by_ref", "convert::identity", "Vec::leak", "Wrapping"):
    MODELS[_n] = ident


@model("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "slice::into_vec", "str::to_owned", "Option::cloned", "Option::copied",
       "CurveGroup::into_affine", "Affine::into_group", "AffineRepr::into_group", "Affine::mul_by_cofactor_to_group", "str::to_string",
       "String::clone", "PrimeField::from_bigint")
def m_clone(c):
    v = c.v(0)
    if c.key == "PrimeField::from_bigint":
        return some(unbig(v))
    if I_has(c, v):
        return deref_all(c.I, v) if c.key != "Clone::clone" else clone_val(c.I, v)
    return v


def I_has(c, v):
    return c.I.has_refs(v)


def clone_val(I, v):
    if v.op in ("iter", "closure", "fnitem"):
        return v
    return v


@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def m_into(c):
    v = c.v(0)
    t = c.rty()
    if c.key.startswith("Try"):
        inner = t["aa"][0] if t.get("aa") else {"k": "other", "s": "?"}
        if inner.get("k") == "array" and T.is_seq(v):
            c2 = eq(length(v), inner["nv"])
            return ite(c2, ok(v), ERR)
        if inner.get("k") in ("uint", "int"):
            w = {"u8": 8, "u16": 16, "u32": 32}.get(inner["n"])
            if w:
                return ite(lt(v, num(2 ** w)), ok(v), ERR)
            return ok(v)
        return ok(v)
    src = c.aty(0)
    if v.op == "bigint" and not T.is_seq_ty(t):
        return v if tail(t) == "BigInt" else v.args[0]
    if tail(t) in ("BigInt", "BigUint") and v.op != "bigint":
        return bigint(v)
    if base(src).get("k") == "bool":
        return ite(c.I.tobool(v), ONE, ZERO)
    tt = tail(t)
    if tt == "HashMap" or tt == "BTreeMap":
        m = raw("map", ())
        if v.op == "lit":
            for kv in v.args:
                m = mset(m, T.proj(kv, None, None, "0"), T.proj(kv, None, None, "1"))
            return m
        return raw("opq", "mapfrom", v)
    if base(src).get("k") == "char" and is_string_ty(t):
        return seqlit([v])
    return v


@model("FromStr::from_str", "str::parse")
def m_parse(c):
    v = c.v(0)
    t = c.rty()
    k = "?"
    if t.get("aa") and t["aa"][0]:
        k = t["aa"][0]["s"]

    def f(s):
        if s.op == "lit" and all(is_num(x) for x in s.args):
            st = "".join(chr(int(x.args[0])) for x in s.args)
            body = st[1:] if st[:1] in "+-" else st
            if st[:1] == "-" and k.startswith("u"):
                return ERR
            if not (body.isascii() and body.isdigit()):
                return ERR
            bits = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}.get(k[1:]) if k[:1] in "iu" else None
            if bits and not (0 <= int(st) < 1 << bits if k[0] == "u" else -(1 << (bits - 1)) <= int(st) < 1 << (bits - 1)):
                return ERR
            return ok(num(int(st)))
        return raw("parse", s, k)
    r = lift(f, v)
    return r


# ------------------------------------------------------------------ panics, printing, formatting
@model("rt::panic_fmt", "panicking::panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display",
       "rt::begin_panic", "panicking::panic_nounwind", "panicking::unreachable_display", "option::unwrap_failed",
       "panicking::panic_explicit", "panicking::panic_str_2015", "process::abort", "process::exit", "panicking::assert_matches_failed")
def m_panic(c):
    c.I.panic(TRUE, "explicit", c.key, c.sp)
    return BOT


@model("panicking::todo_default_msg", "panicking::unimplemented_default_msg")
def m_todo(c):
    return UNIT


@model("io::_print", "io::_eprint")
def m_print(c):
    I = c.I
    I.effects.append((I.alive, "print", c.v(0), c.sp))
    return UNIT


@model("LocalKey::with")
def m_localkey(c):
    """the closure sees the thread's current value, which is not known and may change"""
    I = c.I
    return I.apply(c.raw(1), [I.temp(raw("opq", "static", c.v(0)))])


def display(I, v, ty):
    b = base(ty)
    v = I.val(v)
    if b.get("k") == "char":
        return seqlit([v])
    if is_string_ty(b):
        return v
    if b.get("k") == "bool":
        return ite(I.tobool(v), strlit("true"), strlit("false"))

    def f(x):
        if is_num(x) and x.args[0].denominator == 1 and (b.get("k") in ("int", "uint")):
            return strlit(str(int(x.args[0])))
        if x.op in T.SEQ_OPS and b.get("k") in ("param", "other"):
            return x
        return raw("tostr", x)
    return lift(f, v)


@model("ToString::to_string")
def m_tostring(c):
    return display(c.I, c.raw(0), c.aty(0))


@model("Argument::new_display")
def m_newdisplay(c):
    return display(c.I, c.raw(0), c.aty(0))


@model("Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_pointer", "Argument::new_binary")
def m_newdebug(c):
    return uf("dbgstr", deref_all(c.I, c.v(0)), c.key.split("_", 1)[1])


@model("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::as_str")
def m_argstr(c):
    return c.v(0)


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const")
def m_arguments(c):
    t = c.v(0)
    args = c.v(1) if len(c.args) > 1 else seqlit([])
    try:
        bs = [int(x.args[0]) for x in t.args]
        out = []
        i = 0
        n = 0
        while i < len(bs) and bs[i] != 0:
            b = bs[i]
            if b == 0xC0:
                out.append(c.I.val(args.args[n]))
                n += 1
                i += 1
            elif b < 0x80:
                s = bytes(bs[i + 1:i + 1 + b]).decode("utf8", "replace")
                out.append(strlit(s))
                i += 1 + b
            elif b == 0x80:
                ln = bs[i + 1] | bs[i + 2] << 8
                out.append(strlit(bytes(bs[i + 3:i + 3 + ln]).decode("utf8", "replace")))
                i += 3 + ln
            else:
                raise ValueError
        return seqcat(*out)
    except Exception:
        return raw("dbgstr", raw("tuple", t, *[c.I.val(a) for a in (args.args if args.op == "lit" else (args,))]), "fmt")


@model("Formatter::write_str", "Formatter::write_fmt")
def m_writestr(c):
    c.I.store(c.raw(0), raw("opq", "formatter"))
    return ok(UNIT)


# ------------------------------------------------------------------ arithmetic traits
def arith_ty(c):
    return base(c.aty(0)), base(c.aty(1))


def strof(I, v):
    return I.val(v)


@model("Add::add")
def m_add(c):
    a, b = c.v(0), c.v(1)
    if is_string_ty(base(c.aty(0))):
        return seqcat(a, b)
    return add(a, b)


@model("Sub::sub")
def m_sub(c):
    a, b = c.v(0), c.v(1)
    if base(c.aty(0)).get("k") == "uint":
        c.I.panic(lt(a, b), "arith", "subtract underflow", c.sp)
    return sub(a, b)


@model("Mul::mul")
def m_mul(c):
    return mul(c.v(0), c.v(1))


@model("Neg::neg")
def m_neg(c):
    return neg(c.v(0))


def do_div(I, a, b, ta, sp):
    if is_int_ty(ta):
        I.panic(eq(b, ZERO), "arith", "divide by zero", sp)
        return T.idiv(a, b)
    if is_poly_type(ta):
        I.panic(eq(b, ZERO), "explicit", "division by the zero polynomial", sp)
        return T.pquot(a, b)
    I.panic(eq(b, ZERO), "explicit", "division by zero", sp)
    return T.div(a, b)


@model("Div::div")
def m_div(c):
    return do_div(c.I, c.v(0), c.v(1), c.aty(0), c.sp)


@model("Rem::rem")
def m_rem(c):
    a, b = c.v(0), c.v(1)
    c.I.panic(eq(b, ZERO), "arith", "remainder by zero", c.sp)
    if is_poly_type(c.aty(0)):
        return T.prem(a, b)
    return T.mod(a, b)


def tupled(v, I):
    return v.op == "tuple" and len(v.args) == 2


@model("AddAssign::add_assign")
def m_adda(c):
    a, b = c.v(0), c.v(1)
    if is_string_ty(base(c.aty(0))):
        r = seqcat(a, b)
    elif b.op == "tuple" and len(b.args) == 2:
        r = add(a, mul(c.I.val(b.args[0]), c.I.val(b.args[1])))
    else:
        r = add(a, b)
    c.I.store(c.I.through(c.raw(0)), r)


@model("SubAssign::sub_assign")
def m_suba(c):
    a, b = c.v(0), c.v(1)
    if base(c.aty(0)).get("k") == "uint":
        c.I.panic(lt(a, b), "arith", "subtract underflow", c.sp)
    c.I.store(c.I.through(c.raw(0)), sub(a, b))


@model("MulAssign::mul_assign")
def m_mula(c):
    c.I.store(c.I.through(c.raw(0)), mul(c.v(0), c.v(1)))


@model("DivAssign::div_assign")
def m_diva(c):
    c.I.store(c.I.through(c.raw(0)), do_div(c.I, c.v(0), c.v(1), base(c.aty(0)), c.sp))


@model("RemAssign::rem_assign")
def m_rema(c):
    c.I.store(c.I.through(c.raw(0)), T.mod(c.v(0), c.v(1)))


@model("Not::not")
def m_not(c):
    return Not(c.I.tobool(c.raw(0)))


@model("Shl::shl", "Shr::shr", "BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor")
def m_bits(c):
    op = {"shl": "Shl", "shr": "Shr", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[c.key.split("::")[1]]
    return c.I.binop(op, c.v(0), c.v(1), base(c.aty(0)), c.e)


@model("PartialEq::eq")
def m_eq(c):
    return veq(c.I, c.raw(0), c.raw(1))


@model("PartialEq::ne")
def m_ne(c):
    return Not(veq(c.I, c.raw(0), c.raw(1)))


@model("PartialOrd::lt")
def m_lt(c):
    return lt(c.v(0), c.v(1))


@model("PartialOrd::gt")
def m_gt(c):
    return lt(c.v(1), c.v(0))


@model("PartialOrd::le")
def m_le(c):
    return ge(c.v(1), c.v(0))


@model("PartialOrd::ge")
def m_ge(c):
    return ge(c.v(0), c.v(1))


@model("Ord::min", "cmp::min")
def m_min(c):
    return T.imin(c.v(0), c.v(1))


@model("Ord::max", "cmp::max")
def m_max(c):
    a, b = c.v(0), c.v(1)
    return sub(add(a, b), T.imin(a, b))


# integers
for _t in ("usize", "u64", "u32", "u128", "u8", "i32", "i64", "u16", "i128", "isize"):
    MODELS[_t + "::ilog2"] = lambda c: (c.I.panic(ge(ZERO, c.v(0)), "arith", "ilog2 of zero", c.sp), T.ilog2(c.v(0)))[1]
    MODELS[_t + "::trailing_zeros"] = lambda c: T.ilog2(c.v(0)) if c.v(0) in T.POW2 else uf("tzeros", c.v(0))
    MODELS[_t + "::next_power_of_two"] = lambda c: T.npow2(c.v(0))
    MODELS[_t + "::is_power_of_two"] = lambda c: eq(T.npow2(c.v(0)), c.v(0)) if True else None
    MODELS[_t + "::pow"] = lambda c: T.power(c.v(0), c.v(1))
    MODELS[_t + "::wrapping_add"] = lambda c: add(c.v(0), c.v(1))
    MODELS[_t + "::wrapping_sub"] = lambda c: sub(c.v(0), c.v(1))
    MODELS[_t + "::wrapping_mul"] = lambda c: mul(c.v(0), c.v(1))
    MODELS[_t + "::saturating_sub"] = lambda c: T.max0(sub(c.v(0), c.v(1)))
    MODELS[_t + "::saturating_add"] = lambda c: add(c.v(0), c.v(1))
    MODELS[_t + "::saturating_mul"] = lambda c: mul(c.v(0), c.v(1))
    MODELS[_t + "::checked_sub"] = lambda c: ite(ge(c.v(0), c.v(1)), some(sub(c.v(0), c.v(1))), NONE)
    MODELS[_t + "::checked_add"] = lambda c: some(add(c.v(0), c.v(1)))
    MODELS[_t + "::checked_shl"] = lambda c, _w=int(_t[1:]) if _t[1:].isdigit() else 64: ite(lt(c.v(1), num(_w)), some(mul(c.v(0), T.power(num(2), c.v(1)))), NONE)
    MODELS[_t + "::checked_mul"] = lambda c: some(mul(c.v(0), c.v(1)))
    MODELS[_t + "::checked_div"] = lambda c: ite(eq(c.v(1), ZERO), NONE, some(T.idiv(c.v(0), c.v(1))))
    MODELS[_t + "::checked_rem"] = lambda c: ite(eq(c.v(1), ZERO), NONE, some(T.mod(c.v(0), c.v(1))))
    MODELS[_t + "::checked_pow"] = lambda c: some(T.power(c.v(0), c.v(1)))
    MODELS[_t + "::next_multiple_of"] = lambda c: T.mul(T.uf("idiv", T.add(T.sub(c.v(1), ONE), c.v(0)), c.v(1)), c.v(1))
    MODELS[_t + "::checked_next_power_of_two"] = lambda c: some(T.npow2(c.v(0)))
    MODELS[_t + "::checked_ilog2"] = lambda c: ite(ge(ZERO, c.v(0)), NONE, some(T.ilog2(c.v(0))))
    MODELS[_t + "::abs_diff"] = lambda c: ite(ge(c.v(0), c.v(1)), sub(c.v(0), c.v(1)), sub(c.v(1), c.v(0)))
    MODELS[_t + "::div_ceil"] = lambda c: T.idiv(add(c.v(0), sub(c.v(1), ONE)), c.v(1))
    MODELS[_t + "::to_le_bytes"] = lambda c, w={"u64": 8, "usize": 8, "u32": 4, "u128": 16, "u8": 1, "u16": 2}.get(_t, 8): lift(lambda x: raw("lebytes", x, w), c.v(0))
    MODELS[_t + "::to_be_bytes"] = lambda c, w={"u64": 8, "usize": 8, "u32": 4, "u128": 16, "u8": 1, "u16": 2}.get(_t, 8): T.rev(lift(lambda x: raw("lebytes", x, w), c.v(0)))
    MODELS[_t + "::from_le_bytes"] = lambda c: leint(c.v(0))
    MODELS[_t + "::from_be_bytes"] = lambda c: leint(T.rev(c.v(0)))
    MODELS[_t + "::is_multiple_of"] = lambda c: eq(T.mod(c.v(0), c.v(1)), ZERO)


def leint(s):
    def f(x):
        if x.op == "lebytes":
            return x.args[0]
        r = raw("leint", x)
        r.ty = {"k": "uint", "n": "u64", "s": "u64"}
        return r
    return lift(f, s)


# ------------------------------------------------------------------ fields and groups
@model("Zero::zero")
def m_zero(c):
    return ZERO


@model("AffineRepr::zero", "Affine::identity", "Projective::zero")
def m_gzero(c):
    return ZERO


@model("One::one")
def m_one(c):
    return ONE


@model("Zero::is_zero", "AffineRepr::is_zero")
def m_iszero(c):
    return eq(c.v(0), ZERO)


@model("One::is_one")
def m_isone(c):
    return eq(c.v(0), ONE)


@model("One::set_one")
def m_setone(c):
    c.I.store(c.I.through(c.raw(0)), ONE)


@model("Zero::set_zero")
def m_setzero(c):
    c.I.store(c.I.through(c.raw(0)), ZERO)


@model("Field::square")
def m_square(c):
    v = c.v(0)
    return mul(v, v)


@model("Field::square_in_place")
def m_squarei(c):
    r = c.I.through(c.raw(0))
    v = c.v(0)
    c.I.store(r, mul(v, v))
    return r


@model("Field::double", "AdditiveGroup::double", "Group::double")
def m_double(c):
    return mul(num(2), c.v(0))


@model("AdditiveGroup::double_in_place", "Field::double_in_place")
def m_doublei(c):
    r = c.I.through(c.raw(0))
    c.I.store(r, mul(num(2), c.v(0)))
    return r


@model("AdditiveGroup::neg_in_place", "Field::neg_in_place")
def m_negi(c):
    r = c.I.through(c.raw(0))
    c.I.store(r, neg(c.v(0)))
    return r


@model("Field::inverse")
def m_inverse(c):
    v = c.v(0)
    return ite(eq(v, ZERO), NONE, some(inv(v)))


@model("Field::pow")
def m_pow(c):
    e = c.v(1)

    def f(x):
        if x.op == "biglimbs" and x.args[0].op == "lit":
            x = x.args[0]
        if x.op == "lit":
            r = ZERO
            for i, y in enumerate(x.args):
                r = add(r, mul(c.I.val(y), num(2 ** (64 * i))))
            return r
        if T.is_seq(x):
            return uf("limbs", x)
        return x
    return T.power(c.v(0), lift(f, e))


@model("AffineRepr::generator", "PrimeGroup::generator", "Group::generator")
def m_generator(c):
    t = c.rty()
    s = t["s"]
    g2 = "g2" in s.lower()
    r = raw("generator", "G2" if g2 else ("G1" if "g1" in s.lower() else s))
    return r


@model("Pairing::pairing")
def m_pairing(c):
    return mul(c.v(0), c.v(1))


@model("Pairing::multi_pairing")
def m_mpairing(c):
    I = c.I
    a = collect_seq(I, to_iter(I, c.raw(0)), c.fr)
    b = collect_seq(I, to_iter(I, c.raw(1)), c.fr)
    return T.summ(T.imin(length(a), length(b)), lambda k: mul(idx(a, k), idx(b, k)))


@model("VariableBaseMSM::msm", "VariableBaseMSM::msm_unchecked")
def m_msm(c):
    a, b = c.v(0), c.v(1)
    s = T.summ(T.imin(length(a), length(b)), lambda k: mul(idx(a, k), idx(b, k)))
    if c.key.endswith("unchecked"):
        return s
    return ite(eq(length(a), length(b)), ok(s), ERR)


@model("PrimeField::into_bigint", "BigInt::new")
def m_intobig(c):
    v = c.v(0)
    if c.key == "BigInt::new":
        if v.op == "lit" and all(is_num(x) for x in v.args):
            r = ZERO
            for i, y in enumerate(v.args):
                r = add(r, mul(y, num(2 ** (64 * i))))
            return bigint(r)
        return lift(lambda x: raw("biglimbs", x), v)
    return bigint(v)


def bigint(v):
    return lift(lambda x: raw("bigint", x), v)


def unbig(v):
    return lift(lambda x: x.args[0] if x.op == "bigint" else uf("unbig", x), v)


T.CONS["bigint"] = bigint


@model("BigInteger::mul2", "BigInteger::div2")
def m_mul2(c):
    v = unbig(c.v(0))
    c.I.store(c.I.through(c.raw(0)), bigint(mul(v, num(2)) if c.key.endswith("mul2") else T.idiv(v, num(2))))
    return FALSE


@model("BigInteger::to_bytes_le")
def m_tobytes(c):
    return lift(lambda x: raw("lebytes", x, 32), unbig(c.v(0)))


@model("BigInteger::to_bytes_be")
def m_tobytesbe(c):
    return T.rev(lift(lambda x: raw("lebytes", x, 32), unbig(c.v(0))))


@model("PrimeField::from_le_bytes_mod_order")
def m_frombytes(c):
    def f(x):
        if x.op == "lebytes":
            return x.args[0]
        if x.op == "rev" and x.args[0].op == "lebytes":
            return raw("lemod", x)
        return raw("lemod", x)
    return lift(f, c.v(0))


@model("PrimeField::from_be_bytes_mod_order")
def m_frombytesbe(c):
    return lift(lambda x: x.args[0] if x.op == "lebytes" else raw("lemod", x), T.rev(c.v(0)))


# ------------------------------------------------------------------ polynomials
@model("DenseUVPolynomial::from_coefficients_vec", "DenseUVPolynomial::from_coefficients_slice", "DensePolynomial::from_coefficients_vec",
       "DensePolynomial::from_coefficients_slice")
def m_fromcoeffs(c):
    v = c.v(0)
    if I_has(c, v):
        v = deref_all(c.I, v)
    return T.fromcoeffs(v)


@model("SparsePolynomial::from_coefficients_slice", "SparsePolynomial::from_coefficients_vec")
def m_sparse(c):
    v = c.v(0)
    if v.op == "lit":
        r = ZERO
        for x in v.args:
            r = add(r, mul(c.I.val(proj(x, None, None, "1")), T.power(T.X, c.I.val(proj(x, None, None, "0")))))
        return r
    return raw("opq", "sparse", v)


@model("DenseUVPolynomial::coeffs", "DensePolynomial::coeffs")
def m_coeffs(c):
    return T.coeffs(c.v(0))


@model("Polynomial::evaluate")
def m_evaluate(c):
    return T.peval(c.v(0), c.v(1))


@model("Polynomial::degree")
def m_degree(c):
    return T.max0(sub(T.clen(c.v(0)), ONE))


@model("DenseOrSparsePolynomial::divide_with_q_and_r")
def m_divqr(c):
    a, b = c.v(0), c.v(1)
    c.I.panic(eq(b, ZERO), "explicit", "division by the zero polynomial", c.sp)
    return some(raw("tuple", T.pquot(a, b), T.prem(a, b)))


def domsize(d):
    return lift(lambda x: x.args[0] if x.op == "dom" else uf("dsize", x), d)


@model("DensePolynomial::divide_by_vanishing_poly")
def m_divv(c):
    p, d = c.v(0), c.v(1)
    v = T.vanish(domsize(d))
    r = raw("tuple", T.pquot(p, v), T.prem(p, v))
    if tail(c.rty()) == "Option":
        return some(r)
    return r


@model("DensePolynomial::mul_by_vanishing_poly")
def m_mulv(c):
    return mul(c.v(0), T.vanish(domsize(c.v(1))))


@model("EvaluationDomain::new")
def m_domnew(c):
    n = T.npow2(c.v(0))
    return ite(domok(n), some(lift(lambda x: raw("dom", x), n)), NONE)


DOMOK = [True]


def domok(n):
    if DOMOK[0]:
        return TRUE
    return lift(lambda x: TRUE if is_num(x) and x.args[0] <= 2 ** 30 else T.lit(raw("domok", x)), n)


@model("EvaluationDomain::size", "EvaluationDomain::size_as_field_element")
def m_domsize(c):
    return domsize(c.v(0))


@model("EvaluationDomain::group_gen")
def m_groupgen(c):
    return T.root(domsize(c.v(0)), ONE)


@model("EvaluationDomain::group_gen_inv")
def m_groupgeninv(c):
    return T.root(domsize(c.v(0)), num(-1))


@model("EvaluationDomain::element")
def m_element(c):
    return T.root(domsize(c.v(0)), c.v(1))


@model("EvaluationDomain::elements")
def m_elements(c):
    n = domsize(c.v(0))
    return raw("iter", raw("it_seq", tab(n, lambda k: T.root(n, k))), ZERO)


@model("EvaluationDomain::evaluate_vanishing_polynomial")
def m_evv(c):
    return T.peval(T.vanish(domsize(c.v(0))), c.v(1))


@model("EvaluationDomain::vanishing_polynomial")
def m_vp(c):
    return T.vanish(domsize(c.v(0)))


@model("EvaluationDomain::ifft")
def m_ifft(c):
    s, n = c.v(1), domsize(c.v(0))
    p = T.interp(s, n)
    return tab(n, lambda k: T.pcoeff(p, k))


@model("EvaluationDomain::fft")
def m_fft(c):
    s, n = c.v(1), domsize(c.v(0))
    p = T.fromcoeffs(s)
    return tab(n, lambda k: T.peval(p, T.root(n, k)))


@model("Evaluations::from_vec_and_domain")
def m_evals(c):
    return raw("tuple", c.v(0), c.v(1))


@model("Evaluations::interpolate", "Evaluations::interpolate_by_ref")
def m_interp(c):
    e = c.v(0)
    s, d = proj(e, None, None, "0"), proj(e, None, None, "1")
    return T.interp(s, domsize(d))


# ------------------------------------------------------------------ hashing, serialisation, randomness
def tkey(ty):
    return ty["s"] if isinstance(ty, dict) else "?"


def as_bytes(I, v):
    v = deref_all(I, I.val(v))
    return v


@model("Digest::new", "Digest::digest")
def m_dignew(c):
    st = c.ga(0)
    h = raw("hasher", tkey(st), seqlit([]))
    if c.key == "Digest::digest":
        return lift(lambda d: raw("hash", tkey(st), d), as_bytes(c.I, c.raw(0)))
    return h


def feed(I, place, b):
    """append bytes to a hasher / byte vector / local writer; returns False when not understood"""
    v = I.val(place)
    if v.op == "ite":
        leafs = T.leaves(v)
        if all(x.op == "hasher" for x in leafs):
            I.store(I.through(place), lift(lambda x, y: raw("hasher", x.args[0], seqcat(x.args[1], y)), v, b))
            return True
    if v.op == "hasher":
        I.store(I.through(place), lift(lambda y: raw("hasher", v.args[0], seqcat(v.args[1], y)), b))
        return True
    if T.is_seq(v) or (v.op == "ite" and T.is_seq(T.leaves(v)[0])):
        I.store(I.through(place), seqcat(v, b))
        return True
    if v.op == "adt":
        m = I.method_on(v.args[0], "Write", "write") or I.method_on(v.args[0], "Write", "write_all")
        if m:
            I.call(m, [I.through(place), b], {})
            return True
    return False


@model("Digest::update", "Update::update")
def m_update(c):
    if not feed(c.I, c.raw(0), as_bytes(c.I, c.raw(1))):
        h = c.v(0)
        c.I.store(c.I.through(c.raw(0)), raw("hasher", "?", seqcat(lift(lambda x: raw("hstate", x), h), as_bytes(c.I, c.raw(1)))))


@model("Digest::chain_update")
def m_chain(c):
    h = c.v(0)
    b = as_bytes(c.I, c.raw(1))
    return lift(lambda x, y: raw("hasher", x.args[0], seqcat(x.args[1], y)) if x.op == "hasher" else raw("hasher", "?", seqcat(raw("hstate", x), y)), h, b)


@model("Digest::finalize", "FixedOutput::finalize_fixed", "Digest::finalize_reset")
def m_finalize(c):
    h = c.v(0)
    r = lift(lambda x: hashof(x), h)
    if c.key.endswith("reset"):
        c.I.store(c.I.through(c.raw(0)), lift(lambda x: raw("hasher", x.args[0] if x.op == "hasher" else "?", seqlit([])), h))
    return r


def hashof(x):
    if x.op == "hasher":
        return lift(lambda d: raw("hash", x.args[0], d), x.args[1])
    return raw("hash", "?", seqlit([raw("hstate", x)]))


@model("Digest::reset")
def m_reset(c):
    h = c.v(0)
    c.I.store(c.I.through(c.raw(0)), lift(lambda x: raw("hasher", x.args[0] if x.op == "hasher" else "?", seqlit([])), h))


@model("CanonicalSerialize::serialize_uncompressed", "CanonicalSerialize::serialize_compressed", "CanonicalSerialize::serialize_with_mode")
def m_serialize(c):
    x = deref_all(c.I, c.v(0))
    mode = "c" if c.key.endswith("_compressed") else "u"
    b = serbytes(x, mode, serlen(c.ga(0), mode))
    if not feed(c.I, c.raw(1), b):
        return c.I.opaque("serialize-writer", [c.raw(1)])
    return ok(UNIT)


def serlen(ty, mode):
    """length of the encoding of a value of the type, when it is a curve point or a field element"""
    s = (ty or {}).get("s", "")
    while s.startswith("&"):
        s = s[1:].strip()
    if "FrConfig" in s and not s.startswith(("std::", "[", "alloc::")):
        return 32
    if "short_weierstrass::Affine" in s and "g1::" in s and not s.startswith(("std::", "[", "alloc::")):
        return 96 if mode == "u" else 48
    return None


def serbytes(x, mode="u", n=None):
    return lift(lambda y: raw("serbytes", y, mode, n) if n else raw("serbytes", y, mode), x)


@model("Write::write_all", "Write::write")
def m_write(c):
    b = as_bytes(c.I, c.raw(1))
    if feed(c.I, c.raw(0), b):
        return ok(length(b)) if c.key.endswith("write") else ok(UNIT)
    return NotImplemented


@model("SeedableRng::seed_from_u64", "SeedableRng::from_seed", "SeedableRng::from_rng")
def m_seed(c):
    v = c.v(0)
    if v.op == "rng":
        return raw("rng", raw("rand", v.args[0], v.args[1], "seed"), ZERO)
    return lift(lambda s: raw("rng", raw("seed", s, c.key.split("_")[-1]), ZERO), v)


@model("SeedableRng::from_entropy", "rand::thread_rng", "rand::rng", "rngs::thread_rng", "rand::random", "test_rng", "SeedableRng::from_os_rng",
       "thread::thread_rng")
def m_entropy(c):
    I = c.I
    n = I.entropy
    I.entropy += 1
    s = raw("entropy", num(n), tuple(I.loopk))
    I.effects.append((I.alive, "entropy", s, c.sp))
    if c.key.endswith("random"):
        return raw("rand", s, ZERO, tkey(c.rty()))
    return raw("rng", s, ZERO)


MODELS["OsRng"] = m_entropy


def draw(c, place, ty):
    I = c.I
    v = I.val(place)
    pl = I.through(place) if place.op in ("ref", "ite") else None

    def conv(x):
        return x if x.op == "rng" else raw("rng", x, ZERO)
    r = lift(conv, v)
    k = tkey(ty)
    out = lift(lambda x: mkrand(x.args[0], x.args[1], k, ty), r)
    if pl is not None:
        I.store(pl, lift(lambda x: raw("rng", x.args[0], add(x.args[1], ONE)), r))
    else:
        I.unmodelled["rng-by-value"] += 1
        return raw("opq", "rng", out)
    return out


def mkrand(s, n, k, ty=None):
    def f(m):
        r = raw("rand", s, m, k)
        if r.ty is None and ty is not None and ty.get("k") == "uint":
            r.ty = ty
        return r
    return lift(f, n)


@model("UniformRand::rand")
def m_rand(c):
    return draw(c, c.raw(0), c.rty())


@model("Rng::gen", "Rng::random", "RngCore::next_u64", "RngCore::next_u32", "Rng::r#gen")
def m_gen(c):
    return draw(c, c.raw(0), c.rty())


@model("Rng::gen_range", "Rng::random_range", "Rng::gen_bool", "RngCore::fill_bytes", "Rng::fill")
def m_genrange(c):
    v = draw(c, c.raw(0), c.rty())
    if c.key.endswith("fill_bytes") or c.key.endswith("fill"):
        n = length(c.v(1))
        c.I.store(c.I.through(c.raw(1)), tab(n, lambda k: uf("randbyte", v, k)))
        return UNIT
    return uf("randin", v, deref_all(c.I, c.v(1)))


# ------------------------------------------------------------------ Vec / slices
def sto(c, v, i=0):
    c.I.store(c.I.through(c.raw(i)), v)


@model("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity", "VecDeque::new")
def m_vecnew(c):
    return seqlit([])


@model("vec::from_elem")
def m_fromelem(c):
    v = c.raw(0)
    return tab(c.v(1), lambda k: v)


@model("Box::new_uninit")
def m_uninit(c):
    return UNIT


@model("intrinsics::write_box_via_move")
def m_wbox(c):
    return c.raw(1)


@model("Vec::push", "String::push", "VecDeque::push_back")
def m_push(c):
    sto(c, seqcat(c.v(0), seqlit([c.raw(1)])))


@model("String::push_str", "Vec::extend_from_slice", "Vec::append_slice")
def m_pushstr(c):
    sto(c, seqcat(c.v(0), c.v(1)))


@model("Extend::extend", "Vec::extend")
def m_extend(c):
    I = c.I
    it = to_iter(I, c.raw(1))
    s = collect_seq(I, it, c.fr)
    s2 = deref_lit(I, s)
    sto(c, seqcat(c.v(0), s2))


def deref_lit(I, s):
    if s.op == "lit" and any(x.op == "ref" for x in s.args):
        return seqlit([I.val(x) for x in s.args])
    return s


@model("Vec::append")
def m_append(c):
    b = c.v(1)
    sto(c, seqcat(c.v(0), b))
    sto(c, seqlit([]), 1)


@model("Vec::pop", "String::pop", "VecDeque::pop_back")
def m_pop(c):
    v = c.v(0)
    n = length(v)
    e = eq(n, ZERO)
    I = c.I

    def nonempty():
        sto(c, lift(lambda x: droplast(x), v))
        return some(idx(v, sub(n, ONE)))
    return I.branch(e, lambda: NONE, nonempty)


def droplast(x):
    if x.op == "lit":
        return seqlit(x.args[:-1])
    if x.op == "cat" and x.args[-1].op == "lit":
        return seqcat(*x.args[:-1], seqlit(x.args[-1].args[:-1]))
    return seqslice(x, ZERO, sub(length(x), ONE))


@model("Vec::resize_with")
def m_resize_with(c):
    I = c.I
    v, n = c.v(0), c.v(1)
    L = length(v)

    def grow():
        s = collect_seq(I, mkiter(raw("it_take", raw("it_repw", c.raw(2)), sub(n, L))), c.fr)
        sto(c, seqcat(c.v(0), deref_lit(I, s)))
        return UNIT

    def shrink():
        sto(c, seqslice(v, ZERO, n))
        return UNIT
    return I.branch(ge(n, L), grow, shrink)


@model("Vec::resize")
def m_resize(c):
    v, n, x = c.v(0), c.v(1), c.raw(2)
    L = length(v)

    def grow():
        sto(c, seqcat(v, tab(sub(n, L), lambda k: x)))
        return UNIT

    def shrink():
        sto(c, seqslice(v, ZERO, n))
        return UNIT
    d = ge(n, L)
    # extension by max(0, n - len) when it cannot shrink
    return c.I.branch(d, grow, shrink)


@model("Vec::truncate", "String::truncate")
def m_truncate(c):
    v, n = c.v(0), c.v(1)
    sto(c, seqslice(v, ZERO, T.imin(n, length(v))))


@model("Vec::clear", "String::clear", "VecDeque::clear")
def m_clear(c):
    sto(c, seqlit([]))


@model("Vec::insert", "String::insert")
def m_vinsert(c):
    v, i = c.v(0), c.v(1)
    n = length(v)
    c.I.panic(lt(n, i), "oob", "insert", c.sp)
    sto(c, seqcat(seqslice(v, ZERO, i), seqlit([c.raw(2)]), seqslice(v, i, n)))


@model("Vec::remove", "String::remove")
def m_vremove(c):
    v, i = c.v(0), c.v(1)
    n = length(v)
    c.I.panic(ge(i, n), "oob", "remove", c.sp)
    sto(c, seqcat(seqslice(v, ZERO, i), seqslice(v, add(i, ONE), n)))
    return idx(v, i)


@model("Vec::swap_remove")
def m_swapremove(c):
    v, i = c.v(0), c.v(1)
    n = length(v)
    c.I.panic(ge(i, n), "oob", "swap_remove", c.sp)
    sto(c, droplast_any(seqset(v, i, idx(v, sub(n, ONE)))))
    return idx(v, i)


def droplast_any(v):
    return lift(droplast, v)


@model("Vec::len", "slice::len", "str::len", "String::len", "HashMap::len", "VecDeque::len", "ExactSizeIterator::len")
def m_len(c):
    v = c.v(0)
    if v.op == "iter":
        n = it_len(c.I, v.args[0])
        return T.max0(sub(n, v.args[1])) if n is not None else raw("opq", "iterlen")
    if v.op == "map":
        return num(len(v.args[0]))
    if v.op in ("mput", "mdel"):
        return uf("maplen", v)
    return length(v)


@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "VecDeque::is_empty")
def m_isempty(c):
    return eq(length(c.v(0)), ZERO)


@model("HashMap::is_empty", "BTreeMap::is_empty")
def m_mapempty(c):
    v = c.v(0)
    return (TRUE if not v.args[0] else FALSE) if v.op == "map" else T.lit(uf("mapempty", v))


def opt_elem(c, v, i, cond, mutable):
    if mutable:
        r = c.I.through(c.raw(0))
        return ite(cond, some(c.I.sub_ref(r, ("i", i))), NONE)
    return ite(cond, some(idx(v, i)), NONE) if cond is not FALSE else NONE


@model("slice::first", "Vec::first", "VecDeque::front")
def m_first(c):
    v = c.v(0)
    return opt_elem(c, v, ZERO, ge(length(v), ONE), False)


@model("slice::first_mut")
def m_firstm(c):
    v = c.v(0)
    return opt_elem(c, v, ZERO, ge(length(v), ONE), c.raw(0).op in ("ref", "ite"))


@model("slice::last", "Vec::last", "VecDeque::back")
def m_last(c):
    v = c.v(0)
    n = length(v)
    return opt_elem(c, v, sub(n, ONE), ge(n, ONE), False)


@model("slice::last_mut")
def m_lastm(c):
    v = c.v(0)
    n = length(v)
    return opt_elem(c, v, sub(n, ONE), ge(n, ONE), True)


@model("slice::get", "Vec::get", "VecDeque::get", "str::get")
def m_get(c):
    v, i = c.v(0), c.v(1)
    if i.op == "adt" and i.args[0] == "Range":
        lo, hi, bad = range_bounds(i, length(v))
        return ite(bad, NONE, some(seqslice(v, lo, hi)))
    return opt_elem(c, v, i, lt(i, length(v)), False)


@model("slice::get_mut")
def m_getm(c):
    v, i = c.v(0), c.v(1)
    return opt_elem(c, v, i, lt(i, length(v)), True)


@model("slice::swap")
def m_swap(c):
    v, i, j = c.v(0), c.v(1), c.v(2)
    n = length(v)
    c.I.panic(Or(ge(i, n), ge(j, n)), "oob", "swap", c.sp)
    sto(c, seqset(seqset(v, i, idx(v, j)), j, idx(v, i)))


@model("slice::reverse", "Vec::reverse")
def m_reverse(c):
    sto(c, T.rev(c.v(0)))


@model("slice::rotate_left")
def m_rotl(c):
    v, k = c.v(0), c.v(1)
    c.I.panic(lt(length(v), k), "oob", "rotate_left", c.sp)
    sto(c, T.rotl(v, k))


@model("slice::rotate_right")
def m_rotr(c):
    v, k = c.v(0), c.v(1)
    n = length(v)
    c.I.panic(lt(n, k), "oob", "rotate_right", c.sp)
    sto(c, lift(lambda x, j: rotr1(x, j), v, k))


def rotr1(x, k):
    n = length(x)
    if x.op == "lit" and is_num(k):
        return T.rotl(x, sub(n, k)) if x.args else x
    return T.rotl(x, sub(n, k))


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copyfrom(c):
    a, b = c.v(0), c.v(1)
    c.I.panic(Not(eq(length(a), length(b))), "explicit", "copy_from_slice length", c.sp)
    sto(c, b)


@model("slice::fill")
def m_fill(c):
    x = c.raw(1)
    sto(c, tab(length(c.v(0)), lambda k: x))


@model("slice::contains", "Vec::contains")
def m_contains(c):
    v, x = c.v(0), c.v(1)
    return T.exists(length(v), lambda k: T.eq(idx(v, k), x))


@model("slice::concat", "slice::join")
def m_concat(c):
    v = c.v(0)
    if v.op == "lit":
        out = []
        for n, x in enumerate(v.args):
            if n and c.key.endswith("join"):
                out.append(c.v(1))
            out.append(c.I.val(x))
        return seqcat(*out)
    if c.key.endswith("concat"):
        k = fresh()
        return T.mkflat(length(v), k, idx(v, k))
    return uf("strfn", "join", v, c.v(1))


@model("slice::split_at", "slice::split_at_mut")
def m_splitat(c):
    v, m = c.v(0), c.v(1)
    n = length(v)
    c.I.panic(lt(n, m), "oob", "split_at", c.sp)
    if c.key.endswith("mut"):
        r = c.I.through(c.raw(0))
        return raw("tuple", c.I.sub_ref(r, ("sl", ZERO, m)), c.I.sub_ref(r, ("sl", m, n)))
    return raw("tuple", seqslice(v, ZERO, m), seqslice(v, m, n))


@model("Vec::split_off")
def m_splitoff(c):
    v, m = c.v(0), c.v(1)
    n = length(v)
    c.I.panic(lt(n, m), "oob", "split_off", c.sp)
    sto(c, seqslice(v, ZERO, m))
    return seqslice(v, m, n)


@model("slice::split_first")
def m_splitfirst(c):
    v = c.v(0)
    n = length(v)
    return ite(ge(n, ONE), some(raw("tuple", idx(v, ZERO), seqslice(v, ONE, n))), NONE)


@model("slice::split_last")
def m_splitlast(c):
    v = c.v(0)
    n = length(v)
    return ite(ge(n, ONE), some(raw("tuple", idx(v, sub(n, ONE)), seqslice(v, ZERO, sub(n, ONE)))), NONE)


@model("slice::starts_with")
def m_startswith(c):
    v, p = c.v(0), c.v(1)
    n = length(p)
    return And(ge(length(v), n), T.seq_eq(seqslice(v, ZERO, n), p))


def range_bounds(r, n):
    """(lo, hi, out-of-bounds condition) of a range value over a sequence of length n"""
    d = dict(r.args[2])
    k = d["k"].args[0]
    lo = d.get("start", ZERO)
    if k in ("Range", "RangeTo"):
        hi = d["end"]
    elif k in ("RangeInclusive", "RangeToInclusive"):
        hi = add(d["end"], ONE)
    else:
        hi = n
    return lo, hi, Or(lt(hi, lo), lt(n, hi))


@model("RangeInclusive::new")
def m_rangeincl(c):
    return adt("Range", None, [("k", raw("str", "RangeInclusive")), ("end", c.v(1)), ("start", c.v(0))])


@model("Range::contains", "RangeInclusive::contains")
def m_rangecontains(c):
    r, x = c.v(0), c.v(1)
    d = dict(r.args[2])
    up = lt(x, d["end"]) if d["k"].args[0] == "Range" else ge(d["end"], x)
    return And(ge(x, d["start"]), up)


@model("Index::index")
def m_index(c):
    v, i = c.v(0), c.v(1)
    I = c.I
    if tail(base(c.aty(0))) in ("HashMap", "BTreeMap"):
        I.panic(Not(mhas(v, i)), "explicit", "missing key", c.sp)
        return mget_val(v, i)
    if i.op == "adt" and i.args[0] == "Range":
        lo, hi, bad = range_bounds(i, length(v))
        I.panic(bad, "oob", "slice", c.sp)
        return seqslice(v, lo, hi)
    I.bounds(v, i, c.e)
    r = c.raw(0)
    if r.op == "ref" and "RefCell" in c.rty()["s"]:
        return I.sub_ref(I.through(r), ("i", i))
    return idx(v, i)


@model("IndexMut::index_mut")
def m_indexmut(c):
    v, i = c.v(0), c.v(1)
    I = c.I
    r = I.through(c.raw(0)) if c.raw(0).op in ("ref", "ite") else None
    if r is None:
        I.unmodelled["index_mut-place"] += 1
        return raw("opq", "index_mut", v, i)
    if i.op == "adt" and i.args[0] == "Range":
        lo, hi, bad = range_bounds(i, length(v))
        I.panic(bad, "oob", "slice", c.sp)
        return I.sub_ref(r, ("sl", lo, hi))
    I.bounds(v, i, c.e)
    return I.sub_ref(r, ("i", i))


# ------------------------------------------------------------------ Option / Result
def isok(v):
    def f(x):
        if x.op == "adt":
            return TRUE if x.args[1] in ("Some", "Ok") else FALSE
        t = x.ty
        if t and tail(t) == "Result" or x.op == "parse":
            return isvariant(x, "Result", "Ok")
        return isvariant(x, "Option", "Some")
    return lift(f, v)


def payload(v):
    def f(x):
        if x.op == "adt":
            return x.args[2][0][1] if x.args[2] else BOT
        t = x.ty
        if t and tail(t) == "Result" or x.op == "parse":
            r = proj(x, "Result", "Ok", "0")
        else:
            r = proj(x, "Option", "Some", "0")
        if r.ty is None and t and t.get("aa") and isinstance(t["aa"][0], dict):
            r.ty = strip(t["aa"][0])
        return r
    return lift(f, v)


def strip(t):
    while t and t.get("k") == "ref":
        t = t["tt"]
    return t


def constrain_to(v, cond):
    from .interp import constrain
    return constrain(v, cond)


def good(v, cond=None):
    """payload of v on the paths where it is present"""
    from .interp import constrain
    return constrain(payload(v), cond if cond is not None else isok(v))


def tagopt(c, v, i=0):
    if v.ty is None and v.op in ("proj", "idx", "param", "ext", "uf"):
        v.ty = base(c.aty(i))
    return v


@model("Option::is_some", "Result::is_ok")
def m_issome(c):
    return isok(tagopt(c, c.v(0)))


@model("Option::is_none", "Result::is_err")
def m_isnone(c):
    return Not(isok(tagopt(c, c.v(0))))


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def m_unwrap(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    c.I.panic(Not(k), "explicit", c.key + " on " + ("None" if "Option" in c.key else "Err"), c.sp)
    if c.I.alive is FALSE:
        return BOT
    return good(v, k)


@model("Result::unwrap_err", "Result::expect_err")
def m_unwraperr(c):
    v = tagopt(c, c.v(0))
    c.I.panic(isok(v), "explicit", "unwrap_err on Ok", c.sp)
    return UNIT


@model("Option::unwrap_unchecked")
def m_unwrapun(c):
    return good(c.v(0))


@model("Option::unwrap_or", "Result::unwrap_or")
def m_unwrapor(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    return ite(k, good(v, k), c.raw(1)) if k is not FALSE else c.raw(1)


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwraporelse(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    I = c.I
    return I.branch(k, lambda: good(v, k), lambda: I.apply(c.raw(1), [] if "Option" in c.key else [UNIT]))


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def m_unwrapdef(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    I = c.I
    return I.branch(k, lambda: good(v, k), lambda: default_of(I, c.rty(), c))


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then")
def m_omap(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    I = c.I
    w = NONE if "Option" in c.key else ERR
    mk = some if "Option" in c.key else ok

    def f():
        r = I.apply(c.raw(1), [good(v, k)])
        if r is BOT:
            return r
        return mk(r) if c.key.endswith("::map") else r
    return I.branch(k, f, lambda: w)


@model("Option::map_or", "Result::map_or")
def m_mapor(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    return c.I.branch(k, lambda: c.I.apply(c.raw(2), [good(v, k)]), lambda: c.raw(1))


@model("Option::map_or_else", "Result::map_or_else")
def m_maporelse(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    return c.I.branch(k, lambda: c.I.apply(c.raw(2), [good(v, k)]), lambda: c.I.apply(c.raw(1), [] if "Option" in c.key else [UNIT]))


@model("Option::is_some_and", "Result::is_ok_and")
def m_issomeand(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    return c.I.branch(k, lambda: c.I.tobool(c.I.apply(c.raw(1), [good(v, k)])), lambda: FALSE)


@model("Option::is_none_or")
def m_isnoneor(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    return c.I.branch(k, lambda: c.I.tobool(c.I.apply(c.raw(1), [good(v, k)])), lambda: TRUE)


@model("Option::filter")
def m_ofilter(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    keep = c.I.branch(k, lambda: c.I.tobool(c.I.apply(c.raw(1), [good(v, k)])), lambda: FALSE)
    return ite(keep, v, NONE)


@model("Result::map_err", "Option::inspect", "Result::inspect")
def m_maperr(c):
    return c.v(0)


@model("Option::ok_or", "Option::ok_or_else")
def m_okor(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    return ite(k, ok(good(v, k)), ERR) if k is not FALSE else ERR


@model("Result::ok")
def m_ok(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    return ite(k, some(good(v, k)), NONE) if k is not FALSE else NONE


@model("Result::err")
def m_err(c):
    return ite(isok(tagopt(c, c.v(0))), NONE, some(UNIT))


@model("Option::or", "Result::or")
def m_or(c):
    v = tagopt(c, c.v(0))
    return ite(isok(v), v, c.v(1))


@model("Option::or_else", "Result::or_else")
def m_orelse(c):
    v = tagopt(c, c.v(0))
    return c.I.branch(isok(v), lambda: v, lambda: c.I.apply(c.raw(1), [] if "Option" in c.key else [UNIT]))


@model("Option::and", "Result::and")
def m_oand(c):
    v = tagopt(c, c.v(0))
    return ite(isok(v), c.v(1), NONE if "Option" in c.key else ERR)


@model("Option::zip")
def m_ozip(c):
    a, b = tagopt(c, c.v(0)), tagopt(c, c.v(1), 1)
    k = And(isok(a), isok(b))
    return ite(k, some(raw("tuple", good(a), good(b))), NONE) if k is not FALSE else NONE


@model("Option::take", "mem::take")
def m_take(c):
    v = c.v(0)
    if c.key.startswith("mem"):
        sto(c, default_of(c.I, c.rty(), c))
        return v
    sto(c, NONE)
    return v


@model("RefCell::take", "Cell::take")
def m_celltake(c):
    v = c.v(0)
    sto(c, default_of(c.I, c.rty(), c))
    return v


@model("mem::replace", "RefCell::replace", "Option::replace", "Option::insert")
def m_replace(c):
    v = c.v(0)
    new = c.raw(1)
    if c.key == "Option::replace":
        sto(c, some(new))
        return v
    if c.key == "Option::insert":
        sto(c, some(new))
        return c.I.sub_ref(c.I.through(c.raw(0)), ("f", "Some", "0"))
    sto(c, new)
    return v


@model("mem::swap")
def m_memswap(c):
    a, b = c.v(0), c.v(1)
    sto(c, b, 0)
    sto(c, a, 1)


@model("Cell::set")
def m_cellset(c):
    sto(c, c.raw(1))


@model("Cell::get")
def m_cellget(c):
    return c.v(0)


@model("Option::as_mut", "Option::as_deref_mut")
def m_asmut(c):
    v = c.v(0)
    r = c.I.through(c.raw(0))
    return ite(isok(v), some(c.I.sub_ref(r, ("f", "Some", "0"))), NONE)


@model("Arc::get_mut", "Rc::get_mut")
def m_arcgetmut(c):
    return some(c.raw(0))


@model("Try::branch")
def m_branch(c):
    v = tagopt(c, c.v(0))
    k = isok(v)
    opt = tail(base(c.aty(0))) == "Option"
    b = adt("ControlFlow", "Break", [("0", NONE if opt else ERR)])
    if k is FALSE:
        return b
    return ite(k, adt("ControlFlow", "Continue", [("0", good(v, k))]), b)


@model("FromResidual::from_residual")
def m_residual(c):
    return NONE if tail(c.rty()) == "Option" else ERR


@model("Try::from_output")
def m_fromoutput(c):
    return some(c.raw(0)) if tail(c.rty()) == "Option" else ok(c.raw(0))


@model("bool::then", "bool::then_some")
def m_then(c):
    b = c.I.tobool(c.raw(0))
    if c.key.endswith("then_some"):
        return ite(b, some(c.raw(1)), NONE)
    return c.I.branch(b, lambda: wrap_some(c.I.apply(c.raw(1), [])), lambda: NONE)


def wrap_some(x):
    return x if x is BOT else some(x)


def default_of(I, ty, c=None):
    k = ty.get("k")
    t = tail(ty)
    if k in ("uint", "int"):
        return ZERO
    if k == "bool":
        return FALSE
    if k == "str" or t in ("Vec", "String", "VecDeque"):
        return seqlit([])
    if t in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        return raw("map", ())
    if t == "Option":
        return NONE
    if t in ("Arc", "Rc", "Box", "RefCell", "Cell", "Mutex"):
        return default_of(I, ty["aa"][0], c)
    if k == "array":
        d = default_of(I, ty["tt"], c)
        return tab(ty["nv"], lambda i: d)
    if k == "tuple":
        return raw("tuple", *[default_of(I, a, c) for a in ty["aa"]])
    if t in ("Fp", "DensePolynomial", "Projective", "Affine", "BigInt"):
        return ZERO
    if t == "PhantomData":
        return UNIT
    if t in ("CoreWrapper", "Sha256"):
        return raw("hasher", tkey(ty), seqlit([]))
    if k == "adt":
        for b in I.db.impls.get(("Default", "default"), []):
            it = b["crate"].types[b["impl_self"]]
            if it["k"] == "adt" and it["p"] == ty["p"]:
                tenv = {}
                for a, x in zip(it["a"], ty.get("aa", [])):
                    if isinstance(a, int) and b["crate"].types[a]["k"] == "param":
                        tenv[b["crate"].types[a]["n"]] = x
                return I.call(b, [], tenv)
    if k in ("param", "other"):
        s = ty["s"]
        if hasher_param(c, s):
            return raw("hasher", s, seqlit([]))
        r = raw("default", s)
        r.ty = ty
        if "Field" in s or s in ("F",):
            return ZERO
        return r
    return raw("opq", "default", ty["s"])


def hasher_param(c, s):
    return s in ("D", "H", "T", "Hasher")


@model("Default::default")
def m_default(c):
    return default_of(c.I, c.rty(), c)


# ------------------------------------------------------------------ chars / strings
def charpred(name, py):
    def f(c):
        def g(x):
            if is_num(x):
                return TRUE if py(chr(int(x.args[0]))) else FALSE
            return T.lit(raw("charp", x, name))
        return lift(g, c.v(0))
    MODELS["char::" + name] = f


for _n, _f in (("is_numeric", str.isnumeric), ("is_alphabetic", str.isalpha), ("is_ascii_digit", lambda x: x in "0123456789"),
               ("is_alphanumeric", str.isalnum), ("is_whitespace", str.isspace), ("is_ascii_alphabetic", lambda x: x.isascii() and x.isalpha()),
               ("is_ascii_alphanumeric", lambda x: x.isascii() and x.isalnum()), ("is_uppercase", str.isupper), ("is_lowercase", str.islower)):
    charpred(_n, _f)


@model("char::is_digit")
def m_isdigit(c):
    return lift(lambda x: (TRUE if chr(int(x.args[0])) in "0123456789" else FALSE) if is_num(x) else T.lit(raw("charp", x, "is_ascii_digit")), c.v(0))


@model("str::chars", "str::bytes", "str::char_indices")
def m_chars(c):
    s = c.v(0)
    it = raw("it_seq", s)
    if c.key.endswith("char_indices"):
        it = raw("it_enum", it)
    return raw("iter", it, ZERO)


def pystr(s):
    if s.op == "lit" and all(is_num(x) for x in s.args):
        return "".join(chr(int(x.args[0])) for x in s.args)
    return None


def strfun(name, py):
    def f(c):
        def g(*a):
            ps = [pystr(x) if T.is_seq(x) else (chr(int(x.args[0])) if is_num(x) else None) for x in a]
            if all(p is not None for p in ps):
                r = py(*ps)
                if isinstance(r, bool):
                    return TRUE if r else FALSE
                return strlit(r)
            return raw("strfn", name, *a)
        v = lift(g, *[c.v(i) for i in range(len(c.args))])
        return v
    MODELS["str::" + name] = f
    MODELS["String::" + name] = f


for _n, _f in (("trim", lambda s: s.strip()), ("to_lowercase", str.lower), ("to_uppercase", str.upper), ("trim_start", lambda s: s.lstrip()),
               ("trim_end", lambda s: s.rstrip()), ("replace", lambda s, a, b: s.replace(a, b)), ("repeat", None)):
    if _f:
        strfun(_n, _f)
for _n, _f in (("starts_with", lambda s, p: s.startswith(p)), ("ends_with", lambda s, p: s.endswith(p)), ("contains", lambda s, p: p in s)):
    def _mk(n, py):
        def f(c):
            def g(a, b):
                pa = pystr(a)
                pb = pystr(b) if T.is_seq(b) else (chr(int(b.args[0])) if is_num(b) else None)
                if pa is not None and pb is not None:
                    return TRUE if py(pa, pb) else FALSE
                return T.lit(raw("strp", n, a, b))
            return lift(g, c.v(0), c.v(1))
        return f
    MODELS["str::" + _n] = _mk(_n, _f)


@model("str::split", "str::split_whitespace", "str::lines", "str::splitn")
def m_split(c):
    s = c.v(0)
    sep = c.v(len(c.args) - 1) if len(c.args) > 1 else strlit(" ")

    def g(a, b):
        pa = pystr(a)
        pb = pystr(b) if T.is_seq(b) else (chr(int(b.args[0])) if is_num(b) else None)
        if pa is not None and pb is not None and c.key == "str::split":
            return seqlit([strlit(x) for x in pa.split(pb)])
        r = raw("split", a, b, c.key)
        r.ty = {"k": "slice", "tt": {"k": "str", "s": "str"}, "s": "[str]"}
        return r
    return raw("iter", raw("it_seq", lift(g, s, sep)), ZERO)


@model("str::strip_prefix", "str::strip_suffix")
def m_strip(c):
    end = c.key.endswith("suffix")

    def g(s, p):
        if not T.is_seq(p):
            if not is_num(p):
                return c.I.opaque("strip", [s, p])
            p = seqlit([p])
        n, m = length(s), length(p)
        rest = T.seqslice(s, ZERO, sub(n, m)) if end else T.seqslice(s, m, n)
        hit = And(ge(n, m), T.seq_eq(T.seqslice(s, sub(n, m), n) if end else T.seqslice(s, ZERO, m), p))
        return ite(hit, some(rest), NONE)
    return lift(g, c.v(0), c.v(1))


@model("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches")
def m_trimm(c):
    def g(s, p):
        a = pystr(s)
        b = pystr(p) if T.is_seq(p) else (chr(int(p.args[0])) if is_num(p) else None)
        if a is None or not b:
            return raw("strfn", c.key.split("::")[-1], s, p)
        if "end" not in c.key:
            while a.startswith(b):
                a = a[len(b):]
        if "start" not in c.key:
            while a.endswith(b):
                a = a[:-len(b)]
        return strlit(a)
    return lift(g, c.v(0), c.v(1))


@model("str::split_once")
def m_splitonce(c):
    s, sep = c.v(0), c.v(1)
    return uf("strfn1", "split_once", s, sep)


# operations that search a string for a pattern: evaluated when the string and the pattern are known
def pat_spans(c, s, i, p=None):
    """[(start, end)] of the matches of pattern argument i in the known ASCII string s, left to right; None when not known"""
    t = c.aty(i)
    while isinstance(t, dict) and t.get("k") == "ref":
        t = t["tt"]
    if not s.isascii():
        return None
    k = t.get("k")
    v = c.v(i)
    if k in ("closure", "fndef", "fnptr") or v.op in ("closure", "fnitem"):
        out = []
        for j, ch in enumerate(s):
            b = c.I.tobool(c.I.apply(c.raw(i), [num(ord(ch))]))
            if b is not TRUE and b is not FALSE:
                return None
            if b is TRUE:
                out.append((j, j + 1))
        return out
    if is_num(v):
        return [(j, j + 1) for j, ch in enumerate(s) if ord(ch) == int(v.args[0])]
    q = pystr(v) if T.is_seq(v) else None
    if q is None:
        return None
    if k in ("array", "slice"):
        return [(j, j + 1) for j, ch in enumerate(s) if ch in q]
    if not q:
        return None
    out, j = [], s.find(q)
    while j >= 0:
        out.append((j, j + len(q)))
        j = s.find(q, j + len(q))
    return out


def parts_of(s, sp):
    out, j = [], 0
    for a, b in sp:
        out.append(s[j:a])
        j = b
    return out + [s[j:]]


def seqiter(xs):
    return raw("iter", raw("it_seq", seqlit(xs)), ZERO)


def _edge(s, sp, end):
    return [x for x in sp if (x[1] == len(s) if end else x[0] == 0)]


def _trimm(s, sp, lo, hi):
    i, j = 0, len(s)
    st, en = {a: b for a, b in sp}, {b: a for a, b in sp}
    while lo and i < j and i in st:
        i = st[i]
    while hi and j > i and j in en and en[j] >= i:
        j = en[j]
    return s[i:j]


STROPS = {
    "split": (1, lambda s, sp, c: seqiter([strlit(x) for x in parts_of(s, sp)])),
    "split_terminator": (1, lambda s, sp, c: seqiter([strlit(x) for x in (lambda ps: ps[:-1] if ps[-1] == "" else ps)(parts_of(s, sp))])),
    "split_inclusive": (1, lambda s, sp, c: seqiter([strlit(x) for x in (lambda ps: ps[:-1] if ps[-1] == "" else ps)(parts_of(s, [(b, b) for a, b in sp]))])),
    "rsplit": (1, lambda s, sp, c: seqiter([strlit(x) for x in reversed(parts_of(s, sp))])),
    "split_once": (1, lambda s, sp, c: some(raw("tuple", strlit(s[:sp[0][0]]), strlit(s[sp[0][1]:]))) if sp else NONE),
    "rsplit_once": (1, lambda s, sp, c: some(raw("tuple", strlit(s[:sp[-1][0]]), strlit(s[sp[-1][1]:]))) if sp else NONE),
    "find": (1, lambda s, sp, c: some(num(sp[0][0])) if sp else NONE),
    "rfind": (1, lambda s, sp, c: some(num(sp[-1][0])) if sp else NONE),
    "matches": (1, lambda s, sp, c: seqiter([strlit(s[a:b]) for a, b in sp])),
    "match_indices": (1, lambda s, sp, c: seqiter([raw("tuple", num(a), strlit(s[a:b])) for a, b in sp])),
    "contains": (1, lambda s, sp, c: TRUE if sp else FALSE),
    "starts_with": (1, lambda s, sp, c: TRUE if _edge(s, sp, False) else FALSE),
    "ends_with": (1, lambda s, sp, c: TRUE if _edge(s, sp, True) else FALSE),
    "strip_prefix": (1, lambda s, sp, c: some(strlit(s[_edge(s, sp, False)[0][1]:])) if _edge(s, sp, False) else NONE),
    "strip_suffix": (1, lambda s, sp, c: some(strlit(s[:_edge(s, sp, True)[0][0]])) if _edge(s, sp, True) else NONE),
    "trim_matches": (1, lambda s, sp, c: strlit(_trimm(s, sp, True, True))),
    "trim_start_matches": (1, lambda s, sp, c: strlit(_trimm(s, sp, True, False))),
    "trim_end_matches": (1, lambda s, sp, c: strlit(_trimm(s, sp, False, True))),
    "replace": (1, lambda s, sp, c: strlit(pystr(c.v(2)).join(parts_of(s, sp))) if T.is_seq(c.v(2)) and pystr(c.v(2)) is not None else None),
}


def _strop(name):
    at, f = STROPS[name]
    old = MODELS.get("str::" + name)

    def m(c):
        s = pystr(c.v(0)) if T.is_seq(c.v(0)) else None
        sp = pat_spans(c, s, at) if s is not None else None
        # matches of a longer pattern may overlap: only searched from the left
        if sp is not None and name in ("rsplit", "rsplit_once", "rfind", "trim_matches", "trim_end_matches", "ends_with", "strip_suffix"):
            q = pystr(c.v(at)) if T.is_seq(c.v(at)) else None
            if q and len(set(q)) != len(q):
                sp = None
        r = f(s, sp, c) if sp is not None else None
        if r is not None:
            return r
        return old(c) if old else c.I.opaque("str::" + name, [c.v(i) for i in range(len(c.args))])
    MODELS["str::" + name] = m


for _n in STROPS:
    _strop(_n)


@model("str::splitn", "str::rsplitn")
def m_splitn(c):
    s = pystr(c.v(0)) if T.is_seq(c.v(0)) else None
    sp = pat_spans(c, s, 2) if s is not None and is_num(c.v(1)) else None
    if sp is None:
        return c.I.opaque(c.key, [c.v(0), c.v(1)])
    n = int(c.v(1).args[0])
    if n == 0:
        return seqiter([])
    r = c.key.endswith("rsplitn")
    sp = (sp[len(sp) - (n - 1):] if n > 1 else []) if r and len(sp) > n - 1 else sp[:n - 1] if not r else sp
    ps = [strlit(x) for x in parts_of(s, sp)]
    return seqiter(ps[::-1] if r else ps)


@model("str::split_whitespace", "str::split_ascii_whitespace")
def m_splitws(c):
    s = pystr(c.v(0)) if T.is_seq(c.v(0)) else None
    if s is None or not s.isascii():
        return c.I.opaque(c.key, [c.v(0)])
    return seqiter([strlit(x) for x in s.split()])


@model("Chars::as_str", "Iter::as_slice")
def m_iterrest(c):
    it = c.v(0)
    if it.op == "iter" and it.args[0].op == "it_seq":
        s = it.args[0].args[0]
        return seqslice(s, it.args[1], length(s))
    return c.I.opaque(c.key, [it])


@model("str::split_at")
def m_strsplitat(c):
    v, i = c.v(0), c.v(1)
    n = length(v)
    c.I.panic(lt(n, i), "oob", "split_at", c.sp)
    return raw("tuple", seqslice(v, ZERO, i), seqslice(v, i, n))


@model("String::from_utf8")
def m_utf8(c):
    return ok(c.v(0))


# ------------------------------------------------------------------ maps
def mput1(m, k, v):
    if m.op == "map" and all(T.eq(a, k) in (TRUE, FALSE) for a, _ in m.args[0]):
        es = list(m.args[0])
        for i, (a, _) in enumerate(es):
            if T.eq(a, k) is TRUE:
                es[i] = (a, v)
                return raw("map", tuple(es))
        es.append((k, v))
        es.sort(key=lambda e: e[0].fp)
        return raw("map", tuple(es))
    if m.op == "mput":
        e = T.eq(m.args[1], k)
        if e is TRUE:
            return raw("mput", m.args[0], k, v)
    return raw("mput", m, k, v)


def mset(m, k, v):
    return lift(lambda x, y: mput1(x, y, v), m, k)


def mdel(m, k):
    def f(x, y):
        if x.op == "map" and all(T.eq(a, y) in (TRUE, FALSE) for a, _ in x.args[0]):
            return raw("map", tuple((a, b) for a, b in x.args[0] if T.eq(a, y) is FALSE))
        if x.op == "mput" and T.eq(x.args[1], y) is TRUE:
            return mdel(x.args[0], y)
        return raw("mdel", x, y)
    return lift(f, m, k)


def mhas(m, k):
    def f(x, y):
        if x.op == "map":
            r = FALSE
            for a, _ in x.args[0]:
                r = Or(r, T.eq(a, y))
            return r
        if x.op == "mput":
            return Or(T.eq(x.args[1], y), mhas(x.args[0], y))
        if x.op == "mdel":
            return And(Not(T.eq(x.args[1], y)), mhas(x.args[0], y))
        return T.lit(raw("mhas", x, y))
    return lift(f, m, k)


def mget_val(m, k):
    def f(x, y):
        if x.op == "map":
            r = None
            for a, b in x.args[0]:
                e = T.eq(a, y)
                if e is FALSE:
                    continue
                r = b if r is None else ite(e, b, r)
            return r if r is not None else BOT
        if x.op == "mput":
            e = T.eq(x.args[1], y)
            if e is TRUE:
                return x.args[2]
            if e is FALSE:
                return mget_val(x.args[0], y)
            h = mhas(x.args[0], y)
            if h is FALSE:
                return x.args[2]
            return ite(e, x.args[2], mget_val(x.args[0], y))
        if x.op == "mdel":
            return mget_val(x.args[0], y)
        return raw("mget", x, y)
    return lift(f, m, k)


T.CONS["mput"] = mset
T.CONS["mdel"] = mdel
T.CONS["mhas"] = mhas
T.CONS["mget"] = mget_val


@model("HashMap::new", "HashSet::new", "BTreeMap::new", "BTreeSet::new", "HashMap::with_capacity")
def m_mapnew(c):
    return raw("map", ())


def mopt(m, k, f=None):
    h = mhas(m, k)
    if h is FALSE:
        return NONE
    from .interp import constrain
    v = constrain(mget_val(m, k), h)
    return ite(h, some(v), NONE)


@model("HashMap::get", "BTreeMap::get")
def m_mapget(c):
    return mopt(c.v(0), dk(c, 1))


def dk(c, i):
    return deref_all(c.I, c.v(i))


@model("HashMap::contains_key", "HashSet::contains", "BTreeMap::contains_key")
def m_mapcontains(c):
    return mhas(c.v(0), dk(c, 1))


@model("HashSet::get")
def m_setget(c):
    k = dk(c, 1)
    return mopt(c.v(0), k)


@model("HashMap::get_mut", "BTreeMap::get_mut")
def m_mapgetmut(c):
    m, k = c.v(0), dk(c, 1)
    h = mhas(m, k)
    if h is FALSE:
        return NONE
    r = c.I.through(c.raw(0))
    return ite(h, some(c.I.sub_ref(r, ("k", k))), NONE)


@model("HashMap::insert", "BTreeMap::insert")
def m_mapinsert(c):
    m, k = c.v(0), dk(c, 1)
    old = mopt(m, k)
    sto(c, mset(m, k, c.raw(2)))
    return old


@model("HashSet::insert", "BTreeSet::insert")
def m_setinsert(c):
    m, k = c.v(0), dk(c, 1)
    h = mhas(m, k)
    sto(c, ite(h, m, mset(m, k, k)))
    return Not(h)


@model("HashMap::remove", "BTreeMap::remove", "HashSet::remove")
def m_mapremove(c):
    m, k = c.v(0), dk(c, 1)
    old = mopt(m, k)
    sto(c, mdel(m, k))
    return old if not c.key.startswith("HashSet") else isok(old)


@model("HashMap::entry", "BTreeMap::entry")
def m_entry(c):
    return raw("tuple", raw("str", "entry"), c.I.through(c.raw(0)), dk(c, 1))


@model("Entry::or_insert", "Entry::or_default", "Entry::or_insert_with")
def m_orinsert(c):
    e = c.raw(0)
    r, k = e.args[1], e.args[2]
    I = c.I
    m = I.val(r)
    h = mhas(m, k)

    def put():
        if c.key.endswith("or_insert"):
            d = c.raw(1)
        elif c.key.endswith("or_default"):
            d = default_of(I, base(c.rty()), c)
        else:
            d = I.apply(c.raw(1), [])
        I.store(r, mset(m, k, d))
        return UNIT
    I.branch(h, lambda: UNIT, put)
    return I.sub_ref(r, ("k", k))


@model("HashMap::keys", "HashMap::values", "HashMap::iter", "HashMap::into_values", "HashMap::into_keys", "BTreeMap::iter", "BTreeMap::values", "BTreeMap::keys")
def m_mapkeys(c):
    return map_iter(c.I, c.v(0), c.key.split("::")[1])


MAPORDER = [0]      # not 0: a different order at each iteration; the order in which hash containers are iterated: two different ones must give the same result


def map_iter(I, m, what="iter"):
    if m.op == "map":
        w = what.replace("into_", "")
        es = []
        for a, b in m.args[0]:
            es.append(a if w == "keys" else b if w == "values" else raw("tuple", a, b))
        if MAPORDER[0]:
            MAPORDER[0] += 1
            random.Random(MAPORDER[0]).shuffle(es)
        s = seqlit(es)
        if len(es) > 1:
            I.effects.append((I.alive, "map-order", m, I.cur_sp))
        return raw("iter", raw("it_seq", s), ZERO)
    I.effects.append((I.alive, "map-order", m, I.cur_sp))
    r = uf("mentries", m, what)
    r.ty = {"k": "slice", "tt": None, "s": "[?]"}
    return raw("iter", raw("it_seq", r), ZERO)


# ------------------------------------------------------------------ iterators
def mkiter(stage, pos=ZERO):
    return raw("iter", stage, pos)


def to_iter(I, v, ty=None):
    """iterator over a value passed by value/reference"""
    if v.op == "iter":
        return v
    if v.op == "ref":
        x = I.val(v)
        if x.op == "iter":
            return raw("iter", raw("it_byref", v), ZERO)
        if x.op == "adt" and x.args[0] == "Range":
            return to_iter(I, x)
        if x.op in ("map", "mput", "mdel"):
            return map_iter(I, x)
        return mkiter(raw("it_mut", I.through(v)))
    if v.op == "adt" and v.args[0] == "Range":
        d = dict(v.args[2])
        k = d["k"].args[0]
        lo = d["start"]
        if k == "RangeFrom":
            return mkiter(raw("it_from", lo))
        hi = d["end"] if k == "Range" else add(d["end"], ONE)
        return mkiter(raw("it_range", lo, hi))
    if v.op == "adt" and v.args[0] == "Option":
        return mkiter(raw("it_seq", seqlit([v.args[2][0][1]] if v.args[1] == "Some" else [])))
    if v.op == "ite":
        ls = T.leaves(v)
        if all(x.op == "adt" and x.args[0] == "Range" for x in ls):
            d = lift(lambda x: raw("tuple", dict(x.args[2])["start"], dict(x.args[2])["end"]), v)
            return mkiter(raw("it_range", proj(d, None, None, "0"), proj(d, None, None, "1")))
        if all(x.op == "adt" and x.args[0] == "Option" for x in ls):
            return mkiter(raw("it_seq", lift(lambda x: seqlit([x.args[2][0][1]] if x.args[1] == "Some" else []), v)))
        if all(x.op == "iter" for x in ls) and len({x.args[0].fp for x in ls}) == 1:
            return raw("iter", ls[0].args[0], lift(lambda x: x.args[1], v))
    if v.op in ("map", "mput", "mdel"):
        return map_iter(I, v)
    if v.op == "tuple":
        return v
    return mkiter(raw("it_seq", v))


@model("IntoIterator::into_iter", "Vec::into_iter")
def m_intoiter(c):
    t = c.aty(0)
    r = c.raw(0)
    v = c.v(0)
    if v.op == "iter":
        return r if r.op == "ref" and t.get("k") == "ref" else v
    if t.get("k") == "ref" and t.get("m") and r.op in ("ref", "ite") and not (v.op == "adt" and v.args[0] == "Range"):
        return to_iter(c.I, c.I.through(r))
    if tail(base(t)) in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
        if "Set" in tail(base(t)):
            return map_iter(c.I, v, "keys")
        return map_iter(c.I, v)
    tagopt(c, v)
    if tail(base(t)) == "Option" and v.op not in ("adt",):
        k = isok(v)
        return mkiter(raw("it_seq", ite(k, seqlit([good(v, k)]), seqlit([])) if k is not FALSE else seqlit([])))
    return to_iter(c.I, v)


@model("slice::iter", "Vec::iter", "Option::iter", "array::iter", "VecDeque::iter", "HashSet::iter")
def m_iter(c):
    t = tail(base(c.aty(0)))
    if t == "HashSet":
        return map_iter(c.I, c.v(0), "keys")
    if t == "Option":
        v = tagopt(c, c.v(0))
        k = isok(v)
        return mkiter(raw("it_seq", ite(k, seqlit([good(v, k)]), seqlit([])) if k is not FALSE else seqlit([])))
    r = c.raw(0)
    if r.op == "ref" and "RefCell" in base(c.aty(0))["s"]:
        return mkiter(raw("it_mut", c.I.through(r)))
    return to_iter(c.I, c.v(0))


@model("slice::iter_mut", "Vec::iter_mut")
def m_itermut(c):
    r = c.raw(0)
    if r.op in ("ref", "ite"):
        return mkiter(raw("it_mut", c.I.through(r)))
    return to_iter(c.I, r)


def stage1(op):
    def f(c):
        it = to_iter(c.I, c.raw(0))
        st = base_stage(it)
        if len(c.args) > 1:
            return mkiter(raw(op, st, c.I.val(c.args[1]) if op not in ("it_map", "it_filter", "it_fmap", "it_flat", "it_tw", "it_sw", "it_mw", "it_insp") else c.args[1]))
        return mkiter(raw(op, st))
    return f


def base_stage(it):
    st, pos = it.args
    return st if pos is ZERO else raw("it_skip", st, pos)


for _n, _o in (("map", "it_map"), ("enumerate", "it_enum"), ("skip", "it_skip"), ("step_by", "it_step"), ("take", "it_take"), ("rev", "it_rev"),
               ("filter", "it_filter"), ("filter_map", "it_fmap"), ("flat_map", "it_flat"), ("take_while", "it_tw"), ("skip_while", "it_sw"),
               ("map_while", "it_mw"), ("inspect", "it_insp"), ("flatten", "it_flatten")):
    MODELS["Iterator::" + _n] = stage1(_o)
    MODELS["DoubleEndedIterator::" + _n] = MODELS["Iterator::" + _n]


@model("Iterator::cloned", "Iterator::copied", "Iterator::peekable", "Iterator::fuse", "Iterator::into_iter")
def m_itid(c):
    return c.raw(0) if c.raw(0).op == "iter" else to_iter(c.I, c.raw(0))


@model("Iterator::zip", "Iterator::chain", "iter::zip")
def m_zip(c):
    a = base_stage(to_iter(c.I, c.raw(0)))
    t = c.aty(1)
    r = c.raw(1)
    if t.get("k") == "ref" and t.get("m") and r.op in ("ref", "ite"):
        b = to_iter(c.I, c.I.through(r))
    else:
        b = to_iter(c.I, c.v(1) if c.raw(1).op != "iter" else r)
    return mkiter(raw("it_zip" if c.key.endswith("zip") else "it_chain", a, base_stage(b)))


@model("slice::chunks", "slice::windows", "slice::chunks_exact")
def m_chunks(c):
    n = c.v(1)
    c.I.panic(eq(n, ZERO), "explicit", "zero chunk size", c.sp)
    return mkiter(raw({"chunks": "it_chunks", "windows": "it_windows", "chunks_exact": "it_chunksx"}[c.key.split("::")[1]], c.v(0), n))


@model("slice::chunks_mut")
def m_chunksmut(c):
    n = c.v(1)
    c.I.panic(eq(n, ZERO), "explicit", "zero chunk size", c.sp)
    return mkiter(raw("it_chunksmut", c.I.through(c.raw(0)), n))


@model("Iterator::scan")
def m_scan(c):
    return mkiter(raw("it_scan", base_stage(to_iter(c.I, c.raw(0))), c.I.val(c.raw(1)), c.raw(2)))


@model("iter::repeat", "iter::repeat_with")
def m_repeat(c):
    return mkiter(raw("it_repeat" if c.key.endswith("repeat") else "it_repw", c.raw(0)))


@model("iter::once")
def m_once(c):
    return mkiter(raw("it_seq", seqlit([c.raw(0)])))


@model("iter::empty")
def m_empty(c):
    return mkiter(raw("it_seq", seqlit([])))


@model("iter::successors")
def m_successors(c):
    return mkiter(raw("it_succ", c.raw(0), c.raw(1)))


@model("Iterator::cycle")
def m_cycle(c):
    return mkiter(raw("it_cycle", base_stage(to_iter(c.I, c.raw(0)))))


INF = "inf"


def it_len(I, st):
    """length term; INF; or None when irregular"""
    o = st.op
    if o == "it_seq":
        return length(st.args[0])
    if o == "it_mut":
        return length(I.val(st.args[0]))
    if o == "it_range":
        return T.max0(sub(st.args[1], st.args[0]))
    if o in ("it_from", "it_repeat", "it_repw", "it_cycle"):
        return INF
    if o in ("it_map", "it_enum", "it_rev", "it_insp"):
        return it_len(I, st.args[0])
    if o in ("it_skip", "it_step", "it_take"):
        n = it_len(I, st.args[0])
        if n is None:
            return None
        k = st.args[1]
        if o == "it_take":
            return k if n is INF else T.imin(n, k)
        if n is INF:
            return INF
        if o == "it_skip":
            return T.max0(sub(n, k))
        return T.idiv(add(n, sub(k, ONE)), k)
    if o == "it_zip":
        a, b = it_len(I, st.args[0]), it_len(I, st.args[1])
        if a is None or b is None:
            return None
        if a is INF:
            return b
        if b is INF:
            return a
        return T.imin(a, b)
    if o == "it_chain":
        a, b = it_len(I, st.args[0]), it_len(I, st.args[1])
        if a is None or b is None or a is INF:
            return None
        return INF if b is INF else add(a, b)
    if o == "it_chunks":
        return T.idiv(add(length(st.args[0]), sub(st.args[1], ONE)), st.args[1])
    if o == "it_chunksmut":
        return T.idiv(add(length(I.val(st.args[0])), sub(st.args[1], ONE)), st.args[1])
    if o == "it_chunksx":
        return T.idiv(length(st.args[0]), st.args[1])
    if o == "it_windows":
        return T.max0(add(sub(length(st.args[0]), st.args[1]), ONE))
    return None


def item(I, st, k):
    """k-th item of a regular stage"""
    o = st.op
    if o == "it_seq":
        return idx(st.args[0], k)
    if o == "it_mut":
        return I.sub_ref(st.args[0], ("i", k))
    if o in ("it_range", "it_from"):
        return add(st.args[0], k)
    if o == "it_repeat":
        return st.args[0]
    if o == "it_repw":
        return I.apply(st.args[0], [])
    if o == "it_map":
        x = item(I, st.args[0], k)
        return BOT if x is BOT else I.apply(st.args[1], [x])
    if o == "it_insp":
        x = item(I, st.args[0], k)
        I.apply(st.args[1], [x])
        return x
    if o == "it_enum":
        return raw("tuple", k, item(I, st.args[0], k))
    if o == "it_rev":
        n = it_len(I, st.args[0])
        return item(I, st.args[0], sub(sub(n, ONE), k))
    if o == "it_skip":
        return item(I, st.args[0], add(k, st.args[1]))
    if o == "it_step":
        return item(I, st.args[0], mul(k, st.args[1]))
    if o == "it_take":
        return item(I, st.args[0], k)
    if o == "it_cycle":
        n = it_len(I, st.args[0])
        return item(I, st.args[0], T.mod(k, n))
    if o == "it_zip":
        a = item(I, st.args[0], k)
        b = item(I, st.args[1], k)
        return BOT if a is BOT or b is BOT else raw("tuple", a, b)
    if o == "it_chain":
        n = it_len(I, st.args[0])
        return I.branch(lt(k, n), lambda: item(I, st.args[0], k), lambda: item(I, st.args[1], sub(k, n)))
    if o == "it_chunks":
        s, n = st.args
        lo = mul(k, n)
        return seqslice(s, lo, T.imin(add(lo, n), length(s)))
    if o == "it_chunksmut":
        s, n = st.args
        lo = mul(k, n)
        return I.sub_ref(s, ("sl", lo, T.imin(add(lo, n), length(I.val(s)))))
    if o == "it_chunksx":
        s, n = st.args
        lo = mul(k, n)
        return seqslice(s, lo, add(lo, n))
    if o == "it_windows":
        s, n = st.args
        return seqslice(s, k, add(k, n))
    raise_undecided("iterator stage " + o)


def raise_undecided(m):
    from .interp import Undecided
    raise Undecided(m)


def drive(I, it, body, fr, label):
    """run body(item) for every item"""
    st, pos = it.args
    if st.op == "it_byref":
        inner = I.val(st.args[0])
        place = I.through(st.args[0])
        n = it_len(I, inner.args[0])
        # mark the underlying iterator as exhausted afterwards; early exits are position-dependent and unsupported
        drive(I, inner, body, fr, label)
        if n is not None and n is not INF:
            I.store(place, raw("iter", inner.args[0], n))
        return
    if pos is not ZERO:
        st = raw("it_skip", st, pos)
    run_stage(I, st, body, fr, label)


def run_stage(I, st, body, fr, label):
    n = it_len(I, st)
    if n is not None:
        if n is INF:
            return I.loop(None, lambda k: body(item(I, st, k)), fr, label)

        def b(k):
            x = item(I, st, k)
            if I.alive is not FALSE and x is not BOT:
                body(x)
        return I.loop(n, b, fr, label)
    o = st.op
    if o in ("it_map", "it_insp"):
        def g(x):
            y = I.apply(st.args[1], [x])
            if I.alive is not FALSE:
                body(y if o == "it_map" else x)
        return run_stage(I, st.args[0], g, fr, label)
    if o == "it_filter":
        def g(x):
            c = I.tobool(I.apply(st.args[1], [x]))
            I.branch(c, lambda: (body(x), UNIT)[1], lambda: UNIT)
        return run_stage(I, st.args[0], g, fr, label)
    if o == "it_fmap":
        def g(x):
            y = I.apply(st.args[1], [x])
            if y is BOT:
                return
            k = isok(y)
            I.branch(k, lambda: (body(good(y, k)), UNIT)[1], lambda: UNIT)
        return run_stage(I, st.args[0], g, fr, label)
    if o in ("it_flat", "it_flatten"):
        def g(x):
            y = I.apply(st.args[1], [x]) if o == "it_flat" else x
            if y is BOT:
                return
            inner = to_iter(I, y if y.op in ("iter",) else I.val(y))
            run_stage(I, base_stage(inner), body, fr, "<inner>")
        return run_stage(I, st.args[0], g, fr, label)
    if o == "it_enum":
        cnt = I.temp(ZERO)

        def g(x):
            k = I.val(cnt)
            I.store(cnt, add(k, ONE))
            body(raw("tuple", k, x))
        return run_stage(I, st.args[0], g, fr, label)
    if o in ("it_skip", "it_take"):
        cnt = I.temp(ZERO)

        def g(x):
            k = I.val(cnt)
            I.store(cnt, add(k, ONE))
            c = lt(k, st.args[1]) if o == "it_take" else ge(k, st.args[1])
            I.branch(c, lambda: (body(x), UNIT)[1], lambda: UNIT)
        return run_stage(I, st.args[0], g, fr, label)
    if o in ("it_tw", "it_mw", "it_sw"):
        on = I.temp(TRUE)

        def g(x):
            y = I.apply(st.args[1], [x])
            c = isok(y) if o == "it_mw" else I.tobool(y)
            live = And(I.tobool(on), c)
            I.store(on, live)
            if o == "it_sw":
                I.branch(Not(live), lambda: (body(x), UNIT)[1], lambda: UNIT)
            else:
                I.branch(live, lambda: (body(good(y, c) if o == "it_mw" else x), UNIT)[1], lambda: UNIT)
        return run_stage(I, st.args[0], g, fr, label)
    if o == "it_scan":
        on, acc = I.temp(TRUE), I.temp(st.args[1])

        def g(x):
            def step():
                y = I.apply(st.args[2], [acc, x])
                if y is BOT:
                    return UNIT
                k = isvariant(y, "Option", "Some")
                I.store(on, k)
                I.branch(k, lambda: (body(good(y, k)), UNIT)[1], lambda: UNIT)
                return UNIT
            I.branch(I.tobool(I.val(on)), step, lambda: UNIT)
        return run_stage(I, st.args[0], g, fr, label)
    if o == "it_chain":
        run_stage(I, st.args[0], body, fr, label)
        return run_stage(I, st.args[1], body, fr, label)
    if o == "it_zip":
        # an irregular side is materialised first
        a, b = st.args
        if it_len(I, a) is None:
            a = raw("it_seq", collect_stage(I, a, fr))
        if it_len(I, b) is None:
            b = raw("it_seq", collect_stage(I, b, fr))
        return run_stage(I, raw("it_zip", a, b), body, fr, label)
    if o == "it_rev":
        s = collect_stage(I, st.args[0], fr)
        return run_stage(I, raw("it_rev", raw("it_seq", s)), body, fr, label)
    if o == "it_succ":
        cur = I.temp(I.val(st.args[0]))

        def g(k):
            v = I.val(cur)
            c = isok(v)
            if c is not TRUE:
                raise_undecided("successors that may end")
            x = good(v, c)
            I.store(cur, I.apply(st.args[1], [x]))
            body(x)
        return I.loop(None, g, fr, label)
    raise_undecided("iterator stage " + o)


def collect_stage(I, st, fr):
    if st.op == "it_seq":
        return st.args[0]
    if st.op == "it_take" and it_len(I, st.args[0]) is None and st.args[0].op == "it_succ":
        n = st.args[1]
        acc = I.temp(seqlit([]))
        cur = I.temp(I.val(st.args[0].args[0]))

        def g(k):
            v = I.val(cur)
            c = isok(v)
            if c is not TRUE:
                raise_undecided("successors that may end")
            x = good(v, c)
            I.store(acc, seqcat(I.val(acc), seqlit([x])))
            I.store(cur, I.apply(st.args[0].args[1], [x]))
        I.loop(n, g, None, None)
        return I.val(acc)
    acc = I.temp(seqlit([]))

    def push(x):
        I.store(acc, seqcat(I.val(acc), seqlit([x])))
    run_stage(I, st, push, fr, "<collect>")
    return I.val(acc)


def collect_seq(I, it, fr):
    if it.args[0].op == "it_byref":
        inner = I.val(it.args[0].args[0])
        place = I.through(it.args[0].args[0])
        s = collect_stage(I, base_stage(inner), fr)
        n = it_len(I, inner.args[0])
        if n is not None and n is not INF:
            I.store(place, raw("iter", inner.args[0], n))
        return s
    return collect_stage(I, base_stage(it), fr)


def src(c, i=0):
    return to_iter(c.I, c.raw(i))


def into_collection(c, s, t):
    """sequence of items -> collection of type t"""
    I = c.I
    n = tail(t)
    if n in ("Vec", "VecDeque") or t.get("k") in ("slice", "array"):
        return s
    if n == "Box":
        return s
    if n == "String":
        et = None
        if s.op == "lit":
            if all(T.is_seq(I.val(x)) for x in s.args) and s.args:
                return seqcat(*[I.val(x) for x in s.args])
            return s
        k = fresh()
        x = idx(s, k)
        if T.is_seq(x):
            return T.mkflat(length(s), k, x)
        return s
    if n in ("HashMap", "BTreeMap"):
        if s.op == "lit":
            m = raw("map", ())
            for x in s.args:
                m = mset(m, I.val(proj(x, None, None, "0")), proj(x, None, None, "1"))
            return m
        return uf("mapof", s)
    if n in ("HashSet", "BTreeSet"):
        if s.op == "lit":
            m = raw("map", ())
            for x in s.args:
                m = mset(m, I.val(x), I.val(x))
            return m
        return uf("setof", s)
    if n in ("Result", "Option"):
        L = length(s)
        allok = T.forall(L, lambda k: isok(idx(s, k)))
        inner = tab(L, lambda k: payload(idx(s, k)))
        v = into_collection(c, inner, t["aa"][0])
        return ite(allok, ok(v) if n == "Result" else some(v), ERR if n == "Result" else NONE)
    return s


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(c):
    s = collect_seq(c.I, src(c), c.fr)
    if c.I.alive is FALSE:
        return BOT
    t = c.rty()
    if tail(t) not in ("Result", "Option"):
        s = deref_items(c.I, s, t)
    return into_collection(c, s, t)


def deref_items(I, s, t):
    return s


def accumulate(c, init, step):
    """acc := step(acc, item) over the iterator"""
    I = c.I
    acc = I.temp(init)

    def g(x):
        r = step(I.val(acc) if True else None, x)
        if r is not BOT and I.alive is not FALSE:
            I.store(acc, r)
    it = src(c)
    drive(I, it, g, c.fr, "<fold>")
    return I.val(acc)


@model("Iterator::sum")
def m_sum(c):
    return accumulate(c, ZERO, lambda a, x: add(a, c.I.val(x)))


@model("Iterator::product")
def m_product(c):
    return accumulate(c, ONE, lambda a, x: mul(a, c.I.val(x)))


@model("Iterator::count")
def m_count(c):
    n = it_len(c.I, base_stage(src(c)))
    if n is not None and n is not INF:
        return n
    return accumulate(c, ZERO, lambda a, x: add(a, ONE))


@model("Iterator::fold")
def m_fold(c):
    return accumulate(c, c.raw(1), lambda a, x: c.I.apply(c.raw(2), [a, x]))


@model("Iterator::rfold", "DoubleEndedIterator::rfold")
def m_rfold(c):
    I = c.I
    acc = I.temp(c.raw(1))

    def g(x):
        r = I.apply(c.raw(2), [I.val(acc), x])
        if r is not BOT and I.alive is not FALSE:
            I.store(acc, r)
    drive(I, mkiter(raw("it_rev", base_stage(src(c)))), g, c.fr, "<fold>")
    return I.val(acc)


@model("Iterator::try_fold")
def m_tryfold(c):
    I = c.I
    t = tail(c.rty())
    mk, yes = (some, "Some") if t == "Option" else (ok, "Ok")

    def step(a, x):
        k = isvariant(a, t, yes)
        return I.branch(k, lambda: I.apply(c.raw(2), [constrain_to(proj(a, t, yes, "0"), k), x]), lambda: a)
    return accumulate(c, mk(c.raw(1)), step)


@model("Iterator::for_each")
def m_foreach(c):
    drive(c.I, src(c), lambda x: c.I.apply(c.raw(1), [x]), c.fr, "<fe>")


@model("Iterator::try_for_each")
def m_tryforeach(c):
    I = c.I
    t = tail(c.rty())
    mk, yes = (some, "Some") if t == "Option" else (ok, "Ok")

    def step(a, x):
        k = isvariant(a, t, yes)
        return I.branch(k, lambda: I.apply(c.raw(1), [x]), lambda: a)
    return accumulate(c, mk(UNIT), step)


@model("Iterator::any")
def m_any(c):
    I = c.I
    return I.tobool(accumulate(c, FALSE, lambda a, x: Or(I.tobool(a), I.tobool(I.apply(c.raw(1), [x])))))


@model("Iterator::all")
def m_all(c):
    I = c.I
    return I.tobool(accumulate(c, TRUE, lambda a, x: And(I.tobool(a), I.tobool(I.apply(c.raw(1), [x])))))


@model("Iterator::eq")
def m_iteq(c):
    I = c.I
    return T.seq_eq(collect_seq(I, src(c), c.fr), collect_seq(I, src(c, 1), c.fr))


@model("Iterator::reduce")
def m_reduce(c):
    I = c.I
    it = src(c)
    if it.op == "iter" and it.args[0].op != "it_byref":
        # items are pulled one at a time: effects of the stages and of the reducer interleave
        n = it_len(I, it.args[0])
        n = n if n is None or n is INF else T.max0(sub(n, it.args[1]))
        if n is not None and n is not INF and is_num(n) and 0 <= n.args[0] <= 64:
            acc = None
            for k in range(int(n.args[0])):
                if I.alive is FALSE:
                    return BOT
                x = item(I, it.args[0], add(it.args[1], num(k)))
                acc = x if acc is None else I.apply(c.raw(1), [acc, x])
            return NONE if acc is None else BOT if acc is BOT or I.alive is FALSE else some(acc)
    s = collect_seq(I, it, c.fr)
    if I.alive is FALSE:
        return BOT
    n = length(s)
    # additive / multiplicative step?
    p, q = fresh("phi"), fresh("phi")
    sn = I.snapshot()
    I.vars = dict(I.vars)
    r = I.apply(c.raw(1), [p, q])
    pure = len(I.panics) == sn[2] and len(I.effects) == sn[3] and I.alive is sn[1]
    I.restore(sn)

    def go():
        if pure and r is not BOT and not is_num(n):
            if r is add(p, q):
                return some(T.summ(n, lambda k: idx(s, k)))
            if r is mul(p, q):
                k = fresh()
                return some(T.mkprod(n, k, idx(s, k)))
        acc = I.temp(idx(s, ZERO))
        I.loop(sub(n, ONE), lambda k: I.store(acc, I.apply(c.raw(1), [I.val(acc), idx(s, add(k, ONE))])), None, None)
        return some(I.val(acc))
    return I.branch(ge(n, ONE), go, lambda: NONE)


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(c):
    I = c.I
    pl = I.through(c.raw(0)) if c.raw(0).op in ("ref", "ite") else None
    it = c.v(0)
    if it.op == "adt" and it.args[0] == "Range":
        it = to_iter(I, it)
    if it.op != "iter" or pl is None or c.key.endswith("back"):
        return I.opaque("next", c.args)
    st, pos = it.args
    n = it_len(I, st)
    if n is None:
        s = collect_stage(I, st, c.fr)
        st = raw("it_seq", s)
        n = length(s)
    if n is INF:
        v = item(I, st, pos)
        I.store(pl, raw("iter", st, add(pos, ONE)))
        return some(v)

    def yes():
        v = item(I, st, pos)
        I.store(pl, raw("iter", st, add(pos, ONE)))
        return some(v) if v is not BOT else BOT
    return I.branch(lt(pos, n), yes, lambda: NONE)


@model("Peekable::peek")
def m_peek(c):
    it = c.v(0)
    st, pos = it.args
    n = it_len(c.I, st)
    if n is None:
        return c.I.opaque("peek", c.args)
    return ite(lt(pos, n), some(item(c.I, st, pos)), NONE)


@model("Iterator::last")
def m_itlast(c):
    s = collect_seq(c.I, src(c), c.fr)
    n = length(s)
    k = ge(n, ONE)
    return ite(k, some(idx(s, sub(n, ONE))), NONE) if k is not FALSE else NONE


@model("Iterator::nth")
def m_nth(c):
    I = c.I
    it = src(c)
    if it.args[0].op == "it_byref":
        pl = I.through(it.args[0].args[0])
        inner = I.val(pl)
        st, pos = inner.args
        n = it_len(I, st)
        if n is None or n is INF:
            return I.opaque("nth", c.args)
        p2 = add(pos, c.v(1))
        I.store(pl, raw("iter", st, T.imin(add(p2, ONE), n)))
        return I.branch(lt(p2, n), lambda: some(item(I, st, p2)), lambda: NONE)
    s = collect_seq(I, it, c.fr)
    n = length(s)
    k = lt(c.v(1), n)
    return ite(k, some(idx(s, c.v(1))), NONE) if k is not FALSE else NONE


@model("Iterator::position", "Iterator::find", "Iterator::find_map")
def m_position(c):
    I = c.I
    s = collect_seq(I, src(c), c.fr)
    n = length(s)
    k = fresh("bv", {"k": "uint"})
    T.FACTS.append(sub(sub(n, k), ONE))
    x = idx(s, k)
    r = I.apply(c.raw(1), [x])
    T.FACTS.pop()
    fm = c.key.endswith("find_map")
    cond = isok(r) if fm else I.tobool(r)
    if is_num(n) and n.args[0] <= 16:
        out = NONE
        for i in reversed(range(int(n.args[0]))):
            ci = subst(cond, {k: num(i)})
            vi = subst(payload(r), {k: num(i)}) if fm else (num(i) if c.key.endswith("position") else idx(s, num(i)))
            out = ite(ci, some(vi), out)
        return out
    ex = I.mkexists(n, k, cond)
    pos = raw("firstx", n, lam(k, cond))
    v = pos if c.key.endswith("position") else (subst(payload(r), {k: pos}) if fm else idx(s, pos))
    return ite(ex, some(v), NONE) if ex is not FALSE else NONE


@model("Iterator::max", "Iterator::min")
def m_itmax(c):
    s = collect_seq(c.I, src(c), c.fr)
    n = length(s)
    if s.op == "lit":
        if not s.args:
            return NONE
        r = c.I.val(s.args[0])
        for x in s.args[1:]:
            x = c.I.val(x)
            m = T.imin(r, x)
            r = m if c.key.endswith("min") else sub(add(r, x), m)
        return some(r)
    return ite(ge(n, ONE), some(uf("seq" + c.key[-3:], s)), NONE)


@model("Iterator::unzip", "Iterator::partition")
def m_unzip(c):
    s = collect_seq(c.I, src(c), c.fr)
    if c.key.endswith("partition"):
        return c.I.opaque("partition", [])
    n = length(s)
    if s.op == "lit":
        return raw("tuple", seqlit([proj(x, None, None, "0") for x in s.args]), seqlit([proj(x, None, None, "1") for x in s.args]))
    return raw("tuple", tab(n, lambda k: proj(idx(s, k), None, None, "0")), tab(n, lambda k: proj(idx(s, k), None, None, "1")))


@model("array::map")
def m_arrmap(c):
    I = c.I
    s = c.v(0)
    return collect_stage(I, raw("it_map", raw("it_seq", s), c.raw(1)), c.fr)


@model("array::from_fn")
def m_fromfn(c):
    I = c.I
    n = c.rty().get("nv")
    return collect_stage(I, raw("it_map", raw("it_range", ZERO, n), c.raw(0)), c.fr)


@model("String::retain", "Vec::retain")
def m_retain(c):
    I = c.I
    s = collect_stage(I, raw("it_filter", raw("it_seq", c.v(0)), c.raw(1)), c.fr)
    sto(c, s)


@model("Vec::drain")
def m_drain(c):
    v, r = c.v(0), c.v(1)
    n = length(v)
    if r.op != "adt":
        return c.I.opaque("drain", c.args)
    lo, hi, bad = range_bounds(r, n)
    c.I.panic(bad, "oob", "drain", c.sp)
    sto(c, seqcat(seqslice(v, ZERO, lo), seqslice(v, hi, n)))
    return mkiter(raw("it_seq", seqslice(v, lo, hi)))


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_fncall(c):
    f = c.raw(0)
    a = c.v(1)
    return c.I.apply(f, list(a.args) if a.op == "tuple" else [a])


@model("Vec::dedup")
def m_dedup(c):
    sto(c, T.lift(lambda x: T.seqop("dedup", x), c.v(0)))
    return UNIT


@model("slice::sort", "slice::sort_unstable")
def m_sort(c):
    sto(c, T.lift(lambda x: T.seqop("sorted", x), c.v(0)))
    return UNIT

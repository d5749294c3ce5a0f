"""Semantics of library leaves (storage, collections, iterators, bytes, cosmwasm API)."""
import re
import json
from . import terms as tm
from .terms import (T, mk, I, TRUE, FALSE, UNIT, EMPTY, BYTES, SEQ, CAT, LEN, SLICE, IDX, UBE, BE, ADD, SUB, MUL, DIV,
                    ARITH, NOT, AND, OR, EQ, LT, LE, IS, FIELD, ADT, PHI, CALL, BCALL, TOP, close_forall, MAP,
                    FILTERMAP, COUNT)
from . import interp as ip
from .interp import OK, ERRV, SOME, NONE, cond_phi, resolve, decide, assume, RESULT, OPTION, cdnf

EXACT = {}
DECL = {}
_cache = {}


def M(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def D_(*names):
    def d(f):
        for n in names:
            DECL[n] = f
        return f
    return d


def find(d):
    p = d.get("path") or d["decl"]
    k = (p, d["decl"], d.get("self"))
    if k in _cache:
        return _cache[k]
    m = EXACT.get(p) or EXACT.get(d["decl"]) or None
    if m is None:
        m = DECL.get(d["decl"])
        if m is not None and d.get("key") and not getattr(m, "override", False):
            # a workspace / std implementation with a body is inlined unless the model overrides it
            m = None
    if m is None:
        for pre, f in PREFIX:
            if p.startswith(pre):
                m = f
                break
    _cache[k] = m
    return m


def over(f):
    f.override = True
    return f


def deref(I_, st, a):
    return I_.deref(st, a)


def args_(I_, st, args):
    return [I_.deref(st, a) for a in args]


# ------------------------------------------------------------ identity-like
def ident(I_, st, d, args, ty):
    return I_.deref(st, args[0])


def ident_keep(I_, st, d, args, ty):
    return args[0]


IDENT = """
alloc::borrow::ToOwned::to_owned
core::clone::Clone::clone
alloc::slice::<impl [T]>::to_vec
alloc::vec::Vec::<T, A>::as_slice
alloc::string::String::into_bytes
alloc::string::String::as_str
alloc::string::String::as_bytes
core::str::<impl str>::as_bytes
core::slice::<impl [T]>::iter
core::iter::traits::iterator::Iterator::cloned
core::iter::traits::iterator::Iterator::copied
cosmwasm_std::addresses::Addr::as_str
cosmwasm_std::addresses::Addr::as_bytes
cosmwasm_std::addresses::Addr::into_string
cosmwasm_std::addresses::Addr::unchecked
cosmwasm_std::hex_binary::HexBinary::as_slice
cosmwasm_std::binary::Binary::as_slice
cosmwasm_std::binary::Binary::to_vec
cosmwasm_std::math::uint128::Uint128::new
cosmwasm_std::math::uint128::Uint128::u128
cosmwasm_std::math::uint64::Uint64::new
cosmwasm_std::math::uint64::Uint64::u64
cosmwasm_std::math::uint256::Uint256::from_u128
cosmwasm_std::math::uint256::Uint256::from_uint128
generic_array::GenericArray::<T, N>::as_slice
core::hint::must_use
core::convert::identity
core::mem::drop
core::option::Option::<T>::as_ref
core::option::Option::<&T>::cloned
core::option::Option::<&T>::copied
core::option::Option::<&mut T>::cloned
core::option::Option::<T>::as_deref
core::result::Result::<T, E>::as_ref
core::str::<impl str>::to_string
core::str::<impl str>::to_owned
alloc::str::<impl str>::into_string
alloc::vec::Vec::<T, A>::into_boxed_slice
alloc::slice::<impl [T]>::into_vec
core::slice::<impl [T]>::as_slice
alloc::boxed::Box::<T>::new
core::mem::take_ref
""".split("\n")
for _n in IDENT:
    if _n:
        EXACT[_n] = ident
over(ident)
over(ident_keep)
for _n in ("core::ops::deref::Deref::deref", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow",
           "core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned"):
    EXACT[_n] = ident
EXACT["core::ops::deref::DerefMut::deref_mut"] = ident_keep
EXACT["core::convert::AsMut::as_mut"] = ident_keep


# conversions: From/Into between representations that denote the same value
@D_("core::convert::From::from", "core::convert::Into::into")
def conv(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    if v.op == "idx" and any(I_.p.types[t]["n"] == "u8" for t in (d.get("targs") or [])[:2] if isinstance(t, int)):
        tm.BYTE_BASES.add(v.a[0])
    return v


@D_("alloc::string::ToString::to_string")
@over
def to_string(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    if d.get("disp"):
        return own_display(I_, st, d, v)
    # Display of strings, addresses and integers is injective; integers keep a marker
    t = I_.p.types[d["targs"][0]]["n"] if d.get("targs") else ""
    if t.startswith("&"):
        t = t.lstrip("&")
    if t in ("str", "alloc::string::String") or t.endswith("addresses::Addr"):
        return v
    if t.endswith("hex_binary::HexBinary"):
        return CALL("hex", v)
    if v.op == "bytes":
        return v
    return display_of(v, t)


def own_display(I_, st, d, v):
    """the text written by the workspace's own Display implementation"""
    I_.nheap += 2
    me, fm = ("h", I_.nheap - 1), ("h", I_.nheap)
    st.mem[me], st.mem[fm] = v, EMPTY
    r, st = I_.run_fn(d["disp"], [mk("ptr", me, ()), mk("ptr", fm, ())], st)
    if st is None:
        return None, None
    return st.mem[fm], st


def display_of(v, t):
    if v.op == "int" and (t[:1] in "ui" and t[1:].isdigit() or t in ("usize", "isize") or "Uint" in t):
        return BYTES(str(v.a[0]).encode())
    return CALL("display", v)


@M("core::str::<impl str>::parse", "core::str::traits::FromStr::from_str")
def parse(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    if v.op == "call" and v.a[0] == "display":
        w = width_of(I_, I_.p.types[ty])
        return fitting(v.a[1][0], w) if w else OK(v.a[1][0])
    if v.op == "bytes" and bytes(v.a[0]).isdigit() and width_of(I_, I_.p.types[ty]):
        return fitting(I(int(bytes(v.a[0]))), width_of(I_, I_.p.types[ty]))
    return mk("call", "parse", (v,))


UINTS = {"Uint64": 64, "Uint128": 128, "Uint256": 256, "Uint512": 512}


def width_of(I_, t):
    """bits of the unsigned integer a Result type carries, or None"""
    t = I_.p.types[t["a"][0]] if t.get("a") else None
    if t is None:
        return None
    if t["k"] == "int":
        return I_.INTW.get(t["n"])
    return UINTS.get(t.get("p", "").split("::")[-1])


def fitting(v, w):
    """v if it is representable in w bits, else an error"""
    if v.op == "phi":
        return PHI([(d, fitting(x, w)) for d, x in v.a[0]])
    if v.op == "int" and v.a[0] < 1 << w or v.op == "be" and LEN(v.a[0]).op == "int" and LEN(v.a[0]).a[0] * 8 <= w:
        return OK(v)
    return cond_phi(BCALL("fits", v, I(w)), OK(v), ERRV())


@D_("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_from(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    t = I_.p.types[ty]
    okty = I_.p.types[t["a"][0]] if t.get("a") else None
    if okty is not None and okty["k"] == "array":
        n = I(okty["len"])
        return cond_phi(EQ(LEN(v), n), OK(v), ERRV())
    w = width_of(I_, t)
    if w:
        return fitting(v, w)
    return I_.opaque(st, "try_from:" + (okty["n"] if okty else "?"), args, ty)


@M("core::convert::TryInto::try_into")
def try_into(I_, st, d, args, ty):
    t = I_.p.types[ty]
    okty = I_.p.types[t["a"][0]] if t.get("a") else None
    if okty is not None and okty["k"] in ("array", "int"):
        return try_from(I_, st, d, args, ty)
    return NotImplemented


# ------------------------------------------------------------ Fn traits
@M("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def fncall(I_, st, d, args, ty):
    a = args[1] if len(args) > 1 else UNIT
    a = I_.deref(st, a)
    xs = list(a.a[0]) if a.op == "tup" else [a]
    return I_.call_value(st, args[0], xs, ty)


# ------------------------------------------------------------ comparisons
def operands(I_, st, d, args):
    xs = [resolve(st.facts, I_.deep_deref(st, x)) for x in args]
    if d.get("targs") and I_.p.types[d["targs"][0]]["k"] == "bool":
        xs = [tm.TRUTH(x) for x in xs]
    return xs


@D_("core::cmp::PartialEq::eq")
@over
def eq(I_, st, d, args, ty):
    return EQ(*operands(I_, st, d, args))


@D_("core::cmp::PartialEq::ne")
@over
def ne(I_, st, d, args, ty):
    return NOT(EQ(*operands(I_, st, d, args)))


def _cmp(fn):
    @over
    def f(I_, st, d, args, ty):
        a, b = [resolve(st.facts, I_.deep_deref(st, x)) for x in args]
        return fn(a, b)
    return f


DECL["core::cmp::PartialOrd::lt"] = _cmp(lambda a, b: LT(a, b))
DECL["core::cmp::PartialOrd::gt"] = _cmp(lambda a, b: LT(b, a))
DECL["core::cmp::PartialOrd::le"] = _cmp(lambda a, b: NOT(LT(b, a)))
DECL["core::cmp::PartialOrd::ge"] = _cmp(lambda a, b: NOT(LT(a, b)))
EXACT["core::cmp::Ord::max"] = EXACT["core::cmp::max"] = _cmp(lambda a, b: cond_phi(LT(a, b), b, a))
EXACT["core::cmp::Ord::min"] = EXACT["core::cmp::min"] = _cmp(lambda a, b: cond_phi(LT(a, b), a, b))


@D_("core::cmp::PartialOrd::partial_cmp", "core::cmp::Ord::cmp")
@over
def pcmp(I_, st, d, args, ty):
    a, b = [resolve(st.facts, I_.deep_deref(st, x)) for x in args]
    O = "core::cmp::Ordering"
    tm.VARIANTS.setdefault(O, [("Less", []), ("Equal", []), ("Greater", [])])
    lt, gt = LT(a, b), LT(b, a)
    v = PHI([(cdnf(lt, True), ADT(O, 0, ())),
             (cdnf(AND(NOT(lt), NOT(gt)), True), ADT(O, 1, ())),
             (cdnf(gt, True), ADT(O, 2, ()))])
    return SOME(v) if d["decl"].endswith("partial_cmp") else v


# ------------------------------------------------------------ numbers
def arith(op):
    @over
    def f(I_, st, d, args, ty):
        a, b = args_(I_, st, args)
        if op == "add" and d.get("self") == "alloc::string::String":
            return CAT([a, b])
        return ARITH(op, a, b)
    return f


for _t, _o in (("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul"), ("Div::div", "div"), ("Rem::rem", "rem"),
               ("Shl::shl", "shl"), ("Shr::shr", "shr")):
    DECL["core::ops::arith::" + _t] = arith(_o)
    DECL["core::ops::bit::" + _t] = arith(_o)


def arith_assign(op):
    @over
    def f(I_, st, d, args, ty):
        b = I_.deref(st, args[1])
        if op == "add" and d.get("self") == "alloc::string::String":
            I_.write_ptr(st, args[0], CAT([I_.deref(st, args[0]), b]))
            return UNIT
        I_.write_ptr(st, args[0], ARITH(op, I_.deref(st, args[0]), b))
        return UNIT
    return f


for _t, _o in (("AddAssign::add_assign", "add"), ("SubAssign::sub_assign", "sub"), ("MulAssign::mul_assign", "mul"),
               ("DivAssign::div_assign", "div")):
    DECL["core::ops::arith::" + _t] = arith_assign(_o)


def checked(op, opt):
    def f(I_, st, d, args, ty):
        a, b = args_(I_, st, args)
        r = ARITH(op, a, b)
        if op == "sub":
            ok = NOT(LT(a, b))
        elif op in ("div", "rem"):
            ok = NOT(EQ(b, I(0)))
        else:
            ok = NOT(BCALL("overflow", mk("sym", op), a, b)) if r.op != "int" else TRUE
        return cond_phi(ok, SOME(r) if opt else OK(r), NONE if opt else ERRV())
    return f


for _u in ("math::uint128::Uint128", "math::uint256::Uint256", "math::uint64::Uint64"):
    for _o in ("add", "sub", "mul", "div", "rem"):
        EXACT["cosmwasm_std::%s::checked_%s" % (_u, _o)] = checked(_o, False)
    EXACT["cosmwasm_std::%s::is_zero" % _u] = lambda I_, st, d, args, ty: EQ(I_.deref(st, args[0]), I(0))
    EXACT["cosmwasm_std::%s::zero" % _u] = lambda I_, st, d, args, ty: I(0)
    EXACT["cosmwasm_std::%s::one" % _u] = lambda I_, st, d, args, ty: I(1)
    EXACT["cosmwasm_std::%s::to_be_bytes" % _u] = (lambda w: lambda I_, st, d, args, ty: UBE(w, I_.deref(st, args[0])))(
        {"8": 16, "6": 32, "4": 8}[_u[-1]])
    EXACT["cosmwasm_std::%s::from_be_bytes" % _u] = lambda I_, st, d, args, ty: BE(I_.deref(st, args[0]))
    EXACT["cosmwasm_std::%s::saturating_sub" % _u] = lambda I_, st, d, args, ty: (
        lambda a, b: cond_phi(LT(a, b), I(0), SUB(a, b)))(*args_(I_, st, args))
def mul_ratio(chk):
    def f(I_, st, d, args, ty):
        x, n, m = args_(I_, st, args)
        r = DIV(MUL(x, n), m)
        if not chk:
            return r
        ok = AND(NOT(EQ(m, I(0))), NOT(BCALL("overflow", mk("sym", "ratio"), x, n, m)) if r.op != "int" else TRUE)
        return cond_phi(ok, OK(r), ERRV())
    return f


def abs_diff(I_, st, d, args, ty):
    a, b = args_(I_, st, args)
    return cond_phi(LT(a, b), SUB(b, a), SUB(a, b))


def overflowing_sub(I_, st, d, args, ty):
    a, b = args_(I_, st, args)
    return mk("tup", (cond_phi(LT(a, b), CALL("wsub", a, b), SUB(a, b)), LT(a, b)))


for _u in ("math::uint128::Uint128", "math::uint256::Uint256", "math::uint64::Uint64"):
    EXACT["cosmwasm_std::%s::multiply_ratio" % _u] = mul_ratio(False)
    EXACT["cosmwasm_std::%s::checked_multiply_ratio" % _u] = mul_ratio(True)
    EXACT["cosmwasm_std::%s::abs_diff" % _u] = abs_diff
for _w in ("u8", "u16", "u32", "u64", "u128", "usize"):
    EXACT["core::num::<impl %s>::abs_diff" % _w] = abs_diff
    EXACT["core::num::<impl %s>::overflowing_sub" % _w] = overflowing_sub
    EXACT["core::num::<impl %s>::div_ceil" % _w] = lambda I_, st, d, args, ty: (
        lambda a, b: DIV(ADD(a, b, I(-1)), b))(*args_(I_, st, args))
    _b = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}[_w]
    EXACT["core::num::<impl %s>::to_be_bytes" % _w] = (lambda b: lambda I_, st, d, args, ty: UBE(b, I_.deref(st, args[0])))(_b)
    EXACT["core::num::<impl %s>::from_be_bytes" % _w] = lambda I_, st, d, args, ty: BE(I_.deref(st, args[0]))
    EXACT["core::num::<impl %s>::to_le_bytes" % _w] = (lambda b: lambda I_, st, d, args, ty: CALL("ule", I(b), I_.deref(st, args[0])))(_b)
    EXACT["core::num::<impl %s>::from_le_bytes" % _w] = lambda I_, st, d, args, ty: CALL("le", I_.deref(st, args[0]))
    for _o in ("add", "sub", "mul", "div", "rem"):
        EXACT["core::num::<impl %s>::checked_%s" % (_w, _o)] = checked(_o, True)
    EXACT["core::num::<impl %s>::saturating_sub" % _w] = EXACT["cosmwasm_std::math::uint128::Uint128::saturating_sub"]
    EXACT["core::num::<impl %s>::wrapping_sub" % _w] = lambda I_, st, d, args, ty: CALL("wsub", *args_(I_, st, args))
    EXACT["core::num::<impl %s>::wrapping_add" % _w] = lambda I_, st, d, args, ty: CALL("wadd", *args_(I_, st, args))
    EXACT["core::num::<impl %s>::saturating_add" % _w] = lambda I_, st, d, args, ty: CALL("sadd", *args_(I_, st, args))


@D_("core::default::Default::default")
def default(I_, st, d, args, ty):
    t = I_.p.types[ty]
    n = t["n"]
    if t["k"] == "int" or n.endswith("Uint128") or n.endswith("Uint256"):
        return I(0)
    if t["k"] == "bool":
        return FALSE
    if t.get("p", "").endswith(("btree::map::BTreeMap", "hash::map::HashMap")):
        return mk("bt0")
    if t.get("p", "").endswith(("btree::set::BTreeSet", "hash::set::HashSet")):
        return EMPTY
    if n.startswith("alloc::vec::Vec") or n.startswith("alloc::string::String") or n.endswith("HexBinary") or n.endswith("Binary"):
        return EMPTY
    if t.get("p") == OPTION:
        return NONE
    return CALL("default", mk("sym", n))


# ------------------------------------------------------------ Option / Result helpers not inlined from core
@M("core::option::Option::<T>::take")
def opt_take(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    I_.write_ptr(st, args[0], NONE)
    return v


@M("core::mem::replace")
def mem_replace(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    I_.write_ptr(st, args[0], args[1])
    return v


@M("core::mem::swap")
def mem_swap(I_, st, d, args, ty):
    a, b = I_.deref(st, args[0]), I_.deref(st, args[1])
    I_.write_ptr(st, args[0], b)
    I_.write_ptr(st, args[1], a)
    return UNIT


@M("core::mem::take")
def mem_take(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    I_.write_ptr(st, args[0], default(I_, st, d, args, ty))
    return v


@M("core::option::Option::<T>::as_mut")
def opt_as_mut(I_, st, d, args, ty):
    p = args[0]
    v = I_.deref(st, p)
    if p.op != "ptr":
        return v
    inner = mk("ptr", p.a[0], p.a[1] + (("f", OPTION, 1, 0, 1),))
    return cond_phi(IS(v, OPTION, 1), SOME(inner), NONE)


# ------------------------------------------------------------ vectors / strings / bytes
@M("alloc::collections::vec_deque::VecDeque::<T>::new", "alloc::collections::vec_deque::VecDeque::<T>::with_capacity",
   "alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "alloc::string::String::new",
   "alloc::string::String::with_capacity")
def empty(I_, st, d, args, ty):
    return EMPTY


@M("alloc::vec::Vec::<T, A>::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back", "alloc::string::String::push")
def push(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    x = args[1]
    if d["decl"].startswith("alloc::string"):
        x = as_char(x)
        I_.write_ptr(st, args[0], CAT([v, x]))
    else:
        I_.write_ptr(st, args[0], CAT([v, SEQ([x])]))
    return UNIT


def as_char(x):
    """the text of one character"""
    if x.op == "int":
        return BYTES(chr(x.a[0]).encode())
    return SEQ([x])


@M("alloc::collections::vec_deque::VecDeque::<T, A>::push_front")
def push_front(I_, st, d, args, ty):
    I_.write_ptr(st, args[0], CAT([SEQ([args[1]]), I_.deref(st, args[0])]))
    return UNIT


@M("alloc::collections::vec_deque::VecDeque::<T, A>::pop_front")
def pop_front(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    n = LEN(v)
    if v.op == "seq" or v is EMPTY:
        if n is I(0):
            return NONE
        I_.write_ptr(st, args[0], SEQ(v.a[0][1:]))
        return SOME(v.a[0][0])
    I_.write_ptr(st, args[0], cond_phi(EQ(n, I(0)), v, SLICE(v, I(1), None)))
    return cond_phi(EQ(n, I(0)), NONE, SOME(IDX(v, I(0))))


@M("alloc::vec::Vec::<T, A>::append", "alloc::collections::vec_deque::VecDeque::<T, A>::append")
def append(I_, st, d, args, ty):
    v, w = I_.deref(st, args[0]), I_.deref(st, args[1])
    I_.write_ptr(st, args[0], CAT([v, w]))
    I_.write_ptr(st, args[1], EMPTY)
    return UNIT


@M("alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::string::String::push_str",
   "core::iter::traits::collect::Extend::extend")
def extend(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    w = opt_seq(I_, st, args[1], (d.get("targs") or [None])[-1])
    if v.op in ("bt0", "btree", "btins", "btcollect"):
        return NotImplemented
    I_.write_ptr(st, args[0], CAT([v, w]))
    return UNIT


@M("alloc::collections::vec_deque::VecDeque::<T, A>::clear", "alloc::vec::Vec::<T, A>::clear", "alloc::string::String::clear")
def clear(I_, st, d, args, ty):
    I_.write_ptr(st, args[0], EMPTY)
    return UNIT


@M("alloc::vec::Vec::<T, A>::split_off")
def split_off(I_, st, d, args, ty):
    v, k = I_.deref(st, args[0]), I_.deref(st, args[1])
    I_.write_ptr(st, args[0], SLICE(v, I(0), k))
    return SLICE(v, k, None)


@M("alloc::vec::Vec::<T, A>::truncate")
def truncate(I_, st, d, args, ty):
    v, k = I_.deref(st, args[0]), I_.deref(st, args[1])
    I_.write_ptr(st, args[0], CALL("truncate", v, k))
    return UNIT


@M("alloc::vec::Vec::<T, A>::pop", "alloc::collections::vec_deque::VecDeque::<T, A>::pop_back")
def pop(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    n = LEN(v)
    if v.op == "seq":
        if not v.a[0]:
            return NONE
        I_.write_ptr(st, args[0], SEQ(v.a[0][:-1]))
        return SOME(v.a[0][-1])
    I_.write_ptr(st, args[0], CALL("init", v))
    return cond_phi(EQ(n, I(0)), NONE, SOME(IDX(v, SUB(n, I(1)))))


@M("alloc::vec::Vec::<T, A>::insert")
def vinsert(I_, st, d, args, ty):
    v, k, x = I_.deref(st, args[0]), I_.deref(st, args[1]), args[2]
    I_.write_ptr(st, args[0], CAT([SLICE(v, I(0), k), SEQ([x]), SLICE(v, k, None)]))
    return UNIT


@M("alloc::vec::Vec::<T, A>::remove")
def vremove(I_, st, d, args, ty):
    v, k = I_.deref(st, args[0]), I_.deref(st, args[1])
    I_.write_ptr(st, args[0], CAT([SLICE(v, I(0), k), SLICE(v, ADD(k, I(1)), None)]))
    return IDX(v, k)


@M("alloc::collections::vec_deque::VecDeque::<T, A>::len", "alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "alloc::string::String::len",
   "core::iter::traits::exact_size::ExactSizeIterator::len")
def vlen(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    if v.op == "iter":
        return SUB(LEN(v.a[0]), v.a[1])
    return LEN(v)


@M("alloc::collections::vec_deque::VecDeque::<T, A>::is_empty", "alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty",
   "alloc::string::String::is_empty", "cosmwasm_std::coins::Coins::is_empty_")
def vempty(I_, st, d, args, ty):
    return EQ(LEN(I_.deref(st, args[0])), I(0))


@M("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first")
def vlast(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    n = LEN(v)
    k = SUB(n, I(1)) if d["decl"].endswith("last") else I(0)
    if n.op == "int" and n.a[0] == 0:
        return NONE
    return cond_phi(EQ(n, I(0)), NONE, SOME(IDX(v, k)))


@M("core::slice::<impl [T]>::get")
def vget(I_, st, d, args, ty):
    v, k = I_.deref(st, args[0]), I_.deref(st, args[1])
    if k.op == "adt":
        r = rng(k, v)
        if not r:
            return NotImplemented
        a, b = r
        if b is None:
            return cond_phi(LT(LEN(v), a), NONE, SOME(SLICE(v, a, None)))
        return cond_phi(AND(NOT(LT(LEN(v), b)), NOT(LT(b, a))), SOME(SLICE(v, a, b)), NONE)
    return cond_phi(LT(k, LEN(v)), SOME(IDX(v, k)), NONE)


@M("core::slice::<impl [T]>::contains", "std::collections::hash::set::HashSet::<T, S, A>::contains",
   "std::collections::hash::set::HashSet::<T, S>::contains", "alloc::collections::btree::set::BTreeSet::<T, A>::contains")
def contains(I_, st, d, args, ty):
    v, x = I_.deref(st, args[0]), I_.deref(st, args[1])
    return contains_t(I_, v, x)


def contains_t(I_, v, x):
    if v.op == "seq":
        return OR(*[EQ(e, x) for e in v.a[0]])
    lv = I_.fresh_lv()
    return NOT(close_forall(LEN(v), lv, NOT(EQ(IDX(v, lv), x))))


@M("alloc::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::join")
def concat(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    sep = I_.deref(st, args[1]) if len(args) > 1 else EMPTY
    n = LEN(v)
    if v.op == "seq" or v.op == "phi" and tm.is_int(n) and n.a[0] <= 64:
        parts = []
        for i in range(n.a[0]):
            e = IDX(v, I(i))
            if i and sep is not EMPTY:
                parts.append(sep)
            parts.append(I_.deref(st, e))
        return CAT(parts)
    if sep is EMPTY:
        lv = I_.fresh_lv()
        h, (e,) = tm.close(lv, IDX(v, lv))
        return mk("flatmap", LEN(v), h, e)
    return CALL("concat", v, sep)


def reads(I_, st, v, n, exact=False):
    """a read that aborts the call when the list is shorter (or, for a copy, of another length)"""
    while v.op == "slice" and tm.is_int(v.a[1]) and v.a[2] is None and not exact:
        v, n = v.a[0], ADD(v.a[1], n)
    if tm.is_int(n) and not tm.is_int(LEN(v)) and (v, n.a[0], exact) not in I_.reads:
        c = resolve(st.facts, EQ(LEN(v), n) if exact else LT(LEN(v), n))
        if c is not (TRUE if exact else FALSE):
            I_.reads[v, n.a[0], exact] = st.facts


@M("core::ops::index::Index::index")
def index(I_, st, d, args, ty):
    v, k = I_.deref(st, args[0]), I_.deref(st, args[1])
    r = rng(k, v)
    reads(I_, st, v, ADD(k, I(1)) if r is None else r[0] if r[1] is None else r[1])
    return index_t(v, k)


def rng(k, v):
    """(start, end|None) of a range value"""
    p = k.a[0] if k.op == "adt" else ""
    nm = p.split("::")[-1]
    if nm == "Range":
        return k.a[2][0], k.a[2][1]
    if nm == "RangeFrom":
        return k.a[2][0], None
    if nm == "RangeTo":
        return I(0), k.a[2][0]
    if nm == "RangeFull":
        return I(0), None
    if nm == "RangeInclusive":
        return k.a[2][0], ADD(k.a[2][1], I(1))
    if nm == "RangeToInclusive":
        return I(0), ADD(k.a[2][0], I(1))
    return None


def index_t(v, k):
    r = rng(k, v)
    if r:
        return SLICE(v, r[0], r[1])
    return IDX(v, k)


def innermost(I_, st, p):
    """the pointer to the list itself, behind references to references"""
    while p.op == "ptr":
        q = I_.read_ptr(st, p)
        if q.op != "ptr":
            break
        p = q
    return p


def proj(p, e):
    return mk("ptr", p.a[0], p.a[1] + (e,))


@M("core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_first_mut", "core::slice::<impl [T]>::split_last_mut",
   "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::get_mut")
def slice_mut(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    p = innermost(I_, st, args[0])
    if p.op != "ptr":
        return NotImplemented
    n, nm = LEN(v), d["decl"].split("::")[-1]
    if nm == "split_at_mut":
        k = I_.deref(st, args[1])
        return mk("tup", (proj(p, ("sl", I(0), k)), proj(p, ("sl", k, None))))
    if nm == "get_mut":
        k = I_.deref(st, args[1])
        if rng(k, v) is not None or k.op == "adt":
            return NotImplemented
        c, r = LT(k, n), proj(p, ("i", k))
    elif nm.endswith("first_mut"):
        c, r = NOT(EQ(n, I(0))), proj(p, ("i", I(0)))
        if nm.startswith("split"):
            r = mk("tup", (r, proj(p, ("sl", I(1), None))))
    else:
        c, r = NOT(EQ(n, I(0))), proj(p, ("i", SUB(n, I(1))))
        if nm.startswith("split"):
            r = mk("tup", (r, proj(p, ("sl", I(0), SUB(n, I(1))))))
    return cond_phi(c, SOME(r), NONE)


@M("core::slice::<impl [T]>::first_chunk", "core::slice::<impl [T]>::split_first_chunk", "core::slice::<impl [T]>::last_chunk",
   "core::slice::<impl [T]>::split_last_chunk")
def slice_chunk(I_, st, d, args, ty):
    v, nm = I_.deref(st, args[0]), d["decl"].split("::")[-1]
    k = array_len(I_, ty)
    if k is None:
        return NotImplemented
    n = LEN(v)
    if nm.endswith("first_chunk"):
        a, b = SLICE(v, I(0), I(k)), SLICE(v, I(k), None)
        r = mk("tup", (a, b))
    else:
        a, b = SLICE(v, SUB(n, I(k)), None), SLICE(v, I(0), SUB(n, I(k)))
        r = mk("tup", (b, a))
    return cond_phi(LT(n, I(k)), NONE, SOME(r if nm.startswith("split") else a))


def array_len(I_, ty):
    """length of the first array type found inside the type"""
    seen, todo = set(), [ty]
    while todo:
        t = todo.pop(0)
        if t is None or t in seen:
            continue
        seen.add(t)
        x = I_.p.types[t]
        if x.get("len") is not None:
            return x["len"]
        todo += [x["t"]] if x.get("t") is not None else []
        todo += [q for q in x.get("a", []) if isinstance(q, int)]
    return None


@M("core::array::<impl [T; N]>::map")
def arr_map(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    n = LEN(v)
    if n.op != "int" and array_len(I_, ty) is not None:
        n = I(array_len(I_, ty))
    if n.op != "int" or n.a[0] > 64:
        return NotImplemented
    out = []
    for i in range(n.a[0]):
        r, st = I_.call_value(st, args[1], [IDX(v, I(i))])
        if st is None:
            return None, None
        out.append(r)
    return SEQ(out), st


@M("core::array::from_fn")
def arr_from_fn(I_, st, d, args, ty):
    k = array_len(I_, ty)
    if k is None or k > 64:
        return NotImplemented
    out = []
    f = args[0]
    if f.op == "clos":
        f = mk("ptr", I_.new_cell(st, f), ())
    for i in range(k):
        r, st = I_.call_value(st, f, [I(i)])
        if st is None:
            return None, None
        out.append(r)
    return SEQ(out), st


@M("core::fmt::Write::write_fmt", "core::fmt::Write::write_str", "core::fmt::Write::write_char",
   "core::fmt::Formatter::<'a>::write_fmt", "core::fmt::Formatter::<'a>::write_str")
def wr_fmt(I_, st, d, args, ty):
    v, x = I_.deref(st, args[0]), I_.deref(st, args[1])
    if d["decl"].endswith("write_char"):
        x = as_char(x)
    I_.write_ptr(st, args[0], CAT([v, x]))
    return OK(UNIT)


@M("alloc::borrow::Cow::<'_, B>::into_owned", "alloc::borrow::Cow::<'_, B>::to_mut")
def cow_owned(I_, st, d, args, ty):
    return cow_value(I_.deref(st, args[0]))


def cow_value(v):
    if v.op == "phi":
        return PHI([(dd, cow_value(x)) for dd, x in v.a[0]])
    return v.a[2][0] if v.op == "adt" and v.a[0].endswith("borrow::Cow") else v


@M("core::iter::traits::iterator::Iterator::step_by")
def istep(I_, st, d, args, ty):
    S, k = seq_of(I_, st, args[0]), I_.deref(st, args[1])
    if not (k.op == "int" and k.a[0] > 0):
        return NotImplemented
    if k.a[0] == 1:
        return mk("iter", S, I(0))
    if S.op == "seq":
        return mk("iter", SEQ(S.a[0][::k.a[0]]), I(0))
    lv = I_.fresh_lv()
    return mk("iter", MAP(DIV(ADD(LEN(S), I(k.a[0] - 1)), k), lv, IDX(S, MUL(k, lv))), I(0))


@M("core::iter::traits::iterator::Iterator::reduce")
def ireduce(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    n = LEN(S)

    def body(s, acc, e):
        v, s2 = I_.call_value(s, args[1], [acc, e])
        return None if s2 is None else (v, s2, [])
    k, outs = loop_acc(I_, st, SLICE(S, I(1), None), IDX(S, I(0)), body)
    v, s = finish1(I_, k, outs)
    return (None, None) if s is None else (cond_phi(EQ(n, I(0)), NONE, SOME(v)), s)


@M("core::slice::<impl [T]>::fill")
def sfill(I_, st, d, args, ty):
    v, x = args_(I_, st, args)
    I_.write_ptr(st, args[0], tm.REP(x, LEN(v)))
    return UNIT


@M("core::slice::<impl [T]>::swap")
def sswap(I_, st, d, args, ty):
    v, i, j = args_(I_, st, args)
    p = innermost(I_, st, args[0])
    if p.op != "ptr":
        return NotImplemented
    I_.write_ptr(st, proj(p, ("i", i)), IDX(v, j))
    I_.write_ptr(st, proj(p, ("i", j)), IDX(v, i))
    return UNIT


@M("core::slice::<impl [T]>::rotate_right", "core::slice::<impl [T]>::rotate_left")
def srotate(I_, st, d, args, ty):
    v, k = args_(I_, st, args)
    if d["decl"].endswith("right"):
        k = SUB(LEN(v), k)
    I_.write_ptr(st, args[0], CAT([SLICE(v, k, None), SLICE(v, I(0), k)]))
    return UNIT


@M("core::iter::traits::iterator::Iterator::inspect")
def iinspect(I_, st, d, args, ty):
    return mk("iter", seq_of(I_, st, args[0]), I(0))


@M("core::iter::traits::iterator::Iterator::eq")
def ieq(I_, st, d, args, ty):
    return EQ(seq_of(I_, st, args[0]), seq_of(I_, st, args[1]))


@M("core::ops::index::IndexMut::index_mut")
def index_mut(I_, st, d, args, ty):
    k = I_.deref(st, args[1])
    v = I_.deref(st, args[0])
    r = rng(k, v)
    reads(I_, st, v, ADD(k, I(1)) if r is None else r[0] if r[1] is None else r[1])
    p = innermost(I_, st, args[0])
    if p.op != "ptr":
        return index_t(v, k)
    e = ("sl", r[0], r[1]) if r else ("i", k)
    return mk("ptr", p.a[0], p.a[1] + (e,))


def distance(a, b):
    """a - b if that is the same nonzero number for every value of their parts (0: equal or not known)"""
    at = {}

    def add(t, k):
        if tm.is_int(t):
            at[None] = at.get(None, 0) + k * t.a[0]
        elif t.op == "add":
            at[None] = at.get(None, 0) + k * t.a[1]
            for x in t.a[0]:
                add(x, k)
        elif t.op == "sub":        # a length that is a difference is not cut off at zero: the slicing aborts first
            add(t.a[0], k)
            add(t.a[1], -k)
        elif t.op == "mul" and len(t.a[0]) == 1:
            add(t.a[0][0], k * t.a[1])
        else:
            at[t] = at.get(t, 0) + k
    add(a, 1)
    add(b, -1)
    n = at.pop(None, 0)
    return n if not any(at.values()) else 0


@M("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from(I_, st, d, args, ty):
    src = I_.deref(st, args[1])
    a, b = LEN(src), LEN(I_.deref(st, args[0]))
    if distance(a, b):
        return None, None   # a length mismatch aborts
    if tm.is_int(b):
        reads(I_, st, src, b, True)
    I_.write_ptr(st, args[0], src)
    return UNIT


@M("core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks")
def chunks(I_, st, d, args, ty):
    v, n = args_(I_, st, args)
    lv = I_.fresh_lv()
    L = LEN(v)
    exact = (d.get("path") or d["decl"]).endswith("chunks_exact") or (tm.is_int(L) and tm.is_int(n) and n.a[0] and L.a[0] % n.a[0] == 0)
    N = DIV(L, n) if exact else DIV(ADD(L, n, I(-1)), n)
    end = MUL(n, ADD(lv, I(1)))
    if not exact:
        end = cond_phi(LT(L, end), L, end)
    return MAP(N, lv, SLICE(v, MUL(n, lv), end))


@M("core::slice::<impl [T]>::starts_with", "core::str::<impl str>::starts_with")
def starts_with(I_, st, d, args, ty):
    v, p = args_(I_, st, args)
    if p.op == "int":
        p = BYTES(chr(p.a[0]).encode())
    n = LEN(p)
    if tm.is_int(n):
        return AND(NOT(LT(LEN(v), n)), EQ(SLICE(v, I(0), n), p))
    return BCALL("starts_with", v, p)


@M("core::str::<impl str>::strip_prefix", "core::slice::<impl [T]>::strip_prefix")
def strip_prefix(I_, st, d, args, ty):
    v, p = args_(I_, st, args)
    if p.op == "int":
        p = BYTES(chr(p.a[0]).encode())
    n = LEN(p)
    if not tm.is_int(n):
        return NotImplemented
    return cond_phi(AND(NOT(LT(LEN(v), n)), EQ(SLICE(v, I(0), n), p)), SOME(SLICE(v, n, None)), NONE)


@M("core::slice::<impl [T]>::split_at")
def split_at(I_, st, d, args, ty):
    v, k = args_(I_, st, args)
    reads(I_, st, v, k)
    return mk("tup", (SLICE(v, I(0), k), SLICE(v, k, None)))


@M("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def split_first(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    n = LEN(v)
    if d["decl"].endswith("first"):
        r = (IDX(v, I(0)), SLICE(v, I(1), None))
    else:
        r = (IDX(v, SUB(n, I(1))), SLICE(v, I(0), SUB(n, I(1))))
    return cond_phi(EQ(n, I(0)), NONE, SOME(mk("tup", r)))


@M("alloc::vec::Vec::<T, A>::resize")
def vresize(I_, st, d, args, ty):
    v, n, x = args_(I_, st, args)
    m = LEN(v)
    I_.write_ptr(st, args[0], cond_phi(LT(n, m), SLICE(v, I(0), n), CAT([v, tm.REP(x, SUB(n, m))])))
    return UNIT


@M("core::slice::<impl [T]>::reverse")
def sreverse(I_, st, d, args, ty):
    I_.write_ptr(st, args[0], CALL("rev", I_.deref(st, args[0])))
    return UNIT


@M("alloc::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable")
def ssort(I_, st, d, args, ty):
    I_.write_ptr(st, args[0], CALL("sorted", I_.deref(st, args[0])))
    return UNIT


@M("alloc::vec::Vec::<T, A>::dedup")
def sdedup(I_, st, d, args, ty):
    I_.write_ptr(st, args[0], CALL("dedup", I_.deref(st, args[0])))
    return UNIT


@M("alloc::vec::from_elem")
def from_elem(I_, st, d, args, ty):
    x, n = args_(I_, st, args)
    t = I_.p.types[ty]
    if n.op == "int" and x.op == "int" and "u8" in t["n"]:
        return BYTES(bytes([x.a[0]]) * n.a[0])
    if n.op == "int" and n.a[0] <= 64:
        return SEQ([x] * n.a[0])
    return CALL("rep", x, n)


@M("alloc::boxed::Box::<T>::new_uninit")
def box_new_uninit(I_, st, d, args, ty):
    k = I_.new_cell(st, mk("bot"))
    return mk("ptr", k, ())


@M("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(I_, st, d, args, ty):
    return I_.deref(st, args[0])


@M("core::ops::drop::Drop::drop")
def drop(I_, st, d, args, ty):
    return UNIT


EXACT["core::mem::drop"] = drop


@M("alloc::string::String::from_utf8", "core::str::converts::from_utf8")
def from_utf8(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    c = BCALL("utf8", v)
    return cond_phi(c, OK(v), ERRV())


@M("core::str::<impl str>::chars", "core::str::<impl str>::bytes")
def chars(I_, st, d, args, ty):
    return I_.deref(st, args[0])


@M("core::array::<impl [T; N]>::as_slice")
def arr_slice(I_, st, d, args, ty):
    return I_.deref(st, args[0])


# ------------------------------------------------------------ hex / hashing
@M("cosmwasm_std::hex_binary::HexBinary::to_hex")
def to_hex(I_, st, d, args, ty):
    return CALL("hex", I_.deref(st, args[0]))


@M("cosmwasm_std::hex_binary::HexBinary::from_hex")
def from_hex(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    if v.op == "call" and v.a[0] == "hex":
        return OK(v.a[1][0])
    if v.op == "bytes":
        try:
            return OK(BYTES(bytes.fromhex(v.a[0].decode())))
        except Exception:
            return ERRV()
    return mk("call", "unhex", (v,))


@M("digest::digest::Digest::new")
def dig_new(I_, st, d, args, ty):
    t = I_.p.types[ty]["n"]
    return mk("dig", "keccak" if "Keccak" in t else t, EMPTY)


@M("digest::digest::Digest::update")
def dig_update(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    x = I_.deref(st, args[1])
    if v.op == "dig":
        I_.write_ptr(st, args[0], mk("dig", v.a[0], CAT([v.a[1], x])))
    else:
        I_.write_ptr(st, args[0], CALL("dig_update", v, x))
    return UNIT


@M("digest::digest::Digest::finalize")
def dig_fin(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    if v.op == "dig":
        return CALL("keccak" if v.a[0] == "keccak" else "hash:" + v.a[0], v.a[1])
    return CALL("dig_final", v)


@M("digest::digest::Digest::digest")
def dig_once(I_, st, d, args, ty):
    t = I_.p.types[d["targs"][0]]["n"]
    return CALL("keccak" if "Keccak" in t else "hash:" + t, I_.deref(st, args[0]))


@M("digest::digest::Digest::new_with_prefix")
def dig_prefix(I_, st, d, args, ty):
    t = I_.p.types[ty]["n"]
    return mk("dig", "keccak" if "Keccak" in t else t, I_.deref(st, args[0]))


@M("digest::digest::Digest::chain_update")
def dig_chain(I_, st, d, args, ty):
    v = args[0]
    x = I_.deref(st, args[1])
    return mk("dig", v.a[0], CAT([v.a[1], x])) if v.op == "dig" else CALL("dig_update", v, x)


# ------------------------------------------------------------ fmt
@M("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
   "core::fmt::rt::Argument::<'_>::new_lower_hex")
def fmt_arg(I_, st, d, args, ty):
    kind = d["decl"].split("new_")[-1]
    v = I_.deref(st, args[0])
    if kind == "display" and d.get("disp"):
        v, st = own_display(I_, st, d, v)
        return (None, None) if st is None else (mk("fmtarg", "str", v), st)
    if kind == "display":
        t = I_.p.types[d["targs"][0]]["n"].lstrip("&") if d.get("targs") else ""
        t = t.replace("'_ ", "").replace("'{erased} ", "").lstrip("&")
        if t.endswith("hex_binary::HexBinary"):
            v = CALL("hex", v)
        elif not (t in ("str", "alloc::string::String") or t.endswith("addresses::Addr") or v.op == "bytes"):
            v = display_of(v, t)
        kind = "str"
    return mk("fmtarg", kind, v)


def fmt_template(t):
    """pieces of a compiled format string: literal bytes or None for a plain placeholder"""
    out = []
    i = 0
    while True:
        n = t[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(t[i:i + n])
            i += n
        elif n == 0x80:
            k = t[i] | t[i + 1] << 8
            out.append(t[i + 2:i + 2 + k])
            i += 2 + k
        elif n == 0xc0:
            out.append(None)
        else:
            return None


@M("core::fmt::Arguments::<'a>::new")
def fmt_args(I_, st, d, args, ty):
    a = I_.deref(st, args[0])
    b = I_.deref(st, args[1]) if len(args) > 1 else EMPTY
    if a.op == "bytes" and b.op == "seq" and all(x.op == "fmtarg" and x.a[0] == "str" for x in b.a[0]):
        try:
            ps = fmt_template(a.a[0])
        except IndexError:
            ps = None
        if ps is not None and sum(p is None for p in ps) == len(b.a[0]):
            vs = iter(x.a[1] for x in b.a[0])
            return CAT([next(vs) if p is None else BYTES(p) for p in ps])
    return mk("call", "fmt", (a, b))


@M("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def fmt_str(I_, st, d, args, ty):
    return I_.deref(st, args[0])


@M("alloc::fmt::format")
def fmt_format(I_, st, d, args, ty):
    return args[0]


# ------------------------------------------------------------ iterators
ITER_T = "iter"


def strip_ref(I_, t):
    while t is not None and I_.p.types[t]["k"] == "ref":
        t = I_.p.types[t]["t"] if "t" in I_.p.types[t] else I_.p.types[t]["a"][0]
    return t


def item_type(I_, t):
    """element type of a collection / iterator type, None if not known"""
    t = I_.p.strip(t)
    x = I_.p.types[t]
    p = x.get("p", "")
    a = [q for q in x.get("a", []) if q is not None]
    if p.startswith("core::iter::adapters::map::Map") and len(a) == 2:
        y = I_.p.types[a[1]]
        fn = I_.p.fn(y.get("p", "")) if y["k"] == "closure" else None
        return fn.locals[0] if fn is not None else None
    if p.startswith(("alloc::vec::", "core::slice::iter", "core::array", "core::option", "alloc::collections")) and a:
        return a[0] if len(a) == 1 or "alloc::vec::" in p else None
    if p.startswith("core::iter::adapters::") and a and not re.search("zip|enumerate|flatten|filter_map|flat_map|scan|map_while", p):
        return item_type(I_, a[0])
    return None


def is_a(I_, t, path):
    return t is not None and I_.p.types[I_.p.strip(t)].get("p", "") == path


def opt_seq(I_, st, v, t, decl=""):
    """seq_of, for a value of a type known to be an Option or Result where it is not known which one it is"""
    if isinstance(t, int):
        for p, ok in ((OPTION, 1), (RESULT, 0)):
            if decl.startswith(p + "::<") or not decl.startswith("core::option") and is_a(I_, t, p):
                v = resolve(st.facts, I_.deref(st, v))
                if v.op not in ("iter", "phi", "adt"):
                    return cond_phi(IS(v, p, ok), SEQ([FIELD(v, p, ok, 0)]), EMPTY)
                if v.op == "adt":
                    return SEQ([v.a[2][0]]) if v.a[1] == ok else EMPTY
    return seq_of(I_, st, v)


def seq_of(I_, st, v):
    """remaining elements of an iterator / collection value"""
    v = I_.deref(st, v)
    v = resolve(st.facts, v)
    if v.op == "iter":
        return SLICE(v.a[0], v.a[1], None)
    if v.op == "lazymap":
        # elements with effects: taken one after the other, here
        r, s = map_all(I_, st, v.a[0], v.a[1])
        if s is None:
            return CALL("aborting", v.a[0])
        st.mem, st.stor, st.facts, st.pc = s.mem, s.stor, s.facts, s.pc
        return r
    if v.op == "adt" and v.a[0].split("::")[-1] in ("Range", "RangeInclusive"):
        a, b = rng(v, None)
        return RANGE(a, b)
    if v.op == "adt" and v.a[0] == OPTION:
        return SEQ([v.a[2][0]]) if v.a[1] == 1 else EMPTY
    if v.op == "phi":
        return PHI([(d, seq_of(I_, st, x)) for d, x in v.a[0]])
    return v


def RANGE(a, b):
    if a.op == "int" and b.op == "int" and b.a[0] - a.a[0] <= 64:
        return SEQ([I(i) for i in range(a.a[0], b.a[0])])
    return mk("range", a, b)


@M("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::option::Option::<T>::iter", "core::result::Result::<T, E>::iter", "alloc::collections::vec_deque::VecDeque::<T, A>::iter",
   "core::iter::traits::iterator::Iterator::by_ref", "core::slice::<impl [T]>::iter_mut",
   "core::iter::traits::iterator::Iterator::fuse", "core::iter::traits::iterator::Iterator::peekable")
def into_iter(I_, st, d, args, ty):
    if d["decl"].endswith("by_ref"):
        return args[0]
    v = I_.deref(st, args[0])
    if v.op == "iter":
        return v
    if v.op == "lazymap":
        return mk("iter", seq_of(I_, st, v), I(0))
    if d["decl"].endswith("iter_mut") or MUTREF.match(d.get("self") or ""):
        return mk("iter", mut_refs(I_, st, args[0], v), I(0))
    return mk("iter", opt_seq(I_, st, v, (d.get("targs") or [None])[0], d["decl"]), I(0))


MUTREF = re.compile(r"&('\w+ )?mut ")


def mut_refs(I_, st, p, v):
    """the sequence of &mut elements of the list behind pointer p"""
    while p.op == "ptr":
        q = I_.read_ptr(st, p)
        if q.op == "ptr":
            p = q
        else:
            break
    if p.op != "ptr":
        k = "mutable iteration over an unknown place"
        I_.unknown[k] = I_.unknown.get(k, 0) + 1
        return seq_of(I_, st, v)
    return mk("mref", p.a[0], p.a[1], LEN(seq_of(I_, st, v)))


@M("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next")
def nxt(I_, st, d, args, ty):
    it = resolve(st.facts, I_.deref(st, args[0]))
    if it.op == "phi":
        return NotImplemented
    if it.op == "adt" and it.a[0].endswith("Range"):
        a, b = it.a[2]
        c = LT(a, b)
        I_.write_ptr(st, args[0], ADT(it.a[0], it.a[1], (ADD(a, I(1)), b)))
        return cond_phi(c, SOME(a), NONE)
    if it.op == "lazymap":
        it = mk("iter", seq_of(I_, st, it), I(0))
    if it.op != "iter":
        it = mk("iter", it, I(0))
    S, pos = it.a
    n = LEN(S)
    c = LT(pos, n)
    dec = decide(st.facts, c)
    I_.write_ptr(st, args[0], mk("iter", S, ADD(pos, I(1))))
    if dec is True:
        return SOME(IDX(S, pos))
    if dec is False:
        return NONE
    return cond_phi(c, SOME(IDX(S, pos)), NONE)


@M("core::iter::traits::iterator::Iterator::chain")
def chain(I_, st, d, args, ty):
    return mk("iter", CAT([seq_of(I_, st, args[0]), opt_seq(I_, st, args[1], (d.get("targs") or [None])[-1])]), I(0))


@M("core::ops::range::RangeInclusive::<Idx>::new")
def range_incl(I_, st, d, args, ty):
    a, b = args_(I_, st, args)
    return ADT("core::ops::range::Range", 0, (a, ADD(b, I(1))))


@M("core::ops::range::Range::<Idx>::contains", "core::ops::range::RangeInclusive::<Idx>::contains")
def range_contains(I_, st, d, args, ty):
    r, x = args_(I_, st, args)
    b = rng(r, None)
    if b is None:
        return NotImplemented
    return AND(NOT(LT(x, b[0])), LT(x, b[1]) if b[1] is not None else TRUE)


@M("alloc::vec::Vec::<T, A>::drain")
def vdrain(I_, st, d, args, ty):
    v, k = I_.deref(st, args[0]), I_.deref(st, args[1])
    lo, hi = rng(k, v)
    I_.write_ptr(st, args[0], CAT([SLICE(v, I(0), lo), SLICE(v, hi, None) if hi is not None else EMPTY]))
    return mk("iter", SLICE(v, lo, hi), I(0))


@M("core::iter::sources::once::once")
def once(I_, st, d, args, ty):
    return mk("iter", SEQ([args[0]]), I(0))


@M("core::iter::sources::empty::empty")
def iempty(I_, st, d, args, ty):
    return mk("iter", EMPTY, I(0))


@M("core::iter::sources::repeat::repeat")
def irepeat(I_, st, d, args, ty):
    return mk("iter", CALL("repeat", I_.deref(st, args[0])), I(0))


@M("core::iter::sources::repeat_n::repeat_n")
def irepeat_n(I_, st, d, args, ty):
    return mk("iter", tm.REP(I_.deref(st, args[0]), I_.deref(st, args[1])), I(0))


@M("core::iter::traits::iterator::Iterator::nth")
def inth(I_, st, d, args, ty):
    S, k = seq_of(I_, st, args[0]), I_.deref(st, args[1])
    I_.write_ptr(st, args[0], mk("iter", S, ADD(k, I(1))))
    return cond_phi(LT(k, LEN(S)), SOME(IDX(S, k)), NONE)


@M("core::iter::traits::iterator::Iterator::unzip")
def unzip(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    out = []
    for i in range(2):
        if S.op == "seq":
            out.append(SEQ([I_.proj(st, x, ("tf", i)) for x in S.a[0]]))
        else:
            lv = I_.fresh_lv()
            out.append(MAP(LEN(S), lv, I_.proj(st, IDX(S, lv), ("tf", i))))
    return mk("tup", tuple(out))


@M("core::iter::traits::iterator::Iterator::enumerate")
def enumerate_(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    lv = I_.fresh_lv()
    return mk("iter", MAP(LEN(S), lv, mk("tup", (lv, IDX(S, lv)))), I(0))


@M("core::iter::traits::iterator::Iterator::zip")
def zip_(I_, st, d, args, ty):
    S, R = seq_of(I_, st, args[0]), seq_of(I_, st, args[1])
    lv = I_.fresh_lv()
    for a, b in ((S, R), (R, S)):
        if b.op == "adt" and b.a[0] == "core::ops::range::RangeFrom":
            i = ADD(b.a[2][0], lv)
            x = IDX(a, lv)
            return mk("iter", MAP(LEN(a), lv, mk("tup", (x, i) if a is S else (i, x))), I(0))
    n, m = LEN(S), LEN(R)
    N = n if n is m else CALL("minlen", n, m)
    if n.op == "int" and m.op == "int":
        N = I(min(n.a[0], m.a[0]))
    return mk("iter", MAP(N, lv, mk("tup", (IDX(S, lv), IDX(R, lv)))), I(0))


@M("core::iter::traits::iterator::Iterator::rev")
def rev(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    lv = I_.fresh_lv()
    n = LEN(S)
    if S.op == "seq":
        return mk("iter", SEQ(S.a[0][::-1]), I(0))
    return mk("iter", MAP(n, lv, IDX(S, SUB(n, ADD(lv, I(1))))), I(0))


@M("core::iter::traits::iterator::Iterator::take")
def take(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    n = I_.deref(st, args[1])
    return mk("iter", tm.TAKE(S, n), I(0))


@M("core::iter::traits::iterator::Iterator::skip")
def skip(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    return mk("iter", SLICE(S, I_.deref(st, args[1]), None), I(0))


def loop_acc(I_, st, S, init, body):
    """fold body(st, acc, elem)->(acc, st)|None over S; returns (value, state) of the normal exit, list of other exits"""
    k = I_.new_cell(st, init)

    def b(s, e):
        r = body(s, s.mem[k], e)
        if r is None:
            return None, []
        v, s2, ex = r
        if s2 is None:
            return None, ex
        s2.mem[k] = v
        return s2, ex
    outs = I_.iterate(st, S, b)
    return k, outs


def finish1(I_, k, outs):
    """join of exits for loops without early exits"""
    done = [s for t, s in outs if t == "done"]
    if not done:
        return None, None
    s = I_.merge(None, done) if len(done) > 1 else done[0]
    return s.mem.pop(k), s


def map_all(I_, st, S, f):
    def body(s, acc, e):
        v, s2 = I_.call_value(s, f, [e])
        if s2 is None:
            return None
        return CAT([acc, SEQ([v])]), s2, []
    k, outs = loop_acc(I_, st, S, EMPTY, body)
    return finish1(I_, k, outs)


def untouched(a, b):
    """state b holds everything that state a holds"""
    return all(b.mem.get(x) is y for x, y in a.mem.items()) and len(a.stor) == len(b.stor) and \
        all(b.stor.get(x) is y for x, y in a.stor.items())


@M("core::iter::traits::iterator::Iterator::map")
def imap(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    f = I_.deref(st, args[1])
    v, s = map_all(I_, st.fork(), S, f)
    if s is None:
        return None, None
    if not untouched(st, s):
        return mk("lazymap", S, f)
    return mk("iter", v, I(0)), s


def source(I_, st, v):
    """(elements of an iterator, what taking one does): for consumers that may stop early"""
    v = resolve(st.facts, I_.deref(st, v))
    if v.op == "lazymap":
        return v.a[0], lambda s, e: I_.call_value(s, v.a[1], [e])
    return seq_of(I_, st, v), lambda s, e: (e, s)


@M("core::iter::traits::iterator::Iterator::filter")
def ifilter(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    f = args[1]

    def body(s, acc, e):
        v, s2 = I_.call_value(s, f, [e])
        if s2 is None:
            return None
        return cond_phi(v, CAT([acc, SEQ([e])]), acc), s2, []
    k, outs = loop_acc(I_, st, S, EMPTY, body)
    v, s = finish1(I_, k, outs)
    if s is None:
        return None, None
    return mk("iter", v, I(0)), s


@M("core::iter::traits::iterator::Iterator::scan")
def iscan(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    k2 = I_.new_cell(st, I_.deref(st, args[1]))

    def body(s, acc, e):
        v, s2 = I_.call_value(s, args[2], [mk("ptr", k2, ()), e])
        if s2 is None:
            return None
        c = IS(resolve(s2.facts, v), OPTION, 1)
        stop = I_.branch(s2, c, False)
        ex = [("stop", stop if stop is not s2 else stop.fork())] if stop is not None else []
        go = I_.branch(s2, c, True)
        if go is None:
            return (acc, None, ex) if ex else None
        return CAT([acc, SEQ([FIELD(resolve(go.facts, v), OPTION, 1, 0)])]), go, ex
    k, outs = loop_acc(I_, st, S, EMPTY, body)
    res = []
    for tag, s in outs:
        res.append((mk("iter", s.mem.pop(k), I(0)), s))
    return I_.join_vals(st, res)


@M("cosmwasm_std::hex_binary::HexBinary::to_array", "cosmwasm_std::binary::Binary::to_array")
def to_array(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    t = I_.p.types[ty]
    n = I_.p.types[t["a"][0]].get("len") if t.get("a") else None
    if n is None:
        return NotImplemented
    return cond_phi(EQ(LEN(v), I(n)), OK(v), ERRV())


@M("core::iter::traits::iterator::Iterator::partition")
def ipartition(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])

    def body(s, acc, e):
        v, s2 = I_.call_value(s, args[1], [e])
        if s2 is None:
            return None
        a, b = acc.a[0]
        return mk("tup", (cond_phi(v, CAT([a, SEQ([e])]), a), cond_phi(v, b, CAT([b, SEQ([e])])))), s2, []
    k, outs = loop_acc(I_, st, S, mk("tup", (EMPTY, EMPTY)), body)
    return finish1(I_, k, outs)


@M("alloc::vec::Vec::<T, A>::retain")
def vretain(I_, st, d, args, ty):
    S = I_.deref(st, args[0])

    def body(s, acc, e):
        v, s2 = I_.call_value(s, args[1], [e])
        if s2 is None:
            return None
        return cond_phi(v, CAT([acc, SEQ([e])]), acc), s2, []
    k, outs = loop_acc(I_, st, S, EMPTY, body)
    v, s = finish1(I_, k, outs)
    if s is None:
        return None, None
    I_.write_ptr(s, args[0], v)
    return UNIT, s


@M("alloc::vec::Vec::<T, A>::swap_remove")
def vswaprm(I_, st, d, args, ty):
    v, k = args_(I_, st, args)
    n = SUB(LEN(v), I(1))
    I_.write_ptr(st, args[0], SLICE(tm.UPD(v, k, IDX(v, n)), I(0), n))
    return IDX(v, k)


@M("core::iter::traits::iterator::Iterator::filter_map")
def ifiltermap(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    f = args[1]

    def body(s, acc, e):
        v, s2 = I_.call_value(s, f, [e])
        if s2 is None:
            return None
        v = resolve(s2.facts, v)
        return cond_phi(IS(v, OPTION, 1), CAT([acc, SEQ([FIELD(v, OPTION, 1, 0)])]), acc), s2, []
    k, outs = loop_acc(I_, st, S, EMPTY, body)
    v, s = finish1(I_, k, outs)
    if s is None:
        return None, None
    return mk("iter", v, I(0)), s


@M("core::iter::traits::iterator::Iterator::flat_map")
def iflatmap(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    f = args[1]

    def body(s, acc, e):
        v, s2 = I_.call_value(s, f, [e])
        if s2 is None:
            return None
        return CAT([acc, seq_of(I_, s2, v)]), s2, []
    k, outs = loop_acc(I_, st, S, EMPTY, body)
    v, s = finish1(I_, k, outs)
    if s is None:
        return None, None
    return mk("iter", v, I(0)), s


@M("core::iter::traits::iterator::Iterator::flatten")
def iflatten(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    t = item_type(I_, d["targs"][0]) if d.get("targs") else None
    if S.op == "phi" and all(x.op == "seq" or x is EMPTY for _, x in S.a[0]):
        r = [(c, iflatten(I_, st, d, [mk("iter", x, I(0))], ty)) for c, x in S.a[0]]
        return mk("iter", PHI([(c, x.a[0]) for c, x in r]), I(0))
    if S.op == "seq":
        for p, ok in ((OPTION, 1), (RESULT, 0)):
            if is_a(I_, t, p) or S.a[0] and S.a[0][0].op == "adt" and S.a[0][0].a[0] == p:
                return mk("iter", CAT([cond_phi(IS(x, p, ok), SEQ([FIELD(x, p, ok, 0)]), EMPTY) for x in S.a[0]]), I(0))
        return mk("iter", CAT([seq_of(I_, st, x) for x in S.a[0]]), I(0))
    lv = I_.fresh_lv()
    e = IDX(S, lv)
    for p, ok in ((OPTION, 1), (RESULT, 0)):
        if is_a(I_, t, p):
            return mk("iter", tm.FILTERMAP(LEN(S), lv, IS(e, p, ok), FIELD(e, p, ok, 0)), I(0))
    h, (e2,) = tm.close(lv, e)
    return mk("iter", mk("flatmap", LEN(S), h, e2), I(0))


@M("core::iter::traits::iterator::Iterator::fold")
def ifold(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    f = args[2]

    def body(s, acc, e):
        v, s2 = I_.call_value(s, f, [acc, e])
        return None if s2 is None else (v, s2, [])
    k, outs = loop_acc(I_, st, S, I_.deref(st, args[1]), body)
    return finish1(I_, k, outs)


@M("core::iter::traits::iterator::Iterator::for_each")
def iforeach(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])

    def body(s, acc, e):
        v, s2 = I_.call_value(s, args[1], [e])
        return None if s2 is None else (UNIT, s2, [])
    k, outs = loop_acc(I_, st, S, UNIT, body)
    v, s = finish1(I_, k, outs)
    return (UNIT, s) if s is not None else (None, None)


def try_path(t):
    return RESULT if t.get("p") == RESULT else OPTION


@M("core::iter::traits::iterator::Iterator::try_fold", "core::iter::traits::iterator::Iterator::try_for_each")
def itryfold(I_, st, d, args, ty):
    t = I_.p.types[ty]
    P = try_path(t)
    okv = 0 if P == RESULT else 1
    S, take = source(I_, st, args[0])
    each = d["decl"].endswith("try_for_each")
    init = UNIT if each else I_.deref(st, args[1])
    f = args[1] if each else args[2]

    def body(s, acc, e):
        e, s = take(s, e)
        if s is None:
            return None
        rs = I_.call_value(s, f, [e] if each else [acc, e], None, True)
        if isinstance(rs, tuple):
            rs = [rs]
        ex = []
        oks = []
        for v, s2 in rs:
            if s2 is None:
                continue
            c = IS(resolve(s2.facts, v), P, okv)
            ok = I_.branch(s2, c, True)
            bad = I_.branch(s2, c, False)
            if bad is not None:
                ex.append(("err", bad if bad is not s2 else bad.fork()))
            if ok is not None:
                oks.append((FIELD(resolve(ok.facts, v), P, okv, 0), ok))
        if not oks:
            return (UNIT, None, ex) if ex else None
        v, ok = I_.join_vals(s, oks)
        return v, ok, ex
    k, outs = loop_acc(I_, st, S, init, body)
    res = []
    for tag, s in outs:
        v = s.mem.pop(k, UNIT)
        if tag == "done":
            res.append((ADT(P, okv, (v,)), s))
        else:
            res.append((ERRV() if P == RESULT else NONE, s))
    return I_.join_vals(st, res)


@M("core::iter::traits::iterator::Iterator::all", "core::iter::traits::iterator::Iterator::any")
def iall(I_, st, d, args, ty):
    S, take = source(I_, st, args[0])
    f = args[1]
    neg = d["decl"].endswith("any")

    def body(s, acc, e):
        e, s = take(s, e)
        if s is None:
            return None
        v, s2 = I_.call_value(s, f, [e])
        if s2 is None:
            return None
        v = resolve(s2.facts, v)
        return (AND(acc, NOT(v)) if neg else AND(acc, v)), s2, []
    if tm.is_int(LEN(S)) and S.op in ("slice", "f", "p", "ube"):
        # "all bytes are zero" as one comparison
        lv = I_.fresh_lv()
        r = body(st.fork(), TRUE, IDX(S, lv))
        if r is not None:
            c = close_forall(LEN(S), lv, r[0])
            if c.op == "eq" and lv not in tm.free_lv(c):
                return NOT(c) if neg else c
    k, outs = loop_acc(I_, st.fork(), S, TRUE, body)
    v, s = finish1(I_, k, outs)
    if s is None:
        return None, None
    if untouched(st, s):
        # evaluation may stop early: keep only the value
        return NOT(v) if neg else v

    def early(s, acc, e):
        e, s = take(s, e)
        if s is None:
            return None
        v, s2 = I_.call_value(s, f, [e])
        if s2 is None:
            return None
        v = resolve(s2.facts, v)
        stop = I_.branch(s2, v, neg)
        go = I_.branch(s2, v, not neg)
        ex = [("stop", stop if stop is not s2 else stop.fork())] if stop is not None else []
        return (UNIT, go, ex) if go is not None or ex else None
    k, outs = loop_acc(I_, st, S, UNIT, early)
    res = []
    for tag, s in outs:
        s.mem.pop(k, None)
        res.append(((FALSE if neg else TRUE) if tag == "done" else (TRUE if neg else FALSE), s))
    return I_.join_vals(st, res)


@M("core::iter::traits::iterator::Iterator::count")
def icount(I_, st, d, args, ty):
    return LEN(seq_of(I_, st, args[0]))


@M("core::iter::traits::iterator::Iterator::sum")
def isum(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])

    def body(s, acc, e):
        return ADD(acc, e), s, []
    k, outs = loop_acc(I_, st, S, I(0), body)
    return finish1(I_, k, outs)


@M("core::iter::traits::iterator::Iterator::find", "core::iter::traits::iterator::Iterator::position",
   "core::iter::traits::iterator::Iterator::find_map")
def ifind(I_, st, d, args, ty):
    S, take = source(I_, st, args[0])
    f = args[1]
    lv = I_.fresh_lv()
    s = st.fork()
    N = LEN(S)
    kind = d["decl"].split("::")[-1]
    p = st.fork()
    if N is not I(0):
        assume(p, LT(lv, N), True)
        x, p = take(p, IDX(S, lv))
        if p is not None:
            p = I_.call_value(p, f, [x])[1]
        if p is not None and not untouched(st, p):
            return find_early(I_, st, S, take, f, kind)
    if S.op == "seq" and (len(S.a[0]) <= 8 or len(S.a[0]) <= 64 and all(tm.is_int(x) for x in S.a[0])):
        r = NONE
        for i, x in reversed(list(enumerate(S.a[0]))):
            v, s2 = I_.call_value(st.fork(), f, [x])
            if s2 is None:
                return None, None
            hit = v if kind == "find_map" else SOME(I(i) if kind == "position" else x)
            r = cond_phi(IS(v, OPTION, 1) if kind == "find_map" else v, hit, r)
        return r
    assume(s, LT(lv, N), True)
    v, s2 = I_.call_value(s, f, [IDX(S, lv)])
    if s2 is None:
        return None, None
    if d["decl"].endswith("find_map"):
        c = IS(v, OPTION, 1)
    else:
        c = v
    none = close_forall(N, lv, NOT(c))
    h, (cw,) = tm.close(lv, NOT(c))
    w = mk("wit", N, h, cw)
    if d["decl"].endswith("find_map"):
        x = tm.subst(FIELD(v, OPTION, 1, 0), {lv: w})
    elif d["decl"].endswith("position"):
        x = w
    else:
        x = IDX(S, w)
    return cond_phi(none, NONE, SOME(x))


def find_early(I_, st, S, take, f, kind):
    """a search whose steps have effects: those up to the hit happen"""
    def body(s, acc, e):
        i = acc
        e, s = take(s, e)
        if s is None:
            return None
        v, s2 = I_.call_value(s, f, [e])
        if s2 is None:
            return None
        v = resolve(s2.facts, v)
        c = IS(v, OPTION, 1) if kind == "find_map" else v
        hit, go = I_.branch(s2, c, True), I_.branch(s2, c, False)
        ex = []
        if hit is not None:
            hit = hit if hit is not s2 else hit.fork()
            hit.mem[k2] = FIELD(resolve(hit.facts, v), OPTION, 1, 0) if kind == "find_map" else i if kind == "position" else e
            ex = [("hit", hit)]
        return (ADD(i, I(1)), go, ex) if go is not None or ex else None
    k2 = I_.new_cell(st, UNIT)
    k, outs = loop_acc(I_, st, S, I(0), body)
    res = []
    for tag, s in outs:
        s.mem.pop(k, None)
        x = s.mem.pop(k2, UNIT)
        res.append((NONE if tag == "done" else SOME(x), s))
    return I_.join_vals(st, res)


@M("core::iter::traits::iterator::Iterator::last")
def ilast(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    n = LEN(S)
    if n.op == "int" and n.a[0] == 0:
        return NONE
    return cond_phi(EQ(n, I(0)), NONE, SOME(IDX(S, SUB(n, I(1)))))


@M("core::iter::traits::iterator::Iterator::max", "core::iter::traits::iterator::Iterator::min")
def imax(I_, st, d, args, ty):
    return I_.opaque(st, d["decl"].split("::")[-1], [seq_of(I_, st, args[0])], ty)


@M("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def collect(I_, st, d, args, ty):
    S = seq_of(I_, st, args[0])
    t = I_.p.types[ty]
    return collect_as(I_, st, S, t)


def oks(I_, S, p, okv):
    """(all elements of S are Ok / Some, their payloads)"""
    lv = I_.fresh_lv()
    N = LEN(S)
    if S.op == "seq":
        return AND(*[IS(x, p, okv) for x in S.a[0]]), SEQ([FIELD(x, p, okv, 0) for x in S.a[0]])
    if S.op == "cat":
        parts = [oks(I_, x, p, okv) for x in S.a[0]]
        return AND(*[x[0] for x in parts]), CAT([x[1] for x in parts])
    if S.op == "phi" and len(S.a[0]) <= 6:
        parts = [(dd, oks(I_, x, p, okv)) for dd, x in S.a[0]]
        return (OR(*[AND(tm.dnf_term(dd), x[0]) for dd, x in parts]), PHI([(dd, x[1]) for dd, x in parts]))
    if S.op == "call" and S.a[0] == "entries" or S.op in ("entries", "keysof", "take"):
        return TRUE, S
    if S.op == "filtermap":
        b = tm.mk("bv", S.a[1])
        e = tm.subst(S.a[3], {b: lv})
        cc = tm.subst(S.a[2], {b: lv})
        return close_forall(S.a[0], lv, OR(NOT(cc), IS(e, p, okv))), FILTERMAP(S.a[0], lv, cc, FIELD(e, p, okv, 0))
    if S.op == "flatmap":
        return BCALL("allok", S), CALL("oks", S)
    e = IDX(S, lv)
    return close_forall(N, lv, IS(e, p, okv)), MAP(N, lv, FIELD(e, p, okv, 0))


def collect_as(I_, st, S, t):
    p = t.get("p", "")
    if p in (RESULT, OPTION):
        okv = 0 if p == RESULT else 1
        inner = I_.p.types[t["a"][0]]
        c, vals = oks(I_, S, p, okv)
        v = collect_as(I_, st, vals, inner)
        return cond_phi(c, ADT(p, okv, (v,)), ERRV() if p == RESULT else NONE)
    if "btree::map::BTreeMap" in p or "hash::map::HashMap" in p:
        return mk("btcollect", S)
    if "btree::set::BTreeSet" in p or "hash::set::HashSet" in p:
        return mk("set", S)
    return S


# ------------------------------------------------------------ BTreeMap / sets (API level)
@M("alloc::collections::btree::map::BTreeMap::<K, V>::new", "std::collections::hash::map::HashMap::<K, V>::new",
   "std::collections::hash::map::HashMap::<K, V>::with_capacity")
def bt_new(I_, st, d, args, ty):
    return mk("bt0")


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::insert", "std::collections::hash::map::HashMap::<K, V, S, A>::insert", "std::collections::hash::map::HashMap::<K, V, S>::insert")
def bt_insert(I_, st, d, args, ty):
    m, k, v = args_(I_, st, args)
    old = bt_lookup(m, k)
    I_.write_ptr(st, args[0], mk("btins", m, k, v))
    return old


def bt_lookup(m, k):
    while m.op == "btins":
        if m.a[1] is k:
            return SOME(m.a[2])
        if EQ(m.a[1], k) is FALSE:
            m = m.a[0]
            continue
        break
    if m.op == "bt0":
        return NONE
    return mk("call", "btget", (m, k))


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::get", "std::collections::hash::map::HashMap::<K, V, S, A>::get", "std::collections::hash::map::HashMap::<K, V, S>::get")
def bt_get(I_, st, d, args, ty):
    m, k = args_(I_, st, args)
    return bt_lookup(m, k)


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::contains_key", "std::collections::hash::map::HashMap::<K, V, S, A>::contains_key", "std::collections::hash::map::HashMap::<K, V, S>::contains_key")
def bt_has(I_, st, d, args, ty):
    m, k = args_(I_, st, args)
    return IS(bt_lookup(m, k), OPTION, 1)


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::get_mut", "std::collections::hash::map::HashMap::<K, V, S, A>::get_mut", "std::collections::hash::map::HashMap::<K, V, S>::get_mut")
def bt_get_mut(I_, st, d, args, ty):
    m, k = args_(I_, st, args)
    r = bt_lookup(m, k)
    p = args[0]
    while p.op == "ptr":
        q = I_.read_ptr(st, p)
        if q.op == "ptr":
            p = q
        else:
            break
    if p.op != "ptr":
        return r
    inner = mk("ptr", p.a[0], p.a[1] + (("bt", k),))
    return cond_phi(IS(r, OPTION, 1), SOME(inner), NONE)


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::remove", "std::collections::hash::map::HashMap::<K, V, S, A>::remove", "std::collections::hash::map::HashMap::<K, V, S>::remove")
def bt_remove(I_, st, d, args, ty):
    m, k = args_(I_, st, args)
    I_.write_ptr(st, args[0], mk("btdel", m, k))
    return bt_lookup(m, k)


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::pop_first")
def bt_pop(I_, st, d, args, ty):
    m = I_.deref(st, args[0])
    I_.write_ptr(st, args[0], mk("btrest", m))
    return mk("call", "btfirst", (m,))


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::len", "std::collections::hash::map::HashMap::<K, V, S, A>::len", "std::collections::hash::map::HashMap::<K, V, S>::len", "alloc::collections::btree::set::BTreeSet::<T, A>::len",
   "std::collections::hash::set::HashSet::<T, S>::len", "std::collections::hash::set::HashSet::<T, S, A>::len")
def bt_len(I_, st, d, args, ty):
    return mk("len", I_.deref(st, args[0]))


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::is_empty", "alloc::collections::btree::set::BTreeSet::<T, A>::is_empty",
   "std::collections::hash::set::HashSet::<T, S>::is_empty", "std::collections::hash::set::HashSet::<T, S, A>::is_empty", "std::collections::hash::map::HashMap::<K, V, S, A>::is_empty", "std::collections::hash::map::HashMap::<K, V, S>::is_empty")
def bt_empty(I_, st, d, args, ty):
    return EQ(mk("len", I_.deref(st, args[0])), I(0))


@M("alloc::collections::btree::map::BTreeMap::<K, V, A>::values", "alloc::collections::btree::map::BTreeMap::<K, V, A>::into_values",
   "alloc::collections::btree::map::BTreeMap::<K, V, A>::keys", "alloc::collections::btree::map::BTreeMap::<K, V, A>::iter")
def bt_values(I_, st, d, args, ty):
    return mk("iter", mk("call", "bt" + d["decl"].split("::")[-1].replace("into_", ""), (I_.deref(st, args[0]),)), I(0))


@M("std::collections::hash::set::HashSet::<T>::new", "std::collections::hash::set::HashSet::<T>::with_capacity", "alloc::collections::btree::set::BTreeSet::<T>::new")
def set_new(I_, st, d, args, ty):
    return EMPTY


@M("std::collections::hash::set::HashSet::<T, S, A>::insert", "std::collections::hash::set::HashSet::<T, S>::insert",
   "alloc::collections::btree::set::BTreeSet::<T, A>::insert")
def set_insert(I_, st, d, args, ty):
    v, x = args_(I_, st, args)
    c = contains_t(I_, v, x)
    I_.write_ptr(st, args[0], resolve(st.facts, cond_phi(c, v, CAT([v, SEQ([x])]))))
    return NOT(c)


# ------------------------------------------------------------ Coins (API level)
CN = "cosmwasm_std::coins::Coins"


@M("<%s as core::convert::TryFrom<alloc::vec::Vec<cosmwasm_std::coin::Coin>>>::try_from" % CN,
   "<%s as core::convert::TryFrom<&[cosmwasm_std::coin::Coin]>>::try_from" % CN)
def coins_try(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    if v is EMPTY:
        return OK(CALL("coins0"))
    return cond_phi(BCALL("coins_valid", v), OK(CALL("coins_of", v)), ERRV())


@M("<%s as core::default::Default>::default" % CN)
def coins_default(I_, st, d, args, ty):
    return CALL("coins0")


@M("<%s as core::convert::From<cosmwasm_std::coin::Coin>>::from" % CN)
def coins_from1(I_, st, d, args, ty):
    return CALL("coins_add", CALL("coins0"), I_.deref(st, args[0]))


@M(CN + "::add", CN + "::sub")
def coins_op(I_, st, d, args, ty):
    op = d["decl"].split("::")[-1]
    c, x = I_.deref(st, args[0]), I_.deref(st, args[1])
    ok = BCALL("coins_%s_ok" % op, c, x)
    good = I_.branch(st, ok, True)
    bad = I_.branch(st, ok, False)
    outs = []
    if bad is not None:
        bad = bad.fork()
        outs.append((ERRV(), bad))
    if good is not None:
        I_.write_ptr(good, args[0], CALL("coins_" + op, c, x))
        outs.append((OK(UNIT), good))
    return I_.join_vals(st, outs)


@M(CN + "::to_vec", CN + "::into_vec")
def coins_vec(I_, st, d, args, ty):
    return CALL("coins_vec", I_.deref(st, args[0]))


@M(CN + "::amount_of")
def coins_amount(I_, st, d, args, ty):
    return CALL("amount_of", *args_(I_, st, args))


@M(CN + "::is_empty")
def coins_empty(I_, st, d, args, ty):
    return BCALL("coins_empty", I_.deref(st, args[0]))


@M(CN + "::len")
def coins_len(I_, st, d, args, ty):
    return CALL("coins_len", I_.deref(st, args[0]))


def opt_result(v, ty):
    return v


# ------------------------------------------------------------ storage
def site(I_, op, ns):
    f = I_.stack[-1] if I_.stack else None
    # attribute to the innermost repository function
    for g in reversed(I_.stack):
        if g.crate.startswith("hpl"):
            f = g
            break
    if f is not None:
        I_.sites.add((op, ns, f.path, f.file, f.line))


def item_get(I_, st, ns):
    k = ("i", ns)
    v = st.stor.get(k)
    if v is None:
        v = mk("item", ns)
    return resolve(st.facts, v)


def map_get(I_, st, ns):
    k = ("m", ns)
    v = st.stor.get(k)
    return v if v is not None else mk("map0", ns)


def opt2res(v):
    return cond_phi(IS(v, OPTION, 1), OK(FIELD(v, OPTION, 1, 0)), ERRV())


def nsof(v):
    if v.op in ("itemns", "mapns"):
        return v.a[0]
    return "?" + tm.show(v)


SI = "cw_storage_plus::item::Item::<'a, T>::"
SM = "cw_storage_plus::map::Map::<'a, K, T>::"


@M("cw_storage_plus::map::Map::<'a, K, T>::new")
def map_new(I_, st, d, args, ty):
    return mk("mapns", args[0].a[0].decode() if args[0].op == "bytes" else "?")


@M("cw_storage_plus::item::Item::<'a, T>::new")
def item_new(I_, st, d, args, ty):
    return mk("itemns", args[0].a[0].decode() if args[0].op == "bytes" else "?")


@M(SI + "load")
def i_load(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "load", ns)
    return opt2res(item_get(I_, st, ns))


@M(SI + "may_load")
def i_mayload(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "load", ns)
    return OK(item_get(I_, st, ns))


@M(SI + "exists")
def i_exists(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    return IS(item_get(I_, st, ns), OPTION, 1)


@M(SI + "save")
def i_save(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "save", ns)
    st.stor[("i", ns)] = SOME(I_.deep_deref(st, args[2]))
    return OK(UNIT)


@M(SI + "remove")
def i_remove(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "remove", ns)
    st.stor[("i", ns)] = NONE
    return UNIT


@M(SI + "update")
def i_update(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "save", ns)
    cur = item_get(I_, st, ns)
    outs = []
    c = IS(cur, OPTION, 1)
    s1 = I_.branch(st, c, True)
    s0 = I_.branch(st, c, False)
    if s0 is not None:
        outs.append((ERRV(), s0 if s0 is not st else s0.fork()))
    if s1 is not None:
        v, s = I_.call_value(s1, args[2], [FIELD(resolve(s1.facts, cur), OPTION, 1, 0)])
        if s is not None:
            outs.extend(_save_ok(I_, s, v, lambda s, x: s.stor.__setitem__(("i", ns), SOME(x))))
    return I_.join_vals(st, outs)


def _save_ok(I_, s, v, save):
    outs = []
    v = resolve(s.facts, v)
    c = IS(v, RESULT, 0)
    so = I_.branch(s, c, True)
    se = I_.branch(s, c, False)
    if se is not None:
        outs.append((ERRV(), se.fork()))
    if so is not None:
        x = FIELD(resolve(so.facts, v), RESULT, 0, 0)
        save(so, x)
        outs.append((OK(x), so))
    return outs


def lookup(m, k, facts=None):
    if m.op == "phi":
        return PHI([(d, lookup(v, k, facts)) for d, v in m.a[0]])
    while m.op in ("store", "del"):
        k2 = m.a[1]
        if k2 is k:
            return SOME(m.a[2]) if m.op == "store" else NONE
        if EQ(k, k2) is FALSE:
            m = m.a[0]
            continue
        break
    return mk("at", m, k)


@M(SM + "load")
def m_load(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "load", ns)
    return opt2res(resolve(st.facts, lookup(map_get(I_, st, ns), I_.deep_deref(st, args[2]))))


@M(SM + "may_load")
def m_mayload(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "load", ns)
    return OK(resolve(st.facts, lookup(map_get(I_, st, ns), I_.deep_deref(st, args[2]))))


@M(SM + "has")
def m_has(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "load", ns)
    return IS(resolve(st.facts, lookup(map_get(I_, st, ns), I_.deep_deref(st, args[2]))), OPTION, 1)


@M(SM + "save")
def m_save(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "save", ns)
    st.stor[("m", ns)] = mk("store", map_get(I_, st, ns), I_.deep_deref(st, args[2]), I_.deep_deref(st, args[3]))
    return OK(UNIT)


@M(SM + "remove")
def m_remove(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "remove", ns)
    st.stor[("m", ns)] = mk("del", map_get(I_, st, ns), I_.deep_deref(st, args[2]))
    return UNIT


@M(SM + "update")
def m_update(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "save", ns)
    m = map_get(I_, st, ns)
    k = I_.deep_deref(st, args[2])
    v, s = I_.call_value(st, args[3], [lookup(m, k)])
    if s is None:
        return None, None
    outs = _save_ok(I_, s, v, lambda s, x: s.stor.__setitem__(("m", ns), mk("store", m, k, x)))
    return I_.join_vals(st, outs)


PATH = "cw_storage_plus::path::Path::<T>::"


@M(SM + "key")
def m_key(I_, st, d, args, ty):
    return mk("call", "pathof", (I_.deref(st, args[0]), I_.deep_deref(st, args[1])))


def via_path(f):
    def g(I_, st, d, args, ty):
        p = I_.deref(st, args[0])
        if p.op != "call" or p.a[0] != "pathof":
            return NotImplemented
        return f(I_, st, d, [p.a[1][0], args[1], p.a[1][1]] + list(args[2:]), ty)
    return g


for _n, _f in (("load", m_load), ("may_load", m_mayload), ("has", m_has), ("save", m_save), ("remove", m_remove), ("update", m_update)):
    EXACT[PATH + _n] = via_path(_f)


@M(SM + "clear")
def m_clear(I_, st, d, args, ty):
    ns = nsof(I_.deref(st, args[0]))
    site(I_, "remove", ns)
    st.stor[("m", ns)] = mk("sym", "cleared")
    return UNIT


@M(SM + "range", SM + "keys", "cw_storage_plus::prefix::Prefix::<K, T, B>::range", "cw_storage_plus::prefix::Prefix::<K, T, B>::keys",
   "cw_storage_plus::prefix::Prefix::<K, T>::range")
def m_range(I_, st, d, args, ty):
    m = I_.deref(st, args[0])
    kind = d["decl"].split("::")[-1]
    if m.op == "mapns":
        site(I_, "load", m.a[0])
        base = map_get(I_, st, m.a[0])
    else:
        base = m
    lo, hi, order = [I_.deref(st, a) for a in args[2:5]]
    return mk("iter", mk("entries" if kind == "range" else "keysof", base, lo, hi, order), I(0))


@M(SM + "prefix")
def m_prefix(I_, st, d, args, ty):
    m = I_.deref(st, args[0])
    site(I_, "load", nsof(m))
    return mk("prefix", map_get(I_, st, nsof(m)), I_.deref(st, args[1]))


# ------------------------------------------------------------ cosmwasm API
@M("cosmwasm_std::traits::Api::addr_validate")
def addr_validate(I_, st, d, args, ty):
    x = I_.deref(st, args[1])
    return cond_phi(BCALL("valid_addr", x), OK(x), ERRV())


@M("cosmwasm_std::traits::Api::debug")
def api_debug(I_, st, d, args, ty):
    return UNIT


@M("cosmwasm_std::traits::Api::secp256k1_recover_pubkey")
def recover(I_, st, d, args, ty):
    return mk("call", "recover", tuple(args_(I_, st, args[1:])))


@M("cosmwasm_std::serde::to_json_binary", "cosmwasm_std::serde::to_binary")
def to_json(I_, st, d, args, ty):
    t = I_.p.types[d["targs"][0]]["n"] if d.get("targs") else "?"
    return OK(mk("json", t.lstrip("&").replace("'_ ", ""), I_.deep_deref(st, args[0])))


@M("cosmwasm_std::serde::from_json", "cosmwasm_std::serde::from_binary")
def from_json(I_, st, d, args, ty):
    x = I_.deref(st, args[0])
    if x.op == "json":
        return OK(x.a[1])
    t = I_.p.types[d["targs"][0]]["n"] if d.get("targs") else "?"
    return mk("call", "fromjson", (mk("sym", t), x))


@M("cw_utils::parse_reply::parse_instantiate_response_data")
def parse_instantiate(I_, st, d, args, ty):
    return mk("call", "instantiate_response", (I_.deref(st, args[0]),))


@M("cosmwasm_std::traits::QuerierWrapper::<'a, C>::query_wasm_smart")
def query_smart(I_, st, d, args, ty):
    addr = I_.deref(st, args[1])
    msg = I_.deep_deref(st, args[2])
    targs = [I_.p.types[x]["n"] for x in d.get("targs", [])]
    t = I_.p.types[ty]
    ret = I_.p.types[t["a"][0]]["n"]
    # the message type is the type of the reference passed
    return mk("call", "query", (addr, msg, mk("sym", ret), mk("sym", targs[-1].lstrip("&") if targs else "?")))


@M("cosmwasm_std::traits::QuerierWrapper::<'a, C>::query")
def query_any(I_, st, d, args, ty):
    q = resolve(st.facts, I_.deep_deref(st, args[1]))
    if q.op != "adt":
        return NotImplemented
    ret = I_.p.types[I_.p.types[ty]["a"][0]]["n"]
    v = lambda t: tm.vname(t.a[0], t.a[1])
    if v(q) in ("Wasm", "Bank") and q.a[2] and q.a[2][0].op == "adt":
        r = q.a[2][0]
        if v(r) == "Smart" and r.a[2][1].op == "json":
            return mk("call", "query", (r.a[2][0], r.a[2][1].a[1], mk("sym", ret), mk("sym", r.a[2][1].a[0])))
        if v(r) == "Balance":
            c = mk("call", "query_balance", tuple(r.a[2]))
            t = I_.p.types[I_.p.types[ty]["a"][0]]
            return cond_phi(IS(c, RESULT, 0), OK(ADT(t["p"], 0, [FIELD(c, RESULT, 0, 0)])), ERRV())
    return NotImplemented


@M("cosmwasm_std::traits::QuerierWrapper::<'a, C>::query_balance")
def query_balance(I_, st, d, args, ty):
    return mk("call", "query_balance", tuple(args_(I_, st, args[1:])))


@M("cosmwasm_std::traits::QuerierWrapper::<'a, C>::query_all_balances")
def query_all_balances(I_, st, d, args, ty):
    return mk("call", "query_all_balances", tuple(args_(I_, st, args[1:])))


@M("cosmwasm_std::errors::std_error::StdError::generic_err")
def generic_err(I_, st, d, args, ty):
    return ip.ERR


EXACT["cosmwasm_std::math::uint256::Uint256::new"] = lambda I_, st, d, args, ty: BE(I_.deref(st, args[0]))


@M("cosmwasm_std::errors::std_error::OverflowError::new", "cosmwasm_std::errors::std_error::StdError::overflow",
   "cosmwasm_std::errors::std_error::StdError::divide_by_zero")
def ovf_err(I_, st, d, args, ty):
    return ip.ERR


@M("serde_json_wasm::ser::to_string")
def sjw(I_, st, d, args, ty):
    return OK(mk("call", "jsonstr", (I_.deep_deref(st, args[0]),)))


@M("core::panicking::panic_fmt", "core::panicking::panic", "core::option::expect_failed", "core::option::unwrap_failed",
   "core::result::unwrap_failed::unwrap_failed_inner", "core::result::unwrap_failed", "core::panicking::unreachable_display",
   "core::panicking::unreachable_default_msg", "core::panicking::unimplemented_default_msg")
def panics(I_, st, d, args, ty):
    return None, None


PREFIX = []


@M(*["core::num::<impl %s>::trailing_zeros" % t for t in ("u8", "u16", "u32", "u64", "u128", "usize")])
def trailing_zeros(I_, st, d, args, ty):
    v = I_.deref(st, args[0])
    if tm.is_int(v) and v.a[0]:
        return I((v.a[0] & -v.a[0]).bit_length() - 1)
    return CALL("trailing_zeros", v)


# ---- schema generation (packages/schema): schemas are named by the type they describe, files are a map from path to content
@M("schemars::gen::SchemaGenerator::into_root_schema_for", "schemars::gen::SchemaGenerator::root_schema_for")
def schema_for(I_, st, d, args, ty):
    return mk("call", "schema", (mk("sym", I_.p.types[d["targs"][0]]["n"]),))


@M("cosmwasm_schema::query_response::QueryResponses::response_schemas")
def response_schemas(I_, st, d, args, ty):
    return OK(mk("call", "responses", (mk("sym", I_.p.types[d["targs"][0]]["n"]),)))


@M("std::env::current_dir")
def current_dir(I_, st, d, args, ty):
    return OK(mk("sym", "cwd"))


@M("cosmwasm_schema::idl::JsonApi::to_string")
def api_string(I_, st, d, args, ty):
    return OK(mk("call", "apijson", (I_.deep_deref(st, args[0]),)))


@M("std::path::PathBuf::push")
def path_push(I_, st, d, args, ty):
    I_.write_ptr(st, args[0], mk("call", "pathjoin", (I_.deref(st, args[0]), I_.deep_deref(st, args[1]))))
    return UNIT


@M("std::path::Path::join")
def path_join(I_, st, d, args, ty):
    return mk("call", "pathjoin", (I_.deep_deref(st, args[0]), I_.deep_deref(st, args[1])))


@M("std::path::Path::with_extension")
def path_ext(I_, st, d, args, ty):
    b, x = I_.deep_deref(st, args[0]), I_.deep_deref(st, args[1])
    if b.op == "call" and b.a[0] == "pathjoin":
        return mk("call", "pathjoin", (b.a[1][0], CAT([b.a[1][1], BYTES(b"."), x])))
    return NotImplemented


@M("<std::path::PathBuf as core::ops::deref::Deref>::deref", "std::path::PathBuf::as_path", "std::path::Path::to_path_buf",
   "<std::path::PathBuf as core::clone::Clone>::clone", "std::path::Path::new", "<std::path::PathBuf as core::convert::From<&T>>::from")
def path_same(I_, st, d, args, ty):
    return I_.deep_deref(st, args[0])


@M("std::fs::write")
def fs_write(I_, st, d, args, ty):
    st.stor[("m", "fs")] = mk("store", map_get(I_, st, "fs"), I_.deep_deref(st, args[0]), I_.deep_deref(st, args[1]))
    return OK(UNIT)


@M("std::fs::remove_dir_all", "std::fs::create_dir_all", "std::fs::create_dir", "std::fs::remove_dir")
def fs_dirs(I_, st, d, args, ty):
    return OK(UNIT)

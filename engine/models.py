"""What the standard library does to values, for the parts of it that are not
analysed from their own MIR."""
import re
from terms import *

TRANSPARENT = {
    "std::boxed::Box",
    "std::boxed::BoxRaw",
    "std::ptr::NonNull",
    "std::ptr::Unique",
    "std::mem::ManuallyDrop",
    "std::mem::MaybeUninit",
    "std::mem::MaybeDangling",
    "std::rc::Rc",
    "std::sync::Arc",
    "std::iter::Cloned",
    "std::iter::Copied",
    "std::iter::Fuse",
}
SEQ_TYPES = {
    "std::vec::Vec",
    "std::string::String",
    "std::slice::Iter",
    "std::vec::IntoIter",
    "std::str::Chars",
    "std::collections::VecDeque",
}

INLINE = (
    "std::option::",
    "std::result::",
    "std::ops::",
    "core::ops::",
    "std::cmp::",
    "std::convert::",
    "core::convert::",
    "std::iter::",
    "core::iter::",
    "std::borrow::",
    "core::bool::",
    "std::bool::",
    "std::clone::",
    "std::default::",
    "std::mem::replace",
    "std::mem::swap",
    "std::mem::take",
    "core::tuple::",
    "core::option::",
    "core::result::",
    "core::array::",
    "models::",
)


def may_inline(path):
    p = path
    m = re.match(r"^<(.*) as (.*?)>::(\w+)(::.*)?$", p)
    if m:
        slf, tr = m.group(1), m.group(2)
        slf = slf.lstrip("&").replace("'a ", "").replace("mut ", "")
        if re.match(r"^[A-Z]\w*$", slf):
            return tr.startswith(("std::iter", "std::ops", "std::cmp", "std::convert", "std::clone", "std::default", "std::borrow"))
        if slf.startswith("("):
            return True
        return slf.startswith(INLINE)
    return p.startswith(INLINE)


EXACT = {}
TRAIT = {}
RX = []


def exact(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f

    return d


def trait(tr, *names):
    def d(f):
        for n in names:
            TRAIT[(tr, n)] = f
        return f

    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f

    return d


_cache = {}


def find(rpath, path, tr, name):
    k = (rpath, tr, name)
    if k in _cache:
        return _cache[k]
    r = EXACT.get(rpath) or EXACT.get(path)
    if r is None:
        for p, f in RX:
            if p.search(rpath) or (path != rpath and p.search(path)):
                r = f
                break
    if r is None:
        r = TRAIT.get((tr, name))
    _cache[k] = r
    return r


# ---------------------------------------------------------------- helpers
def val(I_, st, a):
    """the value behind a"""
    while a.op == "mref":
        a = I_.read_mref(st, a)
        if a is None:
            return mk("undef")
    return a


def some(x):
    return agg("std::option::Option", 1, [x])


NONE = agg("std::option::Option", 0, [])


def ok(x):
    return agg("std::result::Result", 0, [x])


def err(x):
    return agg("std::result::Result", 1, [x])


def base_type(I_, ti):
    return I_.p.types[I_.p.strip(ti)]


def is_strlike(I_, ti):
    t = base_type(I_, ti)
    return t["k"] == "str" or (t["k"] == "adt" and t["path"] in ("std::string::String", "std::borrow::Cow"))


def argty(I_, st, t, i):
    """type index of the i-th argument of a call"""
    o = t[2][i]
    if o[0] == "k":
        return o[1][1]
    fr = st.frames[-1]
    ti = fr.fn.locals[o[1][0]]
    for e in o[1][1]:
        if e[0] == "f":
            ti = e[2]
        elif e[0] == "D":
            ti = I_.p.types[ti].get("e", ti)
    return ti


def is_seq_type(I_, ti):
    t = base_type(I_, ti)
    return t["k"] in ("str", "slice", "array") or (
        t["k"] == "adt" and (t["path"] in SEQ_TYPES)
    )


def elem_ty(I_, ti):
    t = base_type(I_, ti)
    if t["k"] in ("slice", "array"):
        return I_.p.tag(t["e"])
    if t["k"] == "str":
        return "char"
    if t["k"] == "adt":
        if t["path"] in ("std::string::String", "std::str::Chars"):
            return "char"
        if t["args"]:
            return I_.p.tag(t["args"][0])
    return None


def itseq(I_, st, v):
    """sequence of the items an iterator value still has, or None"""
    v = val(I_, st, v)
    if v.op == "agg":
        if v.args[0] == "std::iter::Chain":
            out = []
            for x in v.args[2]:
                if x.op != "agg":
                    return None
                if x.args[1] == 1:
                    s = itseq(I_, st, x.args[2][0])
                    if s is None:
                        return None
                    out.append(s)
            return concat(*out)
        if v.args[0] == "std::option::Option":
            return vec_of(list(v.args[2]))
        return None
    if v.op in ("undef", "bot", "mref"):
        return None
    return v


# ------------------------------------------------------------- identities
def ident(I_, st, args, c, t):
    return args[0]


def ident_val(I_, st, args, c, t):
    return val(I_, st, args[0])


for n in (
    "std::boxed::Box::<T>::new",
    "std::hint::must_use",
    "std::fmt::format",
    "std::rc::Rc::<T>::new",
    "std::sync::Arc::<T>::new",
    "std::boxed::Box::<T>::pin",
    "std::convert::identity",
    "std::boxed::Box::<T, A>::into_inner",
):
    EXACT[n] = ident
RX.append((re.compile(r"^<std::(vec::Vec|string::String|boxed::Box|rc::Rc|sync::Arc)<?.*as std::ops::DerefMut>::deref_mut$"), ident))
RX.append((re.compile(r"^<std::(vec::Vec|string::String|boxed::Box|rc::Rc|sync::Arc)<?.*as std::ops::Deref>::deref$"), ident_val))
RX.append((re.compile(r"^<std::(vec::Vec|string::String|boxed::Box|rc::Rc|sync::Arc)<?.*as std::clone::Clone>::clone$"), ident_val))
RX.append((re.compile(r"^<std::(slice::Iter|vec::IntoIter|str::Chars|str::CharIndices|collections::HashMap)<?.*as std::clone::Clone>::clone$"), ident_val))
RX.append((re.compile(r"(std::borrow::ToOwned|as std::borrow::ToOwned>::to_owned|impl std::borrow::ToOwned for .*>::to_owned)$"), ident_val))
for n in (
    r"core::str::<impl str>::chars$",
    r"std::str::Chars::<'a>::as_str$",
    r"core::slice::<impl \[T\]>::iter$",
    r"slice::<impl \[T\]>::(to_vec|into_vec)$",
    r"std::string::String::as_str$",
    r"std::string::String::into_boxed_str$",
    r"std::vec::Vec::<T, A>::(as_slice|into_boxed_slice)$",
    r"core::str::<impl str>::(as_str|to_owned|into_string)$",
    r"<impl str>::into_string$",
    r"std::slice::Iter::<'a, T>::as_slice$",
    r"std::vec::IntoIter::<T, A>::as_slice$",
    r"as std::convert::AsRef<.*>>::as_ref$",
    r"as std::borrow::Borrow<.*>>::borrow$",
    r"^<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$",
    r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$",
    r"IntoIterator for &'a \[T\]>::into_iter$",
    r"^<&'a \[T\] as std::iter::IntoIterator>::into_iter$",
    r"IntoIterator for \[T; N\]>::into_iter$",
    r"IntoIterator for &'a \[T; N\]>::into_iter$",
    r"^<std::string::String as std::convert::From<&(mut )?str>>::from$",
    r"^<std::string::String as std::convert::From<std::boxed::Box<str>>>::from$",
    r"^<std::vec::Vec<T> as std::convert::From<.*>>::from$",
    r"^<std::boxed::Box<.*> as std::convert::From<.*>>::from$",
    r"^<std::string::String as std::str::FromStr>::from_str$",
):
    RX.append((re.compile(n), ident_val))
RX[-1] = (RX[-1][0], lambda I_, st, a, c, t: ok(val(I_, st, a[0])))


@rx(r"as std::string::ToString>::to_string$")
def to_string(I_, st, args, c, t):
    v = val(I_, st, args[0])
    ti = (c.get("rargs") or c["targs"])[0]
    return display(I_, v, ti)


def display(I_, v, ti):
    b = base_type(I_, ti)
    if is_strlike(I_, ti):
        return v
    if b["k"] == "char":
        return push_elem(EMPTY, v, char=True)
    if b["k"] == "int" and v.op == "int":
        return S(str(v.args[0]))
    if b["k"] == "adt" and b["path"] == "std::fmt::Arguments":
        return v
    if b["k"] == "adt" and not b["enum"] and b["krate"] == I_.p.crate:
        w = own_display(I_, ti)
        if w is not None:
            return subst(w[1], {w[0]: v})
    return seq([("S", app("display", v))])


_disp = {}


def own_display(I_, ti):
    """what the crate writes where it shows a value of a type of its own,
    when it is one text: the value and the text"""
    p = I_.p
    ti = p.strip(ti)
    at = (id(p), ti)
    if at not in _disp:
        _disp[at] = None
        for k, f in p.raw.items():
            if f["path"].endswith(" as std::fmt::Display>::fmt") and f["nargs"] == 2 and p.strip(f["locals"][1]) == ti:
                import interp

                g = interp.Interp(p).analyse(k)
                es = list(g.edges())
                if g.stuck or len(es) != 1 or es[0].kind != "ret" or es[0].guards:
                    break
                t = es[0].value
                if t.op == "app" and t.args[0] == "fmt:res" and (es[0].cells or {}).get("p1") is concat(g.pointees[1], t.args[1]):
                    _disp[at] = (g.params[0], t.args[1])
                break
    return _disp[at]


# ---------------------------------------------------------------- vectors
@rx(
    r"std::vec::Vec::<T>::(new|with_capacity)$",
    r"std::string::String::(new|with_capacity)$",
    r"<std::(vec::Vec<.*>|string::String) as std::default::Default>::default$",
    r"<&str as std::default::Default>::default$",
    r"<impl std::default::Default for &str>::default$",
)
def vec_new(I_, st, args, c, t):
    return EMPTY


@rx(r"std::vec::Vec::<T, A>::push$")
def vec_push(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    I_.write_mref(st, args[0], push_elem(v, val(I_, st, args[1]) if args[1].op != "mref" else args[1]))
    return UNIT


@rx(r"std::string::String::push$")
def str_push(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    I_.write_mref(st, args[0], push_elem(v, args[1], char=True))
    return UNIT


@rx(r"std::string::String::push_str$", r"std::vec::Vec::<T, A>::extend_from_slice$")
def str_push_str(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    I_.write_mref(st, args[0], concat(v, val(I_, st, args[1])))
    return UNIT


@rx(r"<std::string::String as std::ops::AddAssign<&str>>::add_assign$")
def str_add_assign(I_, st, args, c, t):
    return str_push_str(I_, st, args, c, t)


@rx(r"<std::string::String as std::ops::Add<&str>>::add$")
def str_add(I_, st, args, c, t):
    return concat(args[0], val(I_, st, args[1]))


@rx(r"std::vec::Vec::<T, A>::insert$")
def vec_insert(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    out = []
    for s, truth in I_.split(st, le(args[1], slen(v))):
        if not truth:
            I_.panic(s, "insert out of bounds")
            continue
        I_.write_mref(s, args[0], seq([("S", stake(v, args[1])), ("E", args[2]), ("S", sdrop(v, args[1]))]))
        out.append((s, UNIT))
    return out


@rx(r"std::vec::Vec::<T, A>::remove$")
def vec_remove(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    ety = elem_ty(I_, argty(I_, st, t, 0))
    out = []
    for s, truth in I_.split(st, lt(args[1], slen(v))):
        if not truth:
            I_.panic(s, "remove out of bounds")
            continue
        x = nth(v, args[1], ty=ety)
        I_.write_mref(s, args[0], concat(stake(v, args[1]), sdrop(v, add(args[1], I(1)))))
        out.append((s, x))
    return out


@rx(r"std::vec::Vec::<T, A>::truncate$")
def vec_truncate(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    out = []
    for s, truth in I_.split(st, le(args[1], slen(v))):
        if truth:
            I_.write_mref(s, args[0], stake(v, args[1]))
        out.append((s, UNIT))
    return out


@rx(r"std::(vec::Vec::<T, A>|string::String)::clear$")
def vec_clear(I_, st, args, c, t):
    I_.write_mref(st, args[0], EMPTY)
    return UNIT


@rx(r"std::(vec::Vec::<T, A>|string::String)::(reserve|shrink_to_fit|reserve_exact)$")
def vec_reserve(I_, st, args, c, t):
    return UNIT


@rx(r"std::vec::Vec::<T, A>::append$")
def vec_append(I_, st, args, c, t):
    a, b = I_.read_mref(st, args[0]), I_.read_mref(st, args[1])
    I_.write_mref(st, args[0], concat(a, b))
    I_.write_mref(st, args[1], EMPTY)
    return UNIT


@rx(r"std::vec::Vec::<T, A>::pop$", r"std::string::String::pop$")
def vec_pop(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    ety = elem_ty(I_, argty(I_, st, t, 0))
    out = []
    for s, truth in I_.split(st, lt(ZERO, slen(v))):
        if truth:
            x = slast(v, ty=ety)
            I_.write_mref(s, args[0], sinit(v))
            out.append((s, some(x)))
        else:
            out.append((s, NONE))
    return out


@rx(r"(core::slice::<impl \[T\]>|std::vec::Vec::<T, A>|<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>|<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>)::len$")
def seq_len(I_, st, args, c, t):
    return slen(val(I_, st, args[0]))


@rx(r"as std::iter::ExactSizeIterator>::len$", r"^std::iter::ExactSizeIterator::len$")
def exact_len(I_, st, args, c, t):
    s = itseq(I_, st, args[0])
    return NotImplemented if s is None else slen(s)


@rx(r"(core::str::<impl str>|std::string::String)::len$")
def str_len(I_, st, args, c, t):
    return blen(val(I_, st, args[0]))


@rx(r"(core::slice::<impl \[T\]>|std::vec::Vec::<T, A>|core::str::<impl str>|std::string::String)::is_empty$")
def seq_is_empty(I_, st, args, c, t):
    return le0(slen(val(I_, st, args[0])))


@rx(r"(core::slice|slice)::<impl \[T\]>::contains$")
def slice_contains(I_, st, args, c, t):
    v, x = val(I_, st, args[0]), val(I_, st, args[1])
    ti = argty(I_, st, t, 1)
    b = base_type(I_, ti)
    s = is_strlike(I_, ti)
    if not s and b["k"] not in ("int", "uint", "char", "bool"):
        return NotImplemented
    ps = parts_of(v)
    if all(k == "E" for k, _ in ps) and len(ps) <= 8:
        r = B(False)
        for _, y in ps:
            r = OR(r, eqs(y, x) if s else eqi(y, x))
        return r
    return app("contains", v, x, ty="bool")


@rx(r"(core::slice|slice)::<impl \[T\]>::binary_search$")
def binary_search(I_, st, args, c, t):
    if not is_strlike(I_, argty(I_, st, t, 1)):
        return NotImplemented
    return app("bsearch", val(I_, st, args[0]), val(I_, st, args[1]), ty=I_.p.tag(t[6]))


@rx(r"std::slice::from_ref$")
def from_ref(I_, st, args, c, t):
    return vec_of([val(I_, st, args[0])])


@rx(r"core::slice::<impl \[T\]>::(first|last)$")
def seq_first(I_, st, args, c, t):
    v = val(I_, st, args[0])
    ety = elem_ty(I_, argty(I_, st, t, 0))
    out = []
    for s, truth in I_.split(st, lt(ZERO, slen(v))):
        if truth:
            out.append((s, some(nth(v, ZERO, ty=ety) if c["name"] == "first" else slast(v, ty=ety))))
        else:
            out.append((s, NONE))
    return out


@rx(r"core::slice::<impl \[T\]>::(first_mut|last_mut)$")
def seq_first_mut(I_, st, args, c, t):
    m = args[0]
    v = I_.read_mref(st, m)
    ety = elem_ty(I_, argty(I_, st, t, 0))
    out = []
    for s, truth in I_.split(st, lt(ZERO, slen(v))):
        if truth:
            p = ("i", ZERO, ety) if c["name"] == "first_mut" else ("last", ety)
            out.append((s, some(mk("mref", m.args[0], m.args[1] + (p,)))))
        else:
            out.append((s, NONE))
    return out


@rx(r"core::slice::<impl \[T\]>::get$")
def seq_get(I_, st, args, c, t):
    v = val(I_, st, args[0])
    i = args[1]
    ety = elem_ty(I_, argty(I_, st, t, 0))
    if i.op == "agg":
        r = range_of(i, v)
        if r is None:
            return NotImplemented
        a, b = r
        out = []
        cond = AND(le(a, b), le(b, slen(v)))
        for s, truth in I_.split(st, cond):
            out.append((s, some(sdrop(stake(v, b), a)) if truth else NONE))
        return out
    out = []
    for s, truth in I_.split(st, lt(i, slen(v))):
        out.append((s, some(nth(v, i, ty=ety)) if truth else NONE))
    return out


@rx(r"core::slice::<impl \[T\]>::(split_first|split_last)$")
def split_first(I_, st, args, c, t):
    v = val(I_, st, args[0])
    ety = elem_ty(I_, argty(I_, st, t, 0))
    out = []
    for s, truth in I_.split(st, lt(ZERO, slen(v))):
        if truth:
            if c["name"] == "split_first":
                r = tup(nth(v, ZERO, ty=ety), sdrop(v, I(1)))
            else:
                r = tup(slast(v, ty=ety), sinit(v))
            out.append((s, some(r)))
        else:
            out.append((s, NONE))
    return out


@rx(r"core::slice::<impl \[T\]>::split_at$")
def split_at(I_, st, args, c, t):
    v, i = val(I_, st, args[0]), args[1]
    out = []
    for s, truth in I_.split(st, le(i, slen(v))):
        if truth:
            out.append((s, tup(stake(v, i), sdrop(v, i))))
        else:
            I_.panic(s, "split_at out of bounds")
    return out


def range_of(r, v, n=None):
    """(from, to) of a range value over v"""
    n = slen(v) if n is None else n
    p, f = r.args[0], r.args[2]
    if p == "std::ops::RangeFrom":
        return f[0], n
    if p == "std::ops::Range":
        return f[0], f[1]
    if p == "std::ops::RangeTo":
        return ZERO, f[0]
    if p == "std::ops::RangeFull":
        return ZERO, n
    if p == "std::ops::RangeToInclusive":
        return ZERO, add(f[0], I(1))
    if p == "std::ops::RangeInclusive":
        return f[0], add(f[1], I(1))
    return None


@rx(
    r"core::slice::index::<impl std::ops::Index<I> for \[T\]>::index$",
    r"<std::vec::Vec<T, A> as std::ops::Index<I>>::index$",
    r"core::array::<impl std::ops::Index<I> for \[T; N\]>::index$",
)
def seq_index(I_, st, args, c, t):
    v, i = val(I_, st, args[0]), val(I_, st, args[1])
    ety = elem_ty(I_, argty(I_, st, t, 0))
    out = []
    if i.op == "agg":
        r = range_of(i, v)
        if r is None:
            return NotImplemented
        a, b = r
        cond = AND(le(a, b), le(b, slen(v)))
        for s, truth in I_.split(st, cond):
            if truth:
                w = sdrop(v, a) if b is slen(v) else sdrop(stake(v, b), a)
                out.append((s, w))
            else:
                I_.panic(s, "slice index")
        return out
    for s, truth in I_.split(st, lt(i, slen(v))):
        if truth:
            out.append((s, nth(v, i, ty=ety)))
        else:
            I_.panic(s, "index out of bounds")
    return out


@rx(
    r"core::slice::index::<impl std::ops::IndexMut<I> for \[T\]>::index_mut$",
    r"<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut$",
)
def seq_index_mut(I_, st, args, c, t):
    m = args[0]
    v, i = I_.read_mref(st, m), args[1]
    ety = elem_ty(I_, argty(I_, st, t, 0))
    if i.op == "agg":
        return NotImplemented
    out = []
    for s, truth in I_.split(st, lt(i, slen(v))):
        if truth:
            out.append((s, mk("mref", m.args[0], m.args[1] + (("i", i, ety),))))
        else:
            I_.panic(s, "index out of bounds")
    return out


@rx(
    r"core::str::traits::<impl std::ops::Index<I> for str>::index$",
    r"<std::string::String as std::ops::Index<I>>::index$",
    r"<std::string::String as std::ops::Index<.*>>::index$",
)
def str_index(I_, st, args, c, t):
    """str[a..b]: byte offsets, which may split a character"""
    v, r = val(I_, st, args[0]), args[1]
    if r.op != "agg":
        return NotImplemented
    r = range_of(r, v, blen(v))
    if r is None:
        return NotImplemented
    a, b = r
    n = blen(v)
    c1 = const_str(v)
    if c1 is not None and is_int(a) and is_int(b):
        bs = c1.encode()
        x, y = a.args[0], b.args[0]
        try:
            if x > y or y > len(bs):
                raise ValueError
            return S(bs[x:y].decode())
        except (ValueError, UnicodeDecodeError):
            I_.panic(st, "str slice")
            return []
    # a prefix of known characters can be dropped exactly
    cond = AND(le(a, b), le(b, n))
    cond = AND(cond, AND(bound_at(v, a), bound_at(v, b)))
    out = []
    for s, truth in I_.split(st, cond):
        if truth:
            out.append((s, bslice(v, a, b)))
        else:
            I_.panic(s, "str slice")
    return out


def boundary(v, a):
    """is byte offset a of v surely between two characters?"""
    if a is ZERO or a is blen(v):
        return True
    # len(v) - len(suffix of v)
    d = sub(blen(v), a)
    if d.op == "blen" and is_suffix(d.args[0], v):
        return True
    if a.op == "blen" and a.args[0].op == "take" and a.args[0].args[0] is v:
        return True
    if a.op == "bound" and a.args[0] is v:
        return True
    if a.op == "lin" and any(x.op == "bound" and x.args[0] is v and sub(a, x) is blen(x.args[2]) for x, _ in lin_parts(a)[1]):
        return True
    # after known one byte characters
    ps = parts_of(v)
    if is_int(a) and ps and ps[0][0] == "L":
        bs = ps[0][1].encode()
        n = a.args[0]
        if n <= len(bs):
            try:
                bs[:n].decode()
                return True
            except UnicodeDecodeError:
                return False
    return False


def bound_at(v, a):
    """the condition that byte offset a of v is between two characters"""
    return TRUE if boundary(v, a) else app("boundary", v, a, ty="bool")


SUFFIX = []


def is_suffix(x, v):
    b, _ = base_off(x)
    b2, _ = base_off(v)
    if b is b2:
        return True
    return any(f(x, v) for f in SUFFIX)


def bslice(v, a, b):
    n = blen(v)
    if a is ZERO and b is n:
        return v
    if a is b:
        return EMPTY
    c = const_str(v)
    if c is not None and is_int(a) and is_int(b):
        try:
            return S(c.encode()[a.args[0] : b.args[0]].decode())
        except UnicodeDecodeError:
            pass
    if v.op == "bslice":
        return bslice(v.args[0], add(v.args[1], a), add(v.args[1], b))
    d = sub(n, a)
    if b is n and d.op == "blen" and is_suffix(d.args[0], v):
        return d.args[0]
    return mk("bslice", v, a, b)


@rx(r"core::str::<impl str>::(get|get_unchecked)$")
def str_get(I_, st, args, c, t):
    v, r = val(I_, st, args[0]), args[1]
    if r.op != "agg":
        return NotImplemented
    r = range_of(r, v, blen(v))
    if r is None:
        return NotImplemented
    a, b = r
    cond = AND(le(a, b), le(b, blen(v)))
    cond = AND(cond, AND(bound_at(v, a), bound_at(v, b)))
    return [(s, some(bslice(v, a, b)) if truth else NONE) for s, truth in I_.split(st, cond)]


@rx(r"(core::)?(std::)?char::(from_u32|methods::<impl char>::from_u32|convert::from_u32)$")
def char_of(I_, st, args, c, t):
    n = args[0]
    ok = AND(le(n, I(0x10FFFF)), OR(le(n, I(0xD7FF)), le(I(0xE000), n)))
    return [(s, some(n) if truth else NONE) for s, truth in I_.split(st, ok)]


@rx(r"core::str::<impl str>::is_char_boundary$")
def str_is_boundary(I_, st, args, c, t):
    v, a = val(I_, st, args[0]), args[1]
    return AND(le(a, blen(v)), bound_at(v, a))


def cut_at(I_, st, v, a, msg, strict=False):
    """(state, before, after) of v cut at byte offset a"""
    n = blen(v)
    for s, truth in I_.split(st, AND(lt(a, n) if strict else le(a, n), bound_at(v, a))):
        if truth:
            yield s, bslice(v, ZERO, a), bslice(v, a, n)
        else:
            I_.panic(s, msg)


@rx(r"core::str::<impl str>::split_at$")
def str_split_at(I_, st, args, c, t):
    v = val(I_, st, args[0])
    return [(s, agg("tuple", 0, [x, y])) for s, x, y in cut_at(I_, st, v, args[1], "str split_at")]


@rx(r"std::string::String::split_off$")
def str_split_off(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    out = []
    for s, x, y in cut_at(I_, st, v, args[1], "str split_off"):
        I_.write_mref(s, args[0], x)
        out.append((s, y))
    return out


@rx(r"std::string::String::truncate$")
def str_truncate(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    out = []
    for s, truth in I_.split(st, le(args[1], blen(v))):
        if not truth:
            out.append((s, UNIT))
            continue
        for s2, x, y in cut_at(I_, s, v, args[1], "str truncate"):
            I_.write_mref(s2, args[0], x)
            out.append((s2, UNIT))
    return out


@rx(r"std::string::String::(insert|insert_str)$")
def str_insert_at(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    what = val(I_, st, args[2])
    out = []
    for s, x, y in cut_at(I_, st, v, args[1], "str insert"):
        z = concat(x, what) if c["name"] == "insert_str" else push_elem(x, what, char=True)
        I_.write_mref(s, args[0], concat(z, y))
        out.append((s, UNIT))
    return out


@rx(r"std::string::String::remove$")
def str_remove(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    out = []
    for s, x, y in cut_at(I_, st, v, args[1], "str remove", strict=True):
        f = s.facts.assume(le(I(1), slen(y)), True)
        if f is None:
            continue
        s.facts = f
        I_.write_mref(s, args[0], concat(x, sdrop(y, I(1))))
        out.append((s, nth(y, ZERO, ty="char")))
    return out


# -------------------------------------------------------------- iterators
@rx(
    r"<std::slice::Iter<'a, T> as std::iter::Iterator>::next$",
    r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::next$",
    r"<std::str::Chars<'a> as std::iter::Iterator>::next$",
    r"<std::collections::hash_map::(Iter<'a, K, V>|IntoIter<K, V>|IntoIter<K, V, A>) as std::iter::Iterator>::next$",
    r"<std::str::(RSplit|Split|Lines|SplitWhitespace|SplitN|RSplitN|SplitTerminator)<.*> as std::iter::Iterator>::next$",
    r"<std::array::IntoIter<T, N> as std::iter::Iterator>::next$",
    r"<std::collections::hash_map::(Keys|Values|IntoKeys|IntoValues)<.*> as std::iter::Iterator>::next$",
    r"<std::vec::Drain<.*> as std::iter::Iterator>::next$",
    r"<std::str::Bytes<'_> as std::iter::Iterator>::next$",
)
def it_next(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    if v is None or v.op == "undef":
        return NotImplemented
    ety = item_tag(I_, t)
    out = []
    for s, truth in I_.split(st, lt(ZERO, slen(v))):
        if truth:
            I_.write_mref(s, args[0], sdrop(v, I(1)))
            out.append((s, some(nth(v, ZERO, ty=ety))))
        else:
            out.append((s, NONE))
    return out


def item_tag(I_, t):
    dt = I_.p.types[t[6]]
    if dt["k"] == "adt" and dt["args"]:
        return I_.p.tag(dt["args"][0])
    return None


@rx(
    r"<std::(slice::Iter<'a, T>|vec::IntoIter<T, A>|str::Chars<'a>|array::IntoIter<T, N>) as std::iter::DoubleEndedIterator>::next_back$",
    r"<std::str::(RSplit|Split|Lines)<.*> as std::iter::DoubleEndedIterator>::next_back$",
)
def it_next_back(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    ety = item_tag(I_, t)
    out = []
    for s, truth in I_.split(st, lt(ZERO, slen(v))):
        if truth:
            I_.write_mref(s, args[0], sinit(v) if v.op == "seq" else stake(v, sub(slen(v), I(1))) if v.op != "take" else stake(v.args[0], sub(v.args[1], I(1))))
            out.append((s, some(slast(v, ty=ety))))
        else:
            out.append((s, NONE))
    return out


@rx(r"<std::(slice::Iter<'a, T>|vec::IntoIter<T, A>|str::Chars<'a>) as std::iter::Iterator>::(nth|advance_by)$")
def it_nth(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    if c["name"] != "nth":
        out = []
        for s, truth in I_.split(st, le(args[1], slen(v))):
            I_.write_mref(s, args[0], sdrop(v, args[1]) if truth else EMPTY)
            out.append((s, agg("std::result::Result", 0, [UNIT]) if truth else agg("std::result::Result", 1, [sub(args[1], slen(v))])))
        return out
    ety = item_tag(I_, t)
    out = []
    for s, truth in I_.split(st, lt(args[1], slen(v))):
        if truth:
            I_.write_mref(s, args[0], sdrop(v, add(args[1], I(1))))
            out.append((s, some(nth(v, args[1], ty=ety))))
        else:
            I_.write_mref(s, args[0], EMPTY)
            out.append((s, NONE))
    return out


@rx(r"std::num::NonZero::<T>::new$")
def nonzero_new(I_, st, args, c, t):
    v = val(I_, st, args[0])
    return [(s, NONE if truth else some(v)) for s, truth in I_.split(st, eqi(v, ZERO))]


@rx(r"std::num::NonZero::<T>::(get|new_unchecked)$")
def nonzero_get(I_, st, args, c, t):
    return val(I_, st, args[0])


@rx(r"<std::(slice::Iter<'a, T>|vec::IntoIter<T, A>|str::Chars<'a>) as std::iter::Iterator>::(last|count)$")
def it_last(I_, st, args, c, t):
    v = val(I_, st, args[0])
    if c["name"] == "count":
        return slen(v)
    ety = item_tag(I_, t)
    return [(s, some(slast(v, ty=ety)) if tr else NONE) for s, tr in I_.split(st, lt(ZERO, slen(v)))]


@rx(r"<std::ops::Range<A> as std::iter::Iterator>::next$", r"iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$")
def range_next(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    if v.op != "agg":
        return NotImplemented
    a, b = v.args[2]
    out = []
    for s, truth in I_.split(st, lt(a, b)):
        if truth:
            I_.write_mref(s, args[0], agg(v.args[0], 0, [add(a, I(1)), b]))
            out.append((s, some(a)))
        else:
            out.append((s, NONE))
    return out


@rx(r"<std::ops::RangeFrom<A> as std::iter::Iterator>::next$", r"iter::range::<impl std::iter::Iterator for std::ops::RangeFrom<A>>::next$")
def range_from_next(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    if v.op != "agg":
        return NotImplemented
    a = v.args[2][0]
    I_.write_mref(st, args[0], agg(v.args[0], 0, [add(a, I(1))]))
    return some(a)


@rx(r"<std::iter::(Cloned|Copied)<I> as std::iter::(Iterator::next|Iterator>::next)$")
def cloned_next(I_, st, args, c, t):
    v = I_.read_mref(st, args[0]) if args[0].op == "mref" else args[0]
    if v.op == "agg" and not v.args[0].startswith("#"):
        # of an adaptor, not of a list
        return NotImplemented
    return it_next(I_, st, args, c, t)


@exact("std::iter::Iterator::cloned", "std::iter::Iterator::copied", "std::iter::Iterator::fuse")
def it_cloned(I_, st, args, c, t):
    v = args[0]
    if v.op == "agg":
        return NotImplemented
    return v


@rx(r"core::slice::<impl \[T\]>::iter_mut$", r"<&'a mut (std::vec::Vec<T, A>|\[T\]) as std::iter::IntoIterator>::into_iter$", r"IntoIterator for &'a mut \[T\]>::into_iter$")
def iter_mut(I_, st, args, c, t):
    return agg("#IterMut", 0, [args[0], ZERO])


@rx(r"<std::slice::IterMut<'a, T> as std::iter::Iterator>::next$")
def iter_mut_next(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    if v.op != "agg" or v.args[0] != "#IterMut":
        return NotImplemented
    m, i = v.args[2]
    s0 = I_.read_mref(st, m)
    out = []
    for s, truth in I_.split(st, lt(i, slen(s0))):
        if truth:
            I_.write_mref(s, args[0], agg("#IterMut", 0, [m, add(i, I(1))]))
            out.append((s, some(mk("mref", m.args[0], m.args[1] + (("i", i, item_tag(I_, t)),)))))
        else:
            out.append((s, NONE))
    return out


@rx(r"std::vec::Vec::<T, A>::drain$", r"std::string::String::drain$")
def drain(I_, st, args, c, t):
    v = I_.read_mref(st, args[0])
    r = range_of(args[1], v) if args[1].op == "agg" else None
    if r is None or "String" in (c.get("rpath") or ""):
        if r is None or args[1].args[0] != "std::ops::RangeFull":
            return NotImplemented
    a, b = r
    out = []
    for s, truth in I_.split(st, AND(le(a, b), le(b, slen(v)))):
        if truth:
            I_.write_mref(s, args[0], concat(stake(v, a), sdrop(v, b)))
            out.append((s, sdrop(v, a) if b is slen(v) else sdrop(stake(v, b), a)))
        else:
            I_.panic(s, "drain out of bounds")
    return out


@rx(
    r"<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$",
    r"<std::string::String as std::iter::FromIterator<(char|&'a char|&char)>>::from_iter$",
    r"<std::boxed::Box<\[.*\]> as std::iter::FromIterator<.*>>::from_iter$",
)
def from_iter(I_, st, args, c, t):
    s = itseq(I_, st, args[0])
    if s is None:
        return NotImplemented
    return s


@rx(r"<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$", r"<std::string::String as std::iter::Extend<(char|&'a char)>>::extend$")
def vec_extend(I_, st, args, c, t):
    s = itseq(I_, st, args[1])
    if s is None:
        return NotImplemented
    v = I_.read_mref(st, args[0])
    I_.write_mref(st, args[0], concat(v, s))
    return UNIT


@rx(r"(slice::<impl \[V\]>|slice::<impl \[T\]>)::(concat|join)$", r"slice::<impl \[\w+\]>::(concat|join)$")
def slice_join(I_, st, args, c, t):
    v = val(I_, st, args[0])
    sep = val(I_, st, args[1]) if len(args) > 1 else EMPTY
    return join(v, sep, ty=I_.p.tag(t[6]))


# ------------------------------------------------------------- comparison
@rx(
    r"core::str::traits::<impl std::cmp::PartialEq for str>::eq$",
    r"<std::string::String as std::cmp::PartialEq(<.*>)?>::eq$",
    r"<(&'a )?str as std::cmp::PartialEq<.*>>::eq$",
    r"<&'a str as std::cmp::PartialEq<.*>>::eq$",
    r"impl std::cmp::PartialEq<.*> for &?('a )?(str|std::string::String)>::eq$",
    r"<std::vec::Vec<.*> as std::cmp::PartialEq<.*>>::eq$",
    r"impl std::cmp::PartialEq<.*> for \[.*\]>::eq$",
    r"impl std::cmp::PartialEq<.*> for std::vec::Vec<.*>>::eq$",
)
def str_eq(I_, st, args, c, t):
    return eqs(val(I_, st, args[0]), val(I_, st, args[1]))


@rx(
    r"core::str::traits::<impl std::cmp::PartialEq for str>::ne$",
    r"<std::string::String as std::cmp::PartialEq(<.*>)?>::ne$",
    r"<(&'a )?str as std::cmp::PartialEq<.*>>::ne$",
    r"impl std::cmp::PartialEq<.*> for &?('a )?(str|std::string::String)>::ne$",
)
def str_ne(I_, st, args, c, t):
    return NOT(eqs(val(I_, st, args[0]), val(I_, st, args[1])))


@rx(r"intrinsics::discriminant_value$", r"std::mem::discriminant$")
def discriminant(I_, st, args, c, t):
    v = val(I_, st, args[0])
    d = discr(v)
    if d.op == "discr":
        ty = base_type(I_, c["targs"][0])
        if ty["k"] == "adt" and ty["variants"]:
            ds = [x["discr"] for x in ty["variants"]]
            f = st.facts.assume(le(I(min(ds)), d))
            f = f and f.assume(le(d, I(max(ds))))
            if f:
                st.facts = f
    if c["name"] == "discriminant":
        return agg("std::mem::Discriminant", 0, [d])
    return d


@rx(r"<std::mem::Discriminant<T> as std::cmp::PartialEq>::eq$")
def discr_eq(I_, st, args, c, t):
    a, b = val(I_, st, args[0]), val(I_, st, args[1])
    if a.op == b.op == "agg":
        return eqi(a.args[2][0], b.args[2][0])
    return NotImplemented


@rx(r"std::intrinsics::(likely|unlikely|black_box)$", r"std::hint::black_box$")
def likely(I_, st, args, c, t):
    return args[0]


@rx(r"intrinsics::cold_path$", r"std::ptr::drop_in_place$", r"std::mem::(drop|forget)$", r"std::intrinsics::assume$", r"assert_unsafe_precondition")
def nothing(I_, st, args, c, t):
    return UNIT


@rx(r"std::mem::replace$", r"core::mem::replace$")
def mem_replace(I_, st, args, c, t):
    old = I_.read_mref(st, args[0])
    I_.write_mref(st, args[0], args[1])
    return old


@rx(r"std::mem::swap$")
def mem_swap(I_, st, args, c, t):
    a, b = I_.read_mref(st, args[0]), I_.read_mref(st, args[1])
    I_.write_mref(st, args[0], b)
    I_.write_mref(st, args[1], a)
    return UNIT


_idclone = {}


def clone_is_identity(I_, ti):
    """does cloning a value of the type give an equal value?"""
    p = I_.p
    ti = p.strip(ti)
    r = _idclone.get((id(p), ti))
    if r is not None:
        return r
    t = p.types[ti]
    _idclone[(id(p), ti)] = True
    ok = True
    if t["k"] == "adt":
        if t["krate"] == p.crate or t["krate"] == "dynparser":
            ks = [k for k, f in p.raw.items() if f["name"].endswith("::clone") or f["path"].endswith("::clone")]
            for k in ks:
                f = p.raw[k]
                if f["nargs"] == 1 and p.strip(f["locals"][1]) == ti and p.strip(f["locals"][0]) == ti:
                    import interp

                    g = interp.Interp(p).analyse(k)
                    ok = not g.stuck and all(e.kind != "ret" or e.value is g.params[0] for e in g.edges())
                    ok = ok and all(e.kind in ("ret", "panic") for e in g.edges())
                    break
        else:
            ok = all(clone_is_identity(I_, a) for a in t["args"] if isinstance(a, int))
    elif t["k"] == "tuple":
        ok = all(clone_is_identity(I_, a) for a in t["es"])
    elif t["k"] in ("slice", "array"):
        ok = clone_is_identity(I_, t["e"])
    _idclone[(id(p), ti)] = ok
    return ok


@rx(r"<std::option::Option<T> as std::clone::Clone>::clone$", r"<std::result::Result<T, E> as std::clone::Clone>::clone$")
def opt_clone(I_, st, args, c, t):
    if clone_is_identity(I_, t[6]):
        return val(I_, st, args[0])
    return NotImplemented


@trait("std::clone::Clone", "clone")
def any_clone(I_, st, args, c, t):
    if clone_is_identity(I_, t[6]):
        return val(I_, st, args[0])
    return NotImplemented


@rx(r"<std::option::Option<T> as std::default::Default>::default$")
def opt_default(I_, st, args, c, t):
    return NONE


@rx(r"impl std::clone::Clone for (bool|char|usize|u8|u32|u64|isize|i32|i64|&T)>::clone$", r"impls::<impl std::clone::Clone for .*>::clone$")
def prim_clone(I_, st, args, c, t):
    return val(I_, st, args[0])


@rx(r"impl std::default::Default for (usize|u8|u32|u64|isize|i32|i64)>::default$")
def int_default(I_, st, args, c, t):
    return ZERO


@rx(r"impl std::default::Default for bool>::default$")
def bool_default(I_, st, args, c, t):
    return FALSE


@rx(r"impls::<impl std::cmp::(PartialEq|PartialOrd) for (bool|char|usize|u8|u32|u64|isize|i32|i64)>::(eq|ne|lt|le|gt|ge)$")
def prim_cmp(I_, st, args, c, t):
    a, b = val(I_, st, args[0]), val(I_, st, args[1])
    n = c["name"]
    if base_type(I_, argty(I_, st, t, 0))["k"] == "bool" and n in ("eq", "ne"):
        e = (a if b.args[0] else NOT(a)) if b.op == "bool" else (b if a.args[0] else NOT(b)) if a.op == "bool" else eqs(a, b)
        return e if n == "eq" else NOT(e)
    return {
        "eq": lambda: eqi(a, b),
        "ne": lambda: NOT(eqi(a, b)),
        "lt": lambda: lt(a, b),
        "le": lambda: le(a, b),
        "gt": lambda: lt(b, a),
        "ge": lambda: le(b, a),
    }[n]()


@rx(r"impls::<impl std::cmp::(Ord|PartialOrd) for (char|usize|u8|u32|u64|isize|i32|i64)>::(cmp|partial_cmp)$")
def prim_ord(I_, st, args, c, t):
    a, b = val(I_, st, args[0]), val(I_, st, args[1])
    out = []
    for cond, k in ((lt(a, b), 0), (eqi(a, b), 1), (lt(b, a), 2)):
        for s in I_.assume(st.copy(), cond, True):
            o = agg("std::cmp::Ordering", k, [])
            out.append((s, o if c["name"] == "cmp" else some(o)))
    return out


UINT = r"(char|usize|u8|u16|u32|u64|isize|i8|i16|i32|i64)"


@rx(r"impls::<impl std::cmp::Ord for " + UINT + r">::(min|max)$")
def prim_minmax(I_, st, args, c, t):
    a, b = val(I_, st, args[0]), val(I_, st, args[1])
    lo, hi = (a, b) if c["name"] == "min" else (b, a)
    return [(s, lo if tr else hi) for s, tr in I_.split(st, le(a, b))]


@rx(r"core::num::<impl (usize|u32|u64)>::(saturating_sub|checked_sub|abs_diff)$")
def num_sub(I_, st, args, c, t):
    a, b = val(I_, st, args[0]), val(I_, st, args[1])
    out = []
    for s, tr in I_.split(st, le(b, a)):
        n = c["name"]
        d = sub(a, b)
        if n == "saturating_sub":
            out.append((s, d if tr else ZERO))
        elif n == "abs_diff":
            out.append((s, d if tr else sub(b, a)))
        else:
            out.append((s, some(d) if tr else NONE))
    return out


# ---------------------------------------------------------------- strings
@rx(r"core::str::<impl str>::(find|rfind|contains|starts_with|ends_with)$")
def str_find(I_, st, args, c, t):
    v, p = val(I_, st, args[0]), val(I_, st, args[1])
    n = c["name"]
    pt = base_type(I_, argty(I_, st, t, 1))
    if pt["k"] == "char":
        p = push_elem(EMPTY, p, char=True)
    elif pt["k"] not in ("str",) and not is_strlike(I_, argty(I_, st, t, 1)):
        return NotImplemented
    cv, cp = const_str(v), const_str(p)
    if n in ("find", "rfind", "contains"):
        cond = B(cp in cv) if cv is not None and cp is not None else app("contains", v, p, ty="bool")
        if n == "contains":
            return cond
        pos = mk("bound", v, n, p, ty="uint")
        out = []
        for s, tr in I_.split(st, cond):
            if tr:
                f = s.facts.assume(le(add(pos, blen(p)), blen(v)), True)
                if f is None:
                    continue
                s.facts = f
            out.append((s, some(pos) if tr else NONE))
        return out
    if cv is not None and cp is not None:
        return B(cv.startswith(cp) if n == "starts_with" else cv.endswith(cp))
    k = slen(p).args[0] if is_int(slen(p)) else 9
    if k <= 4:
        # it is long enough and has these characters
        r = le(I(k), slen(v))
        for i in range(k):
            at = I(i) if n == "starts_with" else sub(slen(v), I(k - i))
            r = AND(r, eqi(nth(v, at, ty="char"), nth(p, I(i), ty="char")))
        return r
    r = at_end(v, p, n == "ends_with")
    return B(r) if r is not None else app(n, v, p, ty="bool")


def at_end(v, p, end):
    """is p a suffix (or prefix) of v, as far as their parts tell"""
    a = [x for k, x in parts_of(v) for x in ((k, c) for c in (x if k == "L" else [x]))]
    b = [x for k, x in parts_of(p) for x in ((k, c) for c in (x if k == "L" else [x]))]
    if end:
        a.reverse()
        b.reverse()
    while a and b:
        if a[0][0] == "L" and b[0][0] == "L":
            if a[0][1] != b[0][1]:
                return False
        elif a[0][0] != b[0][0] or a[0][1] is not b[0][1]:
            return None
        a, b = a[1:], b[1:]
    return True if not b else (False if any(k != "S" for k, _ in b) else None)


@rx(r"core::str::<impl str>::r?split_once$")
def split_once(I_, st, args, c, t):
    v, p = val(I_, st, args[0]), val(I_, st, args[1])
    pt = base_type(I_, argty(I_, st, t, 1))
    if pt["k"] == "char":
        p = push_elem(EMPTY, p, char=True)
    elif not is_strlike(I_, argty(I_, st, t, 1)):
        return NotImplemented
    cv, cp = const_str(v), const_str(p)
    if cv is not None and cp:
        a, m, b = cv.partition(cp) if c["name"] == "split_once" else cv.rpartition(cp)
        return some(agg("tuple", 0, [S(a), S(b)])) if m else NONE
    at = mk("bound", v, "find" if c["name"] == "split_once" else "rfind", p, ty="uint")
    out = []
    for s, tr in I_.split(st, app("contains", v, p, ty="bool")):
        if tr:
            f = s.facts.assume(le(add(at, blen(p)), blen(v)), True)
            if f is None:
                continue
            s.facts = f
        out.append((s, some(agg("tuple", 0, [bslice(v, ZERO, at), bslice(v, add(at, blen(p)), blen(v))])) if tr else NONE))
    return out


@rx(r"core::str::<impl str>::strip_prefix$")
def strip_prefix(I_, st, args, c, t):
    v, p = val(I_, st, args[0]), val(I_, st, args[1])
    pt = base_type(I_, argty(I_, st, t, 1))
    if pt["k"] == "char":
        p = push_elem(EMPTY, p, char=True)
    elif not is_strlike(I_, argty(I_, st, t, 1)):
        return NotImplemented
    return [(s, some(sdrop(v, slen(p))) if tr else NONE) for s, tr in I_.split(st, app("starts_with", v, p, ty="bool"))]


WHITE = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" + "".join(map(chr, range(0x2000, 0x200B)))


@rx(r"core::str::<impl str>::trim(_start|_end|_left|_right)?(_matches)?$")
def str_trim(I_, st, args, c, t):
    """what is left is a part of the text"""
    v = val(I_, st, args[0])
    n = c["name"]
    p = S(" ")
    if n.endswith("_matches"):
        p = val(I_, st, args[1])
        if base_type(I_, argty(I_, st, t, 1))["k"] == "char":
            p = push_elem(EMPTY, p, char=True)
        elif not is_strlike(I_, argty(I_, st, t, 1)):
            return NotImplemented
    how = "trimmed" + ("_matches" if n.endswith("_matches") else "")
    k = const_str(v)
    q = const_str(p)
    if k is not None and (how == "trimmed" or q is not None and len(q) == 1):
        q = WHITE if how == "trimmed" else q
        return S(k.lstrip(q) if n.startswith(("trim_start", "trim_left")) else k.rstrip(q) if n.startswith(("trim_end", "trim_right")) else k.strip(q))
    f = st.facts
    if not n.startswith(("trim_end", "trim_right")):
        k = app(how, v, p, B(True), ty="uint")
        f = f and f.assume(le(k, slen(v)), True)
        v = sdrop(v, k)
    if not n.startswith(("trim_start", "trim_left")):
        k = app(how, v, p, B(False), ty="uint")
        f = f and f.assume(le(k, slen(v)), True)
        v = stake(v, sub(slen(v), k))
    if f is not None:
        st.facts = f
    return v


@rx(r"char::methods::<impl char>::len_utf8$")
def char_len(I_, st, args, c, t):
    x = args[0]
    return I(len(chr(x.args[0]).encode())) if is_int(x) else mk("chlen", x)


@rx(r"core::str::<impl str>::as_bytes$", r"std::string::String::(as_bytes|into_bytes)$")
def str_bytes(I_, st, args, c, t):
    v = val(I_, st, args[0])
    k = const_str(v)
    if k is not None:
        return seq([("E", I(b)) for b in k.encode()])
    return app("bytes", v)


@rx(r"core::str::<impl str>::(rsplit|split|lines|split_whitespace|rsplitn|splitn|split_terminator)$")
def str_split(I_, st, args, c, t):
    ins = []
    for i, a in enumerate(args):
        a = val(I_, st, a)
        if i == len(args) - 1 and i > 0 and base_type(I_, argty(I_, st, t, i))["k"] == "char":
            a = push_elem(EMPTY, a, char=True)
        ins.append(a)
    r = app("str." + c["name"], *ins)
    if c["name"] in ("split", "rsplit") or c["name"].endswith("splitn") and is_int(ins[1]) and ins[1].args[0] > 0:
        f = st.facts.assume(lt(ZERO, slen(r)))
        if f:
            st.facts = f
    return r


@rx(r"core::str::<impl str>::repeat$")
def str_repeat(I_, st, args, c, t):
    v = val(I_, st, args[0])
    n = args[1]
    if is_int(n) and n.args[0] < 64:
        return concat(*([v] * n.args[0]))
    return NotImplemented


# -------------------------------------------------------------------- fmt
@rx(r"fmt::rt::Argument::<'_>::new_(\w+)$")
def fmt_arg(I_, st, args, c, t):
    v = val(I_, st, args[0])
    n = c["name"]
    ti = c["targs"][-1] if c["targs"] else argty(I_, st, t, 0)
    if n == "new_display":
        return agg("#fmtarg", 0, [display(I_, v, ti)])
    if n == "new_debug":
        b = base_type(I_, ti)
        if b["k"] == "int":
            return agg("#fmtarg", 0, [display(I_, v, ti)])
        ty = I_.p.types[I_.p.strip(ti)]["s"]
        return agg("#fmtarg", 0, [app("debug", v, ty)] + ([TRUE] if ty in ("str", "std::string::String", "char") else []))
    return agg("#fmtarg", 0, [app(n, v)])


@rx(r"std::fmt::Arguments::<'a>::new$", r"fmt::rt::<impl std::fmt::Arguments<'a>>::new$")
def fmt_new(I_, st, args, c, t):
    tpl = val(I_, st, args[0])
    av = val(I_, st, args[1])
    ps = parts_of(tpl)
    bs = bytearray()
    for k, x in ps:
        if k != "E" or x.op != "int":
            return NotImplemented
        bs.append(x.args[0])
    aps = parts_of(av)
    if any(k != "E" for k, _ in aps):
        return NotImplemented
    vals = [x for _, x in aps]
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("L", bs[i : i + n].decode()))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("L", bs[i : i + ln].decode()))
            i += ln
        else:
            opts = []
            if n & 1:
                opts.append(int.from_bytes(bs[i : i + 4], "little"))
                i += 4
            if n & 2:
                opts.append(("w", int.from_bytes(bs[i : i + 2], "little")))
                i += 2
            if n & 4:
                opts.append(("p", int.from_bytes(bs[i : i + 2], "little")))
                i += 2
            ix = nxt
            if n & 8:
                ix = int.from_bytes(bs[i : i + 2], "little")
                i += 2
            nxt = ix + 1
            v = vals[ix]
            # Debug of a text heeds neither width nor precision
            plain = v.op == "agg" and len(v.args[2]) > 1
            v = v.args[2][0] if v.op == "agg" and v.args[0] == "#fmtarg" else app("fmt", v)
            if opts and not plain:
                v = app("fmtopt", v, repr(opts))
            out.append(("S", v))
    return seq(out)


@rx(r"std::fmt::Arguments::<'a>::(from_str|new_const|from_str_nonconst)$", r"fmt::rt::<impl std::fmt::Arguments<'a>>::(from_str|new_const)$")
def fmt_const(I_, st, args, c, t):
    v = val(I_, st, args[0])
    ps = parts_of(v)
    if all(k == "E" for k, _ in ps):
        return concat(*[x for _, x in ps])
    return v


@rx(r"std::fmt::Formatter::<'a>::(write_fmt|write_str|pad)$", r"as std::fmt::Write>::(write_fmt|write_str|write_char)$", r"^std::fmt::Write::write_fmt$")
def fmt_write(I_, st, args, c, t):
    if args[0].op != "mref":
        return NotImplemented
    v = I_.read_mref(st, args[0])
    x = val(I_, st, args[1])
    w = push_elem(EMPTY, x, char=True) if c["name"] == "write_char" else x
    I_.write_mref(st, args[0], concat(v, w))
    b = base_type(I_, argty(I_, st, t, 0))
    if b["k"] == "adt" and b["path"] == "std::string::String":
        return ok(UNIT)
    return app("fmt:res", w, ty=I_.p.tag(t[6]))


@trait("std::fmt::Display", "fmt")
def disp_fmt(I_, st, args, c, t):
    ti = argty(I_, st, t, 0)
    b = base_type(I_, ti)
    if b["k"] == "adt" and b["krate"] == I_.p.crate and c.get("inst") in I_.p.raw and not any(f.fn.key == c["inst"] for f in st.frames):
        return NotImplemented
    v = I_.read_mref(st, args[1]) if args[1].op == "mref" else None
    if v is None:
        return NotImplemented
    w = display(I_, val(I_, st, args[0]), ti)
    I_.write_mref(st, args[1], concat(v, w))
    return app("fmt:res", w, ty=I_.p.tag(t[6]))


# --------------------------------------------------------------- hash maps
MAP = r"std::collections::(HashMap|BTreeMap)::<.*>::"


@rx(MAP + r"(new|with_capacity)$", r"<std::collections::(HashMap|BTreeMap)<.*> as std::default::Default>::default$")
def map_new(I_, st, args, c, t):
    return app("map:new", ty=I_.p.tag(t[6]))


@rx(MAP + r"get$")
def map_get(I_, st, args, c, t):
    m, k = val(I_, st, args[0]), val(I_, st, args[1])
    return mget(m, k, I_.p.tag(t[6]))


def mget(m, k, ty):
    # names known on both sides
    key = lit_text(k)
    x = m
    while key is not None and x.op == "app":
        n = x.args[0]
        if n == "map:new":
            return NONE
        if n not in ("map:insert", "map:remove"):
            break
        other = lit_text(x.args[2])
        if other is None:
            break
        if other == key:
            return some(x.args[3]) if n == "map:insert" else NONE
        x = x.args[1]
    return app("map:get", m, k, ty=ty)


def lit_text(k):
    """the text a term is, when it is known"""
    if k.op == "seq" and all(x[0] == "L" for x in k.args[0]):
        return "".join(x[1] for x in k.args[0])
    return None


@rx(MAP + r"contains_key$")
def map_has(I_, st, args, c, t):
    m, k = val(I_, st, args[0]), val(I_, st, args[1])
    d = discr(mget(m, k, None))
    f = st.facts.assume(le(ZERO, d))
    f = f and f.assume(le(d, I(1)))
    st.facts = f or st.facts
    return eqi(d, I(1))


@rx(r"<std::collections::HashMap<.*> as std::ops::Index<.*>>::index$")
def map_index(I_, st, args, c, t):
    m, k = val(I_, st, args[0]), val(I_, st, args[1])
    g = mget(m, k, None)
    d = discr(g)
    f = st.facts.assume(le(ZERO, d))
    f = f and f.assume(le(d, I(1)))
    st.facts = f or st.facts
    out = []
    for s, tr in I_.split(st, eqi(d, I(1))):
        if tr:
            out.append((s, fld(g, 1, 0, "std::option::Option", 1, ty=I_.p.tag(t[6]))))
        else:
            I_.panic(s, "map index")
    return out


@rx(MAP + r"insert$")
def map_insert(I_, st, args, c, t):
    m = I_.read_mref(st, args[0])
    k, v = val(I_, st, args[1]), args[2]
    old = mget(m, k, I_.p.tag(t[6]))
    I_.write_mref(st, args[0], app("map:insert", m, k, v, ty=m.ty))
    return old


@rx(MAP + r"remove$")
def map_remove(I_, st, args, c, t):
    m = I_.read_mref(st, args[0])
    k = val(I_, st, args[1])
    old = mget(m, k, I_.p.tag(t[6]))
    if old is NONE:
        return old
    I_.write_mref(st, args[0], app("map:remove", m, k, ty=m.ty))
    return old


@rx(MAP + r"(iter|into_iter|drain)$", r"<(&'a )?std::collections::(HashMap|BTreeMap)<.*> as std::iter::IntoIterator>::into_iter$")
def map_iter(I_, st, args, c, t):
    m = val(I_, st, args[0])
    r = app("map:entries", m)
    if c["name"] == "drain":
        I_.write_mref(st, args[0], app("map:new", ty=m.ty))
    return r


@rx(MAP + r"(len|is_empty)$")
def map_len(I_, st, args, c, t):
    m = val(I_, st, args[0])
    n = slen(app("map:entries", m))
    return n if c["name"] == "len" else le0(n)


def union(s):
    """map of a sequence of entries, the last of equal names wins"""
    r = None
    for k, v in parts_of(s):
        if k == "S" and v.op == "app" and v.args[0] == "map:entries":
            r = v.args[1] if r is None else app("map:union", r, v.args[1], ty=r.ty)
        elif k == "E":
            a = v.args[2][0] if v.op == "agg" else fld(v, 0, 0, "tuple", 2)
            b = v.args[2][1] if v.op == "agg" else fld(v, 0, 1, "tuple", 2)
            r = app("map:insert", r if r is not None else app("map:new"), a, b)
        else:
            r = app("map:extend", r if r is not None else app("map:new"), v)
    return r if r is not None else app("map:new")


@rx(r"<std::collections::HashMap<.*> as std::iter::FromIterator<.*>>::from_iter$", r"<std::collections::HashMap<.*> as std::convert::From<.*>>::from$")
def map_from_iter(I_, st, args, c, t):
    s = itseq(I_, st, args[0])
    return NotImplemented if s is None else union(s)


@rx(r"<std::collections::HashMap<.*> as std::iter::Extend<.*>>::extend$")
def map_extend(I_, st, args, c, t):
    v = val(I_, st, args[1])
    if v.op == "app" and v.args[0].startswith("map:") and v.args[0] != "map:entries":
        v = app("map:entries", v)
    elif base_type(I_, argty(I_, st, t, 1)).get("path") == "std::collections::HashMap":
        v = app("map:entries", v)
    s = itseq(I_, st, v)
    if s is None:
        return NotImplemented
    m = I_.read_mref(st, args[0])
    I_.write_mref(st, args[0], union(concat(app("map:entries", m), s)))
    return UNIT


@rx(MAP + r"entry$")
def map_entry(I_, st, args, c, t):
    return agg("#Entry", 0, [args[0], val(I_, st, args[1])])


@rx(r"hash_map::Entry::<.*>::or_insert$")
def entry_or_insert(I_, st, args, c, t):
    e = args[0]
    if e.op != "agg" or e.args[0] != "#Entry":
        return NotImplemented
    m0, k = e.args[2]
    m = I_.read_mref(st, m0)
    I_.write_mref(st, m0, app("map:insert_absent", m, k, args[1], ty=m.ty))
    return app("map:slot", m, k, args[1])


# -------------------------------------------------------------------- misc
@rx(r"std::boxed::Box::<T>::new_uninit$")
def box_uninit(I_, st, args, c, t):
    fr = st.frames[-1]
    name = ("heap", len(st.frames), fr.fn.key, fr.bb)
    st.cells[name] = mk("undef")
    return mk("mref", ("c", name), ())


@rx(r"std::boxed::Box::<T, A>::assume_init$", r"std::boxed::box_assume_init_into_vec_unsafe$", r"std::slice::<impl \[T\]>::box_assume_init_into_vec_unsafe$")
def box_init(I_, st, args, c, t):
    a = args[0]
    if a.op == "mref" and a.args[0][0] == "c" and isinstance(a.args[0][1], tuple):
        v = st.cells.pop(a.args[0][1])
        return v
    return val(I_, st, a)


@rx(r"std::boxed::box_new$")
def box_vec(I_, st, args, c, t):
    return args[0]


@rx(r"std::intrinsics::write_box_via_move$", r"std::boxed::box_uninit_as_mut_ptr$")
def write_box(I_, st, args, c, t):
    return args[1] if len(args) > 1 else args[0]


@rx(r"std::process::(exit|abort)$")
def diverge(I_, st, args, c, t):
    I_.panic(st, "process exit")
    return []


@rx(
    r"^(std|core)::panicking::",
    r"^std::rt::(begin_panic|panic_fmt|panic_display)",
    r"unwrap_failed$",
    r"expect_failed$",
    r"^std::rt::panic",
    r"panic_bounds_check",
    r"slice_(start|end)_index_len_fail|slice_index_order_fail",
    r"^std::unreachable_unchecked|handle_alloc_error",
)
def panics(I_, st, args, c, t):
    I_.panic(st, "panic:" + (c.get("rpath") or c["path"]))
    return []


@rx(r"^<(u8|u16|u32|u64|usize|char|i32|i64|u128) as std::convert::From<.*>>::from$", r"impl std::convert::From<.*> for (u8|u16|u32|u64|usize|char|i32|i64)>::from$")
def prim_from(I_, st, args, c, t):
    return val(I_, st, args[0])

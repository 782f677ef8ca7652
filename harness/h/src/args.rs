// Rules with parameters, called in every kind of place.
macro_rules! I { ($n:ident, $e:expr) => { Inst(args::Rule::$n as u32, false, &$e) } }
const A: E = S("a");
const B: E = S("b");
const AB: E = Alt(&[A, B]);
const A1: E = Alt(&[A, args::x::one]);
const LK: E = Alt(&[A, S("ab")]);
const A_B: E = Seq(&[(T::N, A), (T::O, B)]);
const AthenB: E = Seq(&[(T::N, A), (T::N, B)]);
const BthenA: E = Seq(&[(T::N, B), (T::N, A)]);
const AA: E = Seq(&[(T::N, A), (T::N, A)]);
const A4: E = Seq(&[(T::N, AA), (T::N, AA)]);
const D1: E = Seq(&[(T::N, A1), (T::N, A1)]);
const PP: E = I!(pair, Seq(&[(T::N, I!(pair, D1)), (T::N, I!(pair, D1))]));
const P1: E = I!(pair, Seq(&[(T::N, args::x::one), (T::N, args::x::one)]));
const SW: E = I!(swap, Seq(&[(T::N, P1), (T::N, A)]));
// Calls itself with its own argument.
static REC: E = Alt(&[A1, Seq(&[(T::N, S("(")), (T::N, Inst(args::Rule::nestrec as u32, false, &REC)), (T::N, S(")"))])]);
static OWN: E = Alt(&[A1, Seq(&[(T::N, S("(")), (T::N, Ref(&OWN)), (T::N, S(")"))])]);
suite! { mod args = r##"
~ = " " | "_"
^ = "_"
one = "1" | "2"
dot = "."
pair(x) = x - x
swap(x, y) = y - x
cross(x, y) = swap(y, x) - x
shadow(one) = one - "!"
inner(dot) = shadow(dot) - dot?
seps(e, s) = e ~ (s ~ e)*
sepm(e, s) = (e ^ s)+
look(p) = &p - !(p - "b") - "a"? - p?
reps(t) = t~* - "." - t^+
bnd(t) = t{1..2} - "!"
st(t) = pest::stack::push(t) - "." - pest::stack::pop
alt(t) = t? - "." - (t | "b")
deep(t) = pair(pair(t)) - "."
thrice(p, q, r) = (p | q) - (q | r) - p
nestrec(t) = t | "(" - nestrec(t) - ")"
low(t) = high(t - "b")
high(t) = t - t?

_dup(x) = _{ x - x }
_flip(x, y) = _{ y - x }
_unused(x) = _{ "k" }
_sep(e, s) = _{ e ~ (s ~ e)* }
_man(e) = _{ e ^ e }
_call(x) = _{ pair(x) - swap(x, "b") }
_chain(x) = _{ _dup(_flip(x, "b")) }
_uses(x) = _{ x - dot }
_mix(x, y) = _{ swap(_flip(x, y), y | x) }
_pick(x, y, z) = _{ x - y | y - z | z }
_not(x) = _{ !x - "a" | &x - "b" }
_reps(x) = _{ x{2} - x* - x~+ }
_own(x) = _{ x | "(" - _own(x) - ")" }
_shadow(one) = _{ one - _uses(one) }

n1 = pair("a" | "b")
n2 = cross("a", "b")
n3 = shadow("a" | "b") - shadow(one) - one
n4 = inner("a" | one)
n5 = seps("a", "," | ".")
n6 = sepm("a"?, "b")
n7 = look("a" | "ab")
n8 = reps("a" | one)
n9 = bnd("a" - "b"?)
n10 = st("a" | "b") | st(one)
n11 = alt("a" ~ "b")
n12 = deep("a" | one)
n13 = thrice("a", "b", one)
n14 = nestrec("a" | one)
n15 = pair(swap("a", pair(one)))
n16 = low("a")
n17 = pair(n1)
n18 = pair(one*)

s1 = _dup("a" | "b")
s2 = flipped("a", "b" | one)
flipped(x, y) = _flip(y, x) - x
s3 = pair(_dup("a" | one))
s4 = _unused("a") - "b"
s5 = _sep("a", "," | ".")
s6 = _man("a" | one)
s7 = _call("a" | one)
s8 = _chain("a")
s9 = held("a")
held(dot) = _uses(dot) - dot
s10 = _mix("a", one)
s11 = _pick("a", "b", one)
s12 = _pick("b", _dup("a"), _flip("a", "b"))
s13 = _not("a" - "b") - "b"?
s14 = _reps("a" | "b")
s15 = _own("a" | one)
s16 = (_dup("a") | _dup(one))* - !_dup("b") - _dup("b" - "a")?
s17 = _shadow("a")
s18 = swap(_flip("a", "b"), _uses(one))
s19 = bnd(_dup("a"))~+
s20 = _dup(_dup(_dup("a")))
"##; opt = Some(Alt(&[S(" "), S("_")])); man = Some(S("_"));
    one = Alt(&[S("1"), S("2")]);
    dot = S(".");
    n1 = I!(pair, Seq(&[(T::N, AB), (T::N, AB)]));
    n2 = I!(cross, Seq(&[(T::N, I!(swap, Seq(&[(T::N, A), (T::N, B)]))), (T::N, A)]));
    n3 = Seq(&[(T::N, I!(shadow, Seq(&[(T::N, AB), (T::N, S("!"))]))), (T::N, I!(shadow, Seq(&[(T::N, x::one), (T::N, S("!"))]))), (T::N, x::one)]);
    n4 = I!(inner, Seq(&[(T::N, I!(shadow, Seq(&[(T::N, Alt(&[A, x::one])), (T::N, S("!"))]))), (T::N, Opt(&Alt(&[A, x::one])))]));
    n5 = I!(seps, Seq(&[(T::N, A), (T::O, Rep(&Seq(&[(T::N, Alt(&[S(","), S(".")])), (T::O, A)]), 0, INF, T::N))]));
    n6 = I!(sepm, Rep(&Seq(&[(T::N, Opt(&A)), (T::M, B)]), 1, INF, T::N));
    n7 = I!(look, Seq(&[(T::N, Pos(&LK)), (T::N, Neg(&Seq(&[(T::N, LK), (T::N, B)]))), (T::N, Opt(&A)), (T::N, Opt(&LK))]));
    n8 = I!(reps, Seq(&[(T::N, Rep(&A1, 0, INF, T::O)), (T::N, S(".")), (T::N, Rep(&A1, 1, INF, T::M))]));
    n9 = I!(bnd, Seq(&[(T::N, Rep(&Seq(&[(T::N, A), (T::N, Opt(&B))]), 1, 2, T::N)), (T::N, S("!"))]));
    n10 = Alt(&[I!(st, Seq(&[(T::N, Push(&AB)), (T::N, S(".")), (T::N, Pop)])), I!(st, Seq(&[(T::N, Push(&x::one)), (T::N, S(".")), (T::N, Pop)]))]);
    n11 = I!(alt, Seq(&[(T::N, Opt(&A_B)), (T::N, S(".")), (T::N, Alt(&[A_B, B]))]));
    n12 = I!(deep, Seq(&[(T::N, PP), (T::N, S("."))]));
    n13 = I!(thrice, Seq(&[(T::N, AB), (T::N, Alt(&[B, x::one])), (T::N, A)]));
    n14 = Inst(Rule::nestrec as u32, false, &REC);
    n15 = I!(pair, Seq(&[(T::N, SW), (T::N, SW)]));
    n16 = I!(low, I!(high, Seq(&[(T::N, AthenB), (T::N, Opt(&AthenB))])));
    n17 = I!(pair, Seq(&[(T::N, x::n1), (T::N, x::n1)]));
    n18 = I!(pair, Seq(&[(T::N, Rep(&x::one, 0, INF, T::N)), (T::N, Rep(&x::one, 0, INF, T::N))]));
    s1 = Seq(&[(T::N, AB), (T::N, AB)]);
    s2 = I!(flipped, Seq(&[(T::N, A), (T::N, Alt(&[B, x::one])), (T::N, A)]));
    s3 = I!(pair, Seq(&[(T::N, D1), (T::N, D1)]));
    s4 = Seq(&[(T::N, S("k")), (T::N, B)]);
    s5 = Seq(&[(T::N, A), (T::O, Rep(&Seq(&[(T::N, Alt(&[S(","), S(".")])), (T::O, A)]), 0, INF, T::N))]);
    s6 = Seq(&[(T::N, A1), (T::M, A1)]);
    s7 = Seq(&[(T::N, I!(pair, D1)), (T::N, I!(swap, Seq(&[(T::N, B), (T::N, A1)])))]);
    s8 = Seq(&[(T::N, BthenA), (T::N, BthenA)]);
    s9 = I!(held, Seq(&[(T::N, A), (T::N, x::dot), (T::N, A)]));
    s10 = I!(swap, Seq(&[(T::N, Alt(&[x::one, A])), (T::N, Seq(&[(T::N, x::one), (T::N, A)]))]));
    s11 = Alt(&[AthenB, Seq(&[(T::N, B), (T::N, x::one)]), x::one]);
    s12 = Alt(&[Seq(&[(T::N, B), (T::N, AA)]), Seq(&[(T::N, AA), (T::N, BthenA)]), BthenA]);
    s13 = Seq(&[(T::N, Alt(&[Seq(&[(T::N, Neg(&AthenB)), (T::N, A)]), Seq(&[(T::N, Pos(&AthenB)), (T::N, B)])])), (T::N, Opt(&B))]);
    s14 = Seq(&[(T::N, Rep(&AB, 2, 2, T::N)), (T::N, Rep(&AB, 0, INF, T::N)), (T::N, Rep(&AB, 1, INF, T::O))]);
    s15 = Ref(&OWN);
    s16 = Seq(&[(T::N, Rep(&Alt(&[AA, Seq(&[(T::N, x::one), (T::N, x::one)])]), 0, INF, T::N)), (T::N, Neg(&Seq(&[(T::N, B), (T::N, B)]))), (T::N, Opt(&Seq(&[(T::N, BthenA), (T::N, BthenA)])))]);
    s17 = Seq(&[(T::N, A), (T::N, Seq(&[(T::N, A), (T::N, x::dot)]))]);
    s18 = I!(swap, Seq(&[(T::N, Seq(&[(T::N, x::one), (T::N, x::dot)])), (T::N, BthenA)]));
    s19 = Rep(&I!(bnd, Seq(&[(T::N, Rep(&AA, 1, 2, T::N)), (T::N, S("!"))])), 1, INF, T::O);
    s20 = Seq(&[(T::N, A4), (T::N, A4)]);
}

#!/usr/bin/env python3
"""Writes harness/h/src/gen/*.rs: grammars put together from all constructs of the language, at random from fixed seeds,
each with its meaning in the terms of the reference (harness/rt/src/spec.rs). Generating again gives the same files."""
import os, random

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "h", "src", "gen")
TR = {"N": "-", "O": "~", "M": "^"}


def rs(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = dict(prof)
        self.rules = []      # (name, silent, body)
        self.gens = []       # (name, silent, params, body)
        self.null = []       # nullable? per rule, None while unknown

    # Nullability, on the safe side.
    def nullable(self, e):
        k = e[0]
        if k in "SI":
            return e[1] == ""
        if k in ("R", "Any"):
            return False
        if k == "Ref":
            return self.null[e[1]] if e[1] < len(self.null) else True
        if k == "Seq":
            return all(self.nullable(x) for _, x in e[1])
        if k == "Alt":
            return any(self.nullable(x) for x in e[1])
        if k == "Rep":
            return e[2] == 0 or self.nullable(e[1])
        if k == "Push":
            return self.nullable(e[1])
        if k == "Call":
            return self.nullable(self.subst(self.gens[e[1]][3], e[2]))
        if k == "Par":
            return True
        return True

    def subst(self, e, args):
        k = e[0]
        if k == "Par":
            return args[e[1]]
        if k == "Seq":
            return (k, [(t, self.subst(x, args)) for t, x in e[1]])
        if k == "Alt":
            return (k, [self.subst(x, args) for x in e[1]])
        if k in ("Opt", "Pos", "Neg", "Push"):
            return (k, self.subst(e[1], args))
        if k == "Rep":
            return (k, self.subst(e[1], args)) + e[2:]
        if k == "Call":
            return (k, e[1], [self.subst(x, args) for x in e[2]])
        return e

    def leaf(self, guarded):
        r, p = self.r, self.p
        c = []
        for k in ("S", "S2", "I", "R", "Any", "Ref", "Empty", "Eoi", "Soi", "Nl", "Par", "Peek", "PeekAll", "Pop", "PopAll", "Drop", "Slice"):
            w = p.get(k, 0)
            if k == "Par" and not self.params or k == "Ref" and not self.rules and not (guarded and p.get("recursive")):
                w = 0
            c.append((k, w))
        k = r.choices([x for x, _ in c], [w for _, w in c])[0]
        al = p["alpha"]
        if k == "S":
            return ("S", r.choice(al))
        if k == "S2":
            return ("S", r.choice(al) + r.choice(al))
        if k == "I":
            return ("I", r.choice("ab") + r.choice(["", "b", "1"]))
        if k == "R":
            a, z = sorted([r.choice("abc"), r.choice("abcd")])
            return ("R", a, z)
        if k == "Empty":
            return ("S", "")
        if k == "Ref":
            n = len(self.rules)
            if guarded and p.get("recursive") and r.random() < p["recursive"]:
                return ("Ref", r.randrange(n, self.total))
            return ("Ref", r.randrange(n)) if n else ("S", r.choice(al))
        if k == "Par":
            return ("Par", r.randrange(self.params))
        if k == "Slice":
            a = r.choice([None, 0, 1, -1, -2, 2])
            z = r.choice([None, 1, 2, -1, 0])
            return ("Slice", a, z)
        return (k,)

    def expr(self, d, guarded):
        r, p = self.r, self.p
        if d == 0:
            return self.leaf(guarded)
        ks = ["leaf", "Seq", "Alt", "Opt", "Rep", "Pos", "Neg", "Push", "Call"]
        w = [p.get(x, 0) for x in ks]
        if not self.gens or (self.params and not p.get("callin", 1)):
            w[-1] = 0
        k = r.choices(ks, w)[0]
        if k == "leaf":
            return self.leaf(guarded)
        wide = k in ("Seq", "Alt") and r.random() < p.get("wide", 0.06)
        if wide:
            d = 1
        if k == "Seq":
            out, g = [], guarded
            for i in range(r.choice(WIDE) if wide else r.choice([2, 2, 3, 3, 4])):
                x = self.expr(d - 1, g)
                if wide and r.random() < 0.75:
                    x = ("Opt", x)
                t = r.choices("NOM", p.get("trivia", [1, 0, 0]))[0]
                out.append((t, x))
                g = g or not self.nullable(x)
            return ("Seq", out)
        if k == "Alt":
            return ("Alt", [self.expr(r.choice([d - 1, 1]) if wide else d - 1, guarded) for _ in range(r.choice(WIDE) if wide else r.choice([2, 2, 3, 4]))])
        if k in ("Opt", "Pos", "Neg"):
            return (k, self.expr(d - 1, guarded))
        if k == "Push":
            return (k, self.expr(d - 1, guarded))
        if k == "Rep":
            for _ in range(20):
                x = self.expr(d - 1, guarded)
                if not self.nullable(x):
                    break
            else:
                x = ("Seq", [("N", x), ("N", ("S", r.choice(p["alpha"])))])
            mn, mx, syn = r.choice([(0, None, "*"), (1, None, "+"), (2, 2, "{2}"), (1, 2, "{1..2}"), (0, 2, "{..2}"), (2, None, "{2..}"), (1, 1, "{1}"), (0, 1, "{0..1}"), (1, 3, "{1..3}"), (0, None, "{..}"), (3, 3, "{3}"), (1, None, "{1..}")][:p.get("reps", 12)])
            t = r.choices("NOM", p.get("trivia", [1, 0, 0]))[0]
            return ("Rep", x, mn, mx, t, syn)
        if k == "Call":
            g = r.randrange(len(self.gens))
            return ("Call", g, [self.expr(min(d - 1, 1), guarded) for _ in range(self.gens[g][2])])

    def uses(self, e, i):
        k = e[0]
        if k == "Par":
            return e[1] == i
        if k == "Seq":
            return any(self.uses(x, i) for _, x in e[1])
        if k == "Alt":
            return any(self.uses(x, i) for x in e[1])
        if k in ("Opt", "Pos", "Neg", "Push", "Rep"):
            return self.uses(e[1], i)
        if k == "Call":
            return any(self.uses(x, i) for x in e[2])
        return False

    def build(self, n):
        self.total = n
        self.params = 0
        p = self.p
        for i in range(p.get("generics", 0)):
            self.params = self.r.choice([1, 1, 2, 2, 3])
            silent = self.r.random() < p.get("gsilent", 0.3)
            while True:
                e = self.expr(self.r.choice([1, 2, 2]), False)
                if e[0] != "Par" and all(self.uses(e, j) for j in range(self.params)):
                    break
            self.gens.append((("_p%d" if silent else "p%d") % i, silent, self.params, e))
        self.params = 0
        for nm, e in p.get("first", []):
            self.null.append(self.nullable(e))
            self.rules.append((nm, False, e))
        if p.get("pairs"):
            # Each of the first rules before each of them, in a repetition.
            for u in range(4):
                for v in range(4):
                    f = self.r.choice(["+", "*", "{..3}", "{1..2}"])
                    self.null.append(f[0] in "*{")
                    self.rules.append(("q%d%d" % (u, v), False, ("Rep", ("Seq", [("N", ("Ref", u)), (self.r.choice("NO"), ("Ref", v)), ("N", ("S", self.r.choice(".c")))]),
                                       0 if f in ("*", "{..3}") else 1, {"+": None, "*": None, "{..3}": 3, "{1..2}": 2}[f], self.r.choice("NNO"), f)))
        for i in range(len(self.rules), n):
            lo = i < p.get("leaves", 3)
            e = self.leaf(False) if lo and i == 0 else self.expr(1 if lo else self.r.choice(p.get("depths", [2, 3, 3])), False)
            silent = self.r.random() < p.get("silent", 0.2) and i > 0
            self.null.append(self.nullable(e))
            self.rules.append((("_r%d" if silent else "r%d") % i, silent, e))

    def name(self, i):
        return self.names[i]

    # Grammar text.
    def g(self, e, top=False):
        k = e[0]
        if k == "S":
            return rs(e[1])
        if k == "I":
            return "i" + rs(e[1])
        if k == "R":
            return "'%s'..'%s'" % (e[1], e[2])
        if k == "Ref":
            return self.names[e[1]]
        if k == "Par":
            return "x%d" % e[1]
        if k == "Seq":
            out = ""
            for i, (t, x) in enumerate(e[1]):
                if i:
                    out += " %s " % TR[t]
                out += self.g(x)
            return out if top else "(%s)" % out
        if k == "Alt":
            out = " | ".join(self.g(x) for x in e[1])
            return out if top else "(%s)" % out
        if k == "Opt":
            return self.post(e[1]) + "?"
        if k == "Rep":
            t = {"N": "", "O": "~", "M": "^"}[e[4]]
            return self.post(e[1]) + t + e[5]
        if k in ("Pos", "Neg"):
            return {"Pos": "&", "Neg": "!"}[k] + "(" + self.g(e[1], True) + ")"
        if k == "Push":
            return "pest::stack::push(%s)" % self.g(e[1], True)
        if k == "Call":
            return "%s(%s)" % (self.gens[e[1]][0], ", ".join(self.g(x, True) for x in e[2]))
        if k == "Slice":
            f = lambda v: "" if v is None else str(v)
            return "pest::stack::peek[%s..%s]" % (f(e[1]), f(e[2]))
        return {"Any": "pest::any", "Eoi": "pest::eoi", "Soi": "pest::soi", "Nl": "pest::newline", "Peek": "pest::stack::peek", "PeekAll": "pest::stack::peek_all",
                "Pop": "pest::stack::pop", "PopAll": "pest::stack::pop_all", "Drop": "pest::stack::drop"}[k]

    def post(self, e):
        return self.g(e) if e[0] in ("S", "I", "Ref", "Par", "Seq", "Alt", "Call") else "(%s)" % self.g(e, True)

    # Reference.
    def c(self, e):
        k = e[0]
        if k in "SI":
            return "%s(%s)" % (k, rs(e[1]))
        if k == "R":
            return "R('%s', '%s')" % (e[1], e[2])
        if k == "Ref":
            return "x::" + self.names[e[1]]
        if k == "Seq":
            return "Seq(&[%s])" % ", ".join("(T::%s, %s)" % (t, self.c(x)) for t, x in e[1])
        if k == "Alt":
            return "Alt(&[%s])" % ", ".join(self.c(x) for x in e[1])
        if k == "Rep":
            return "Rep(&%s, %d, %s, T::%s)" % (self.c(e[1]), e[2], "INF" if e[3] is None else e[3], e[4])
        if k in ("Opt", "Pos", "Neg", "Push"):
            return "%s(&%s)" % (k, self.c(e[1]))
        if k == "Slice":
            return "Slice(%d, %s)" % (e[1] or 0, "None" if e[2] is None else "Some(%d)" % e[2])
        if k == "Call":
            n, silent, _, b = self.gens[e[1]]
            b = self.subst(b, e[2])
            return self.c(b) if silent else "Inst(Rule::%s as u32, false, &%s)" % (n, self.c(b))
        return k

    def mentions(self, e, out):
        k = e[0]
        if k == "Ref":
            if e[1] not in out:
                out.append(e[1])
        elif k == "Seq":
            for _, x in e[1]:
                self.mentions(x, out)
        elif k == "Alt":
            for x in e[1]:
                self.mentions(x, out)
        elif k in ("Opt", "Pos", "Rep"):
            self.mentions(e[1], out)

    def emit(self, mod):
        self.names = [n for n, _, _ in self.rules]
        o = self.p.get("opt", ('" "', 'S(" ")'))
        m = self.p.get("man", ('"_"', 'S("_")'))
        t = "suite! { mod %s = r##\"\n" % mod
        if o:
            t += "~ = %s\n" % o[0]
        if m:
            t += "^ = %s\n" % m[0]
        for n, s, k, e in self.gens:
            t += "%s(%s) = %s\n" % (n, ", ".join("x%d" % i for i in range(k)), "_{ %s }" % self.g(e, True) if s else self.g(e, True))
        for n, s, e in self.rules:
            t += "%s = %s\n" % (n, "_{ %s }" % self.g(e, True) if s else self.g(e, True))
        t += "\"##; opt = %s; man = %s;\n" % ("Some(%s)" % o[1] if o else "None", "Some(%s)" % m[1] if m else "None")
        for n, s, e in self.rules:
            t += "    %s%s = %s;\n" % (n, ' "_"' if s else "", self.c(e))
        return t + "}\n"


WIDE = [5, 6, 7, 8, 10, 12, 13, 16, 17, 20]
BASE = dict(alpha="abc.", S=5, S2=1, Ref=4, R=1, Any=0.5, Seq=5, Alt=3, Opt=2, Rep=2, leaf=1.5)
STACK = dict(Push=4, Peek=2, Pop=2, Drop=0.7, PeekAll=0.7, PopAll=0.7, Slice=1.5)
# Every construct inside every other inside every other.
WRAPS = [lambda x: ("Opt", x), lambda x: ("Pos", x), lambda x: ("Alt", [x, ("Ref", 1)]), lambda x: ("Seq", [("N", x), ("N", ("S", "."))]),
         lambda x: ("Rep", ("Seq", [("N", ("S", ",")), ("N", x)]), 0, None, "N", "*")]


class Shapes(Gen):
    def build(self, n):
        self.rules = [("a", False, ("S", "a")), ("b", False, ("S", "b"))]
        for u, f in enumerate(WRAPS):
            for v, g in enumerate(WRAPS):
                e = f(g(self.p["inner"](("Ref", 0))))
                self.rules.append(("s%d%d" % (u, v), False, e))


class Crowd(Gen):
    """Many rules, groups and stack errors at one place, and rules inside rules inside rules."""
    def build(self, n):
        k = self.p["crowd"]
        seq = lambda *l: ("Seq", [("N", x) for x in l])
        S = lambda t: ("S", t)
        R = self.rules
        ref = lambda name: ("Ref", [x[0] for x in R].index(name))
        add = lambda name, e, silent=False: R.append((name, silent, e))
        for i in range(k):
            add("c%d" % i, S("abc"[i % 3] + "xyzuvw"[i % 6]))
        for i in range(k):
            add("m%d" % i, S("y"))
        for i in range(k):
            add("p%d" % i, seq(S("b"), ref("c%d" % i)))
        add("d%d" % (k - 1), ref("c0"))
        for i in reversed(range(k - 1)):
            add("d%d" % i, ("Alt", [ref("c%d" % (i + 1)), ref("d%d" % (i + 1))]), i % 5 == 3)
        for i in range(k):
            add("t%d" % i, seq(S("b"), ref("d0") if i == 0 else ref("t%d" % (i - 1))))
        add("all", seq(S("b"), ("Alt", [ref("c%d" % i) for i in range(k)])))
        add("both", seq(S("b"), ("Alt", [("Alt", [ref("c%d" % i), seq(("Neg", ref("m%d" % i)), ref("m%d" % i))]) for i in range(k)])))
        add("groups", ("Alt", [ref("p%d" % i) for i in range(k)]))
        add("deep", seq(S("b"), ref("d0")))
        add("seen", seq(S("b"), ("Alt", [seq(("Neg", ref("m%d" % i)), ref("c%d" % i)) for i in range(k)])))
        add("nots", seq(S("b"), ("Opt", ("Neg", ref("d0"))), ("Rep", ref("m0"), 1, None, "N", "+")))
        add("stack", seq(S("b"), ("Alt", [("Peek",), ("Pop",), ("Drop",)] + [("Slice", i, None if i % 2 else i + 3) for i in range(1, k)])))
        add("gaps", seq(("Push", S("b")), ("Alt", [ref("groups")] + [("Slice", -i, i) for i in range(2, k)])))
        add("after", seq(("Rep", ref("groups"), 0, None, "N", "*"), ref("all")))
        add("tower", ref("t%d" % (k - 1)))


PROFILES = {
    # file: (profile, suites, rules per suite, first seed, accessors)
    "choice": (dict(BASE, alpha="ab1.", S=3, S2=2, I=2, R=2, Alt=6, Opt=3, Rep=0.7, Pos=0.3, Neg=0.3, Empty=0.4), 5, 20, 100, False),
    "trivia": (dict(BASE, trivia=[1, 3, 2], alpha="ab _", opt=('" " | "-"', 'Alt(&[S(" "), S("-")])'), man=('"_"+', 'Rep(&S("_"), 1, INF, T::N)'), Seq=6), 5, 20, 200, False),
    "rep": (dict(BASE, Rep=7, Seq=3, trivia=[3, 2, 1], Pos=0.3, Neg=0.3, depths=[2, 2, 3]), 5, 20, 300, False),
    "pred": (dict(BASE, Pos=4, Neg=4, trivia=[3, 1, 1], **{k: v / 4 for k, v in STACK.items()}), 5, 20, 400, False),
    "stack": (dict(BASE, alpha="ab", Pos=0.6, Neg=0.6, Any=1, trivia=[4, 1, 0], **STACK), 5, 20, 500, False),
    "mix": (dict(BASE, I=0.5, Pos=1, Neg=1, Empty=0.7, Eoi=0.3, Soi=0.2, Nl=0.3, trivia=[3, 1, 1], Ref=7, silent=0.25, **{k: v / 4 for k, v in STACK.items()}), 5, 20, 600, False),
    "null": (dict(BASE, alpha="c.", S=2, S2=0, R=0, Any=0, Ref=12, Opt=1, Rep=4, Pos=0.4, Neg=0.2, Seq=7, Alt=2, trivia=[3, 1, 1], leaves=0, silent=0.15, depths=[1, 2, 2, 3], pairs=True,
                  first=[("e", ("S", "")), ("o", ("Opt", ("S", "a"))), ("m", ("Rep", ("S", "b"), 0, None, "N", "*")), ("l", ("Pos", ("S", "a")))]), 3, 30, 650, False),
    "acc": (dict(BASE, Ref=14, Pos=1, Neg=0.5, trivia=[4, 1, 0], Push=0.4, silent=0.1, Empty=0.2, depths=[2, 3, 3, 4]), 5, 20, 700, True),
    "shape": (None, 5, 27, 0, True),
    "crowd": (None, 2, [10, 24], 0, False),
    "args": (dict(BASE, generics=8, Call=6, Par=8, Pos=0.5, Neg=0.5, trivia=[3, 1, 1], depths=[2, 2, 3]), 5, 18, 800, False),
    "rec": (dict(BASE, alpha="ab()", recursive=0.7, Ref=9, Pos=0.4, Neg=0.4, trivia=[4, 1, 0], opt=('"."', 'S(".")'), Seq=7, silent=0.15), 5, 20, 900, False),
}


def main():
    os.makedirs(OUT, exist_ok=True)
    for f, (prof, suites, n, seed, acc) in PROFILES.items():
        t = "// Written by bin/mkgen.py.\n"
        sizes = []
        for k in range(suites):
            g = Gen(seed + k, prof) if prof else Crowd(0, {"crowd": n[k]}) if f == "crowd" else Shapes(0, {"inner": WRAPS[k]})
            g.build(n)
            t += g.emit("%s%d" % (f, k))
            sizes.append(n)
            if acc:
                t += "sp!(%s%d: %s;);\n" % (f, k, " ".join(g.names))
                t += "fn %s%d_parts(k: usize, s: &'static str) { match k {\n" % (f, k)
                for i, (nm, _, e) in enumerate(g.rules):
                    out = []
                    g.mentions(e, out)
                    if out:
                        t += "    %d => accessors_of!(%s%d, %s: %s; s),\n" % (i, f, k, nm, " ".join(g.names[j] for j in out))
                t += "    _ => {}\n} }\n"
        if f == "crowd":
            # Only the rules that gather the others are entries.
            c = 10
            for k in range(suites):
                t += "fn crowd%d_last() -> usize { crowd%d::NAMES.len() - 1 - choose(%d) }\n" % (k, k, c)
            with open(os.path.join(OUT, f + ".rs"), "w") as h:
                h.write(t)
            continue
        t += "fn any_%s() -> usize { choose(%d) }\n" % (f, suites * n)
        t += "#[allow(unused)] fn run_%s(k: usize, s: &'static str) { match k / %d { %s _ => {} } }\n" % (f, n, " ".join("%d => { %s%d::run(k %% %d, s); }" % (i, f, i, n) for i in range(suites)))
        t += "#[allow(unused)] fn visit_%s<V: Visit>(k: usize, v: &mut V) { match k / %d { %s _ => {} } }\n" % (f, n, " ".join("%d => %s%d::visit(k %% %d, v)," % (i, f, i, n) for i in range(suites)))
        if acc:
            t += "fn parts_%s(k: usize, s: &'static str) { match k / %d { %s _ => {} } }\n" % (f, n, " ".join("%d => %s%d_parts(k %% %d, s)," % (i, f, i, n) for i in range(suites)))
        with open(os.path.join(OUT, f + ".rs"), "w") as h:
            h.write(t)


main()

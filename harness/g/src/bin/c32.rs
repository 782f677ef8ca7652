//! What the derive macro makes of references: a grammar is accepted exactly when every one of them is right.
use hrt::*;
use pest3_meta::parser::{parse, GrammarModule, Import, ParseExpr, ParseNode, ParseRule, PathArgs, Trivia};
use std::str::FromStr;

/// What a name stands for.
#[derive(Clone, Copy)]
enum Named<'a> {
    /// A rule, with its number of parameters.
    Rule(usize),
    /// A built-in rule: without arguments, with a slice, with one expression.
    Builtin(bool, bool, bool),
    /// A name that only leads to others.
    Pest,
    Stack,
    Unicode,
    Module(&'a GrammarModule),
}
static PLAIN: &[&str] = &["soi", "eoi", "any", "newline", "ascii", "ascii_alpha", "ascii_digit", "ascii_alphanumeric", "ascii_alpha_lower", "ascii_alpha_upper",
    "ascii_bin_digit", "ascii_oct_digit", "ascii_hex_digit", "ascii_nonzero_digit"];
fn inside<'a>(n: Named<'a>, name: &str) -> Option<Named<'a>> {
    match n {
        Named::Pest => match name {
            "stack" => Some(Named::Stack),
            "unicode" => Some(Named::Unicode),
            _ => PLAIN.contains(&name).then_some(Named::Builtin(true, false, false)),
        },
        Named::Stack => match name {
            "push" => Some(Named::Builtin(false, false, true)),
            "peek" => Some(Named::Builtin(true, true, false)),
            "peek_all" | "pop" | "pop_all" | "drop" => Some(Named::Builtin(true, false, false)),
            _ => None,
        },
        Named::Unicode => {
            let known = pest3_core::unicode::unicode_property_names().any(|n| n.eq_ignore_ascii_case(name)) && !name.bytes().any(|b| b.is_ascii_uppercase());
            known.then_some(Named::Builtin(true, false, false))
        }
        Named::Module(m) => named(m, name, m.imports.len()),
        _ => None,
    }
}
/// A name in a module, after so many of its imports.
fn named<'a>(m: &'a GrammarModule, name: &str, imports: usize) -> Option<Named<'a>> {
    for (i, import) in m.imports[..imports].iter().enumerate() {
        match import {
            Import::Builtin(n, path) if n == name => return look(m, path, i, false),
            Import::File(n, m) if n == name => return Some(Named::Module(m)),
            _ => {}
        }
    }
    m.rules.iter().find(|r| r.name == name && r.name != "~" && r.name != "^").map(|r| Named::Rule(r.args.len()))
}
fn look<'a>(m: &'a GrammarModule, path: &[String], imports: usize, rules: bool) -> Option<Named<'a>> {
    if path[0] == "pest" {
        let mut n = Some(Named::Pest);
        for s in &path[1..] { n = n.and_then(|n| inside(n, s)) }
        if n.is_some() { return n }
    }
    let mut n = named(m, &path[0], imports);
    if !rules { if let Some(Named::Rule(_)) = n { n = None } }
    for s in &path[1..] { n = n.and_then(|n| inside(n, s)) }
    n
}
fn expr(m: &GrammarModule, r: &ParseRule, n: &ParseNode) -> bool {
    let trivia = |t: &Trivia| match t {
        Trivia::None => true,
        Trivia::Optional => m.rules.iter().any(|r| r.name == "~"),
        Trivia::Mandatory => m.rules.iter().any(|r| r.name == "^"),
    };
    match &n.expr {
        ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(..) => true,
        ParseExpr::Path(path, args) => {
            if path.len() == 1 && r.args.contains(&path[0]) { return args.is_none() }
            let right = match (look(m, path, m.imports.len(), true), args) {
                (Some(Named::Rule(n)), None) => n == 0,
                (Some(Named::Rule(n)), Some(PathArgs::Call(a))) => a.len() == n,
                (Some(Named::Builtin(plain, _, _)), None) => plain,
                (Some(Named::Builtin(_, slice, _)), Some(PathArgs::Slice(_))) => slice,
                (Some(Named::Builtin(_, _, push)), Some(PathArgs::Call(a))) => push && a.len() == 1,
                _ => false,
            };
            right && match args { Some(PathArgs::Call(a)) => a.iter().all(|n| expr(m, r, n)), _ => true }
        }
        ParseExpr::Seq(a, b, t) => trivia(t) && expr(m, r, a) && expr(m, r, b),
        ParseExpr::Choice(a, b) => expr(m, r, a) && expr(m, r, b),
        ParseExpr::Separated(a, t) => trivia(t) && expr(m, r, a),
        ParseExpr::PosPred(a) | ParseExpr::NegPred(a) | ParseExpr::Opt(a) | ParseExpr::Rep(a) | ParseExpr::RepOnce(a) | ParseExpr::RepRange(a, _) => expr(m, r, a),
    }
}
static RESERVED: &[&str] = &["self", "super", "crate", "Self", "_"];
fn right(m: &GrammarModule) -> bool {
    let mut names: Vec<&str> = vec![];
    for (i, import) in m.imports.iter().enumerate() {
        let (name, right) = match import {
            Import::Builtin(n, path) => (n, look(m, path, i, false).is_some()),
            Import::File(n, f) => (n, self::right(f)),
        };
        if !right || names.contains(&name.as_str()) { return false }
        names.push(name);
    }
    for r in &m.rules {
        // What is inlined has its own harness.
        assume(!r.silent || r.args.is_empty());
        assume(!r.args.iter().any(|a| RESERVED.contains(&a.as_str())));
        for (i, a) in r.args.iter().enumerate() { assume(!r.args[..i].contains(a)) }
        if RESERVED.contains(&r.name.as_str()) || names.contains(&r.name.as_str()) { return false }
        names.push(&r.name);
    }
    m.rules.iter().all(|r| expr(m, r, &r.node))
}
fn derive(grammar: &str, ok: bool) {
    let mut s = String::from("#[grammar_inline = r##\"");
    s.push_str(grammar);
    s.push_str("\"##] struct P;");
    item(&s, ok)
}
fn item(s: &str, ok: bool) {
    let Ok(t) = proc_macro2::TokenStream::from_str(s) else { fail("the item is not lexed") };
    cover(if ok { 0 } else { 1 });
    refuse(!ok);
    let t = pest3_generator::typed::derive_typed_parser(t, false, true);
    ck(ok, "a grammar with something wrong in it is accepted");
    ck(!t.is_empty(), "nothing is generated");
}
fn judge(grammar: &str) {
    let ok = match parse(grammar, &"./_.rs") { Ok(m) => right(&m), Err(_) => false };
    derive(grammar, ok)
}
fn cat(parts: &[&str]) -> String { let mut s = String::new(); for p in parts { s.push_str(p) } s }

// A reference with any name.
entry!(h_name, {
    let n = among(param(0), b"abs_");
    judge(&cat(&["a = \"x\" - ", n, "\nb(s) = s\nab = \"y\"\n"]))
});
// Every kind of arguments on every kind of name.
static ARGS: &[&str] = &["", "(\"x\")", "(\"x\", a)", "(a, b, \"z\")", "[..]", "[1..]", "[..-1]", "[0..2]", "(\"x\")?", "(q(\"x\"))", "(n)"];
static NAMES: &[&str] = &["a", "b", "q", "w", "l", "s", "p", "pk", "an", "st", "st::push", "st::pop", "pest", "pest::stack", "pest::unicode", "pest::any", "pest::eoi", "pest::newline",
    "pest::stack::push", "pest::stack::peek", "pest::stack::peek_all", "pest::stack::pop", "pest::stack::pop_all", "pest::stack::drop", "pest::unicode::letter", "pest::unicode::cased", "pest::stack::a", "pest::a", "a::b", "nope", "any", "x", "y"];
entry!(h_call, {
    let body = cat(&[NAMES[choose(NAMES.len())], ARGS[choose(ARGS.len())]]);
    judge(&cat(&["use pest::unicode::letter as l\nuse pest::stack::push as p\nuse pest::stack::peek as pk\nuse pest::any as an\nuse pest::stack as st\n",
        "a = \"1\"\nb = _{ \"2\" }\nq(x) = \"3\" - x\nw(x, y) = x | y\nr(x, y) = { \"4\" - ", &body, " }\n"]))
});
// Paths of up to so many steps, most of which lead nowhere.
static STEPS: &[&[&str]] = &[&["a", "pest", "st", "q", "an", "any", "stack", "m"], &["a", "pest", "stack", "any", "push", "unicode", "n", "st"], &["a", "any", "push", "letter", "stack", "c"], &["a", "any", "letter"]];
entry!(h_paths, {
    file("m.pest", "use n\na = \"1\"\n");
    file("n.pest", "c = \"3\"\n");
    let n = 1 + choose(param(0));
    let mut path = String::new();
    for i in 0..n {
        if i > 0 { path.push_str("::") }
        path.push_str(STEPS[i][choose(STEPS[i].len())]);
    }
    if flip() { path.push_str("(a)") }
    judge(&cat(&["use m\nuse pest::any as an\nuse pest::stack as st\na = \"1\"\nq(a) = a\nr = ", &path, "\n"]))
});
// Trivia operators anywhere, with and without the trivia rules.
entry!(h_trivia, {
    let op = |i: usize| ["-", "~", "^"][i];
    let head = ["", "~ = \" \"\n", "^ = \"_\"\n", "^ = \"_\"\n~ = \" \"\n", "~ = \" \" ^ \"_\"\n", "~ = \" \" ^ \"_\"\n^ = \"-\" ~ \"+\"\n"][choose(6)];
    let body = match choose(8) {
        0 => cat(&["\"x\" ", op(choose(3)), " b"]),
        1 => cat(&["(\"x\" ", op(choose(3)), " \"y\")?"]),
        2 => cat(&["b", ["", "~", "^"][choose(3)], ["*", "+", "{2}", "{1..3}"][choose(4)]]),
        3 => cat(&["q(\"x\" ", op(choose(3)), " b)"]),
        4 => cat(&["\"x\" - b | !(b ", op(choose(3)), " b)"]),
        5 => cat(&["pest::stack::push(b ", op(choose(3)), " b)"]),
        6 => cat(&["\"x\" ", op(choose(3)), " b ", op(choose(3)), " b"]),
        _ => cat(&["&(b", ["", "~", "^"][choose(3)], "*)"]),
    };
    judge(&cat(&[head, "b = \"1\"\nq(x) = x\na = ", &body, "\n"]))
});
// Rules that may have the same name, or that of an import.
entry!(h_twice, {
    let n = param(0);
    let mut g = String::from(["", "use pest::any as b\n", "use pest::any as c\nuse pest::soi as c\n", "use pest::any as c\nuse c as d\n", "use pest::anything as c\n", "use pest::stack as s\nuse pest::stack::push as b\n"][choose(6)]);
    for i in 0..n {
        g.push_str(["a", "b", "~", "^", "c"][choose(if i == 2 { 5 } else { 4 })]);
        g.push_str(if i == 1 && flip() { " = _{ \"x\" }\n" } else { " = \"x\"\n" });
    }
    // An import that is not built in is a file, and there is none.
    judge(&g)
});
// Names of built-in rules.
entry!(h_builtin, {
    let n = param(0);
    let (at, letters, rest) = match choose(4) {
        0 => ("pest::", b"aeniyos", &["", "ny", "oi", "scii"][..]),
        1 => ("pest::stack::", b"peushao", &["", "op", "eek", "sh"][..]),
        2 => ("pest::unicode::", b"caselui", &["", "sed", "ase"][..]),
        _ => ("pes", b"tanypes", &["", "::any"][..]),
    };
    let s = among(n, letters);
    judge(&cat(&["a = ", at, s, rest[choose(rest.len())], "\n"]))
});
// Names that cannot be written in the generated code, and others that can.
entry!(h_reserved, {
    let n = ["self", "super", "crate", "Self", "_", "__", "fn", "selff", "type", "r", "SELF", "try", "dyn", "async", "Rule", "Option"][choose(16)];
    match choose(2) {
        0 => judge(&cat(&[n, " = \"x\"\nb = ", n, "\n"])),
        _ => judge(&cat(&[n, " = _{ \"x\" }\n"])),
    }
});
// Any text as a rule's body.
entry!(h_body, {
    let s = among(param(0), b"ab(x)~ ");
    judge(&cat(&["a = \"1\"\nb(x) = x\nr(x) = { a - ", s, " }\n~ = \" \"\n"]))
});
entry!(h_args, {
    let s = among(param(0), b"abx,()");
    judge(&cat(&["a = \"1\"\nb(x) = x\nbb(x, y) = x - y\nr(x) = { bb(", s, ") }\n"]))
});
// What is inlined.
entry!(h_inline, {
    let n = choose(3);
    let call = ["_q", "_q(\"1\")", "_q(\"1\", a)", "_q(\"1\", a, \"2\")"][choose(4)];
    let argc = match call.len() { 2 => 0, 7 => 1, 10 => 2, _ => 3 };
    let (body, fine) = [("x", true), ("x - a", true), ("x - nope", false), ("x ~ a", false), ("x^*", true), ("q(x)", true), ("q(x, x)", false), ("q", false), ("pest::stack::push(x)", true), ("pest::stack::push", false), ("_u(x)", true), ("_u(x, x)", false)][choose(12)];
    let head = [("_q(x) = _{ ", 1), ("_q(x, y) = _{ ", 2), ("_q(y, x, z) = _{ ", 3)][n];
    let around = [("", ""), ("(a - ", ")?"), ("q(", ")"), ("pest::stack::push(", ")"), ("_u(", ")")][choose(5)];
    // A call of the wrong length is refused whatever the body.
    derive(&cat(&["a = \"1\"\n^ = \" \"\nq(x) = x\n_u(x) = _{ x - \"2\" }\n", head.0, body, " }\nr = { ", around.0, call, around.1, " }\n"]), fine && argc == head.1)
});
// References into other files.
entry!(h_files, {
    file("m.pest", "use n\nuse pest::any as an\na = \"1\"\nq(x) = x - n::c\n~ = \" \"\nt = \"1\" ~ \"2\"\n");
    file("n.pest", "c = \"3\"\n");
    file("bad.pest", "c = nope\n");
    file("tri.pest", "c = \"1\" ~ \"2\"\n");
    let head = ["use m", "use m\nuse n", "use m as b", "use n as m", "use bad", "use tri\nuse m", "use m\nuse n as m", "use pest::any as m\nuse m", "use m\nuse pest::any as m", "use none"][choose(10)];
    let body = ["m::a", "a", "m", "m::n::c", "n::c", "c", "m::q(\"x\")", "m::q", "m::q(\"x\", \"y\")", "m::nope", "m::n", "m::an", "m::t", "\"1\" ~ \"2\"", "m::a(\"x\")", "m::q(nope)", "m::n::c[..]"][choose(17)];
    judge(&cat(&[head, "\nb = ", body, "\n"]))
});
// Several sources are one grammar: what is right or wrong is judged over all of them.
entry!(h_sources, {
    let first = ["use pest::any as x\na = \"1\"\n", "a = b\n", "a = \"1\"\n~ = \" \"\n", "a = c(x)\n", "a(b) = b\n"][choose(5)];
    let second = ["use pest::soi as x\nb = a\n", "b = \"2\" ~ a\n", "c(a) = a\n", "a = \"3\"\n", "~ = \"_\"\nx = \"4\"\n", "use pest::any as x\nb = a(x)\n"][choose(6)];
    let g = match (second.strip_prefix("use"), second.find('\n')) {
        (Some(_), Some(n)) => cat(&[&second[..n + 1], first, &second[n + 1..]]),
        _ => cat(&[first, second]),
    };
    let ok = match parse(&g, &"./_.rs") { Ok(m) => right(&m), Err(_) => fail("the whole is not read") };
    item(&cat(&["#[grammar_inline = r##\"", first, "\"##] #[grammar_inline = r##\"", second, "\"##] struct P;"]), ok)
});
// Attributes.
entry!(h_attributes, {
    file("src/in.pest", "a = \"1\"\n");
    file("src/bad.pest", "a = b\n");
    let (source, ok) = [("#[grammar_inline = \"a = 'b'..'c'\"]", true), ("#[grammar = \"in.pest\"]", true), ("#[grammar = \"bad.pest\"]", false), ("#[grammar = \"no.pest\"]", false), ("#[grammar]", false), ("#[grammar = 1]", false),
        ("#[grammar_inline = true]", false), ("#[grammar_inline(\"a = b\")]", false), ("", false), ("#[grammar_inline = \"a = b\"] #[grammar_inline = \"b = 'b'..'c'\"]", true), ("#[grammar = \"in.pest\"] #[grammar_inline = \"b = a\"]", true),
        ("#[grammar = \"in.pest\"] #[grammar_inline = \"a = 'b'..'c'\"]", false), ("#[grammar = \"..\"]", false)][choose(13)];
    let (name, flag) = [("no_pair", true), ("no_span", true), ("no_warnings", true), ("rules_mod", false), ("derive", true)][choose(5)];
    let (value, good) = match choose(7) {
        0 => ("", flag),
        1 => (" = true", flag),
        2 => (" = false", flag),
        3 => (" = \"x\"", !flag),
        4 => (" = \"\"", false),
        5 => (" = \"1 x\"", false),
        _ => ("(x)", false),
    };
    // Attributes of others are none of the macro's business.
    let good = good || name == "derive";
    item(&cat(&["#[", name, value, "] ", source, " struct P;"]), ok && good)
});
harnesses!(h_sources, h_attributes, h_name, h_call, h_paths, h_trivia, h_twice, h_builtin, h_reserved, h_body, h_args, h_inline, h_files);

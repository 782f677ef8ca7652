// Attempts that are given up or kept after every kind of construct (written by a script).
suite! { mod snap = r##"
~ = "."*
w = pest::stack::push('a'..'b')
kept = w? - "c"?
opt_up = w - (w - "b"? - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
opt_in = w - ((w - "b"?)? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
opt_pr = w - &(w - "b"?) - !(w - "b"? - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
optp_up = w - (w - w? - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
optp_in = w - ((w - w?)? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
optp_pr = w - &(w - w?) - !(w - w? - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
rep_up = w - (w - "b"* - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
rep_in = w - ((w - "b"*)? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
rep_pr = w - &(w - "b"*) - !(w - "b"* - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
repp_up = w - (w - w* - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
repp_in = w - ((w - w*)? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
repp_pr = w - &(w - w*) - !(w - w* - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
rep1_up = w - (w - w+ - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
rep1_in = w - ((w - w+)? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
rep1_pr = w - &(w - w+) - !(w - w+ - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
repn_up = w - (w - (w - "b"?){..2} - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
repn_in = w - ((w - (w - "b"?){..2})? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
repn_pr = w - &(w - (w - "b"?){..2}) - !(w - (w - "b"?){..2} - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
rept_up = w - (w - "b"~* - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
rept_in = w - ((w - "b"~*)? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
rept_pr = w - &(w - "b"~*) - !(w - "b"~* - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
pos_up = w - (w - &(w - "b"?) - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
pos_in = w - ((w - &(w - "b"?))? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
pos_pr = w - &(w - &(w - "b"?)) - !(w - &(w - "b"?) - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
neg_up = w - (w - !(w - "b"? - "c") - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
neg_in = w - ((w - !(w - "b"? - "c"))? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
neg_pr = w - &(w - !(w - "b"? - "c")) - !(w - !(w - "b"? - "c") - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
alt2_up = w - (w - (w - "c" | w | "c") - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
alt2_in = w - ((w - (w - "c" | w | "c"))? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
alt2_pr = w - &(w - (w - "c" | w | "c")) - !(w - (w - "c" | w | "c") - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
alt3_up = w - (w - ("c" | w - "c" | "b" | "") - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
alt3_in = w - ((w - ("c" | w - "c" | "b" | ""))? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
alt3_pr = w - &(w - ("c" | w - "c" | "b" | "")) - !(w - ("c" | w - "c" | "b" | "") - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
pop_up = w - (w - (pest::stack::pop? - "b"?) - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
pop_in = w - ((w - (pest::stack::pop? - "b"?))? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
pop_pr = w - &(w - (pest::stack::pop? - "b"?)) - !(w - (pest::stack::pop? - "b"?) - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
drop_up = w - (w - (pest::stack::drop - "b"?)? - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
drop_in = w - ((w - (pest::stack::drop - "b"?)?)? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
drop_pr = w - &(w - (pest::stack::drop - "b"?)?) - !(w - (pest::stack::drop - "b"?)? - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
rule_up = w - (w - (kept - kept) - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
rule_in = w - ((w - (kept - kept))? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
rule_pr = w - &(w - (kept - kept)) - !(w - (kept - kept) - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
pusho_up = w - (w - pest::stack::push("b"?) - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
pusho_in = w - ((w - pest::stack::push("b"?))? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
pusho_pr = w - &(w - pest::stack::push("b"?)) - !(w - pest::stack::push("b"?) - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
tri_up = w - (w - ("" ~ "b") - "!" | ("ab" | "a" | "b")) - pest::stack::peek_all
tri_in = w - ((w - ("" ~ "b"))? - "!" | ("ab" | "a" | "b")?) - pest::stack::peek_all
tri_pr = w - &(w - ("" ~ "b")) - !(w - ("" ~ "b") - "!") - ("ab" | "a" | "b") - pest::stack::pop_all
"##; opt = Some(Rep(&S("."), 0, INF, T::N)); man = None;
    w = Push(&R('a', 'b'));
    kept = Seq(&[(T::N, Opt(&x::w)), (T::N, Opt(&S("c")))]);
    opt_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Opt(&S("b"))), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    opt_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    opt_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b"))), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    optp_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Opt(&x::w)), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    optp_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Opt(&x::w))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    optp_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Opt(&x::w))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Opt(&x::w)), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    rep_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Rep(&S("b"), 0, INF, T::N)), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    rep_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Rep(&S("b"), 0, INF, T::N))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    rep_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Rep(&S("b"), 0, INF, T::N))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Rep(&S("b"), 0, INF, T::N)), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    repp_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Rep(&x::w, 0, INF, T::N)), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    repp_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Rep(&x::w, 0, INF, T::N))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    repp_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Rep(&x::w, 0, INF, T::N))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Rep(&x::w, 0, INF, T::N)), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    rep1_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Rep(&x::w, 1, INF, T::N)), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    rep1_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Rep(&x::w, 1, INF, T::N))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    rep1_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Rep(&x::w, 1, INF, T::N))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Rep(&x::w, 1, INF, T::N)), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    repn_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Rep(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    repn_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Rep(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))]), 0, 2, T::N))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    repn_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Rep(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))]), 0, 2, T::N))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Rep(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    rept_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Rep(&S("b"), 0, INF, T::O)), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    rept_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Rep(&S("b"), 0, INF, T::O))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    rept_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Rep(&S("b"), 0, INF, T::O))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Rep(&S("b"), 0, INF, T::O)), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    pos_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))]))), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    pos_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))])))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    pos_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))])))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b")))]))), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    neg_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b"))), (T::N, S("c"))]))), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    neg_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b"))), (T::N, S("c"))])))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    neg_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b"))), (T::N, S("c"))])))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Opt(&S("b"))), (T::N, S("c"))]))), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    alt2_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, S("c"))]), x::w, S("c")])), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    alt2_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, S("c"))]), x::w, S("c")]))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    alt2_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, S("c"))]), x::w, S("c")]))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, S("c"))]), x::w, S("c")])), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    alt3_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Alt(&[S("c"), Seq(&[(T::N, x::w), (T::N, S("c"))]), S("b"), S("")])), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    alt3_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Alt(&[S("c"), Seq(&[(T::N, x::w), (T::N, S("c"))]), S("b"), S("")]))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    alt3_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Alt(&[S("c"), Seq(&[(T::N, x::w), (T::N, S("c"))]), S("b"), S("")]))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Alt(&[S("c"), Seq(&[(T::N, x::w), (T::N, S("c"))]), S("b"), S("")])), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    pop_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, Opt(&Pop)), (T::N, Opt(&S("b")))])), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    pop_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, Opt(&Pop)), (T::N, Opt(&S("b")))]))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    pop_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, Opt(&Pop)), (T::N, Opt(&S("b")))]))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, Opt(&Pop)), (T::N, Opt(&S("b")))])), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    drop_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Opt(&Seq(&[(T::N, Drop), (T::N, Opt(&S("b")))]))), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    drop_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Opt(&Seq(&[(T::N, Drop), (T::N, Opt(&S("b")))])))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    drop_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Opt(&Seq(&[(T::N, Drop), (T::N, Opt(&S("b")))])))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Opt(&Seq(&[(T::N, Drop), (T::N, Opt(&S("b")))]))), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    rule_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, x::kept), (T::N, x::kept)])), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    rule_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, x::kept), (T::N, x::kept)]))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    rule_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, x::kept), (T::N, x::kept)]))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, x::kept), (T::N, x::kept)])), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    pusho_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Push(&Opt(&S("b")))), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    pusho_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Push(&Opt(&S("b"))))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    pusho_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Push(&Opt(&S("b"))))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Push(&Opt(&S("b")))), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
    tri_up = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, S("")), (T::O, S("b"))])), (T::N, S("!"))]), Alt(&[S("ab"), S("a"), S("b")])])), (T::N, PeekAll)]);
    tri_in = Seq(&[(T::N, x::w), (T::N, Alt(&[Seq(&[(T::N, Opt(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, S("")), (T::O, S("b"))]))]))), (T::N, S("!"))]), Opt(&Alt(&[S("ab"), S("a"), S("b")]))])), (T::N, PeekAll)]);
    tri_pr = Seq(&[(T::N, x::w), (T::N, Pos(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, S("")), (T::O, S("b"))]))]))), (T::N, Neg(&Seq(&[(T::N, x::w), (T::N, Seq(&[(T::N, S("")), (T::O, S("b"))])), (T::N, S("!"))]))), (T::N, Alt(&[S("ab"), S("a"), S("b")])), (T::N, PopAll)]);
}

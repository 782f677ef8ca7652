"""What each check runs. params are the bounds handed to the harness."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "rustc 1.99.1 lowers the crates to LLVM IR at opt-level as in harness/h profile `sym` without changing behaviour (path witnesses are re-run on a separate native build)",
    "the executor in symex/ gives LLVM IR its meaning: overflow, bounds and unwinding panics as compiled; memory is never exhausted; one thread",
    "z3 is right about bit-vector queries (a sample is cross-checked with z3-new and cvc5 in the thorough tier)",
    "the hash function of HashMap<&str, _> and HashMap<String, _> is replaced by one that looks at the length only (it is random, so nothing may depend on it)",
    "the crates that pest3 depends on are those in the offline cache, at the locked versions",
]
NOT_APPLICABLE = {}
def H(bin, quick, thorough=None, covers=(), bounds="", **k):
    return dict(bin=bin, quick=quick, thorough=thorough or quick, covers=list(covers), bounds=bounds, **k)
CHECKS = {}
CHECKS["C01"] = dict(harnesses=dict(
    h_str=H("c01", [3], [4], [0, 1]),
    h_insens=H("c01", [4], [5], [0, 1]),
    h_insens_content=H("c01", [5], [6], [0, 1]),
    h_char=H("c01", [2], [3], [0, 1]),
    h_skip=H("c01", [3], [4], [0, 1]),
    h_at=H("c01", [3], [4], [0, 1]),
    h_gen=H("c01", [6], [6], [0, 1]),
    h_near=H("c01", [2], [3], [0, 1]),
    h_near_ascii=H("c01", [4], [5], [0, 1]),
    h_hundreds=H("c01", [4], [5], [0, 1]),
))
CHECKS["C02"] = dict(harnesses=dict(
    h_range=H("c02", [2], [3], [0, 1]),
    h_range_empty=H("c02", [0], [0], [0]),
    h_any=H("c02", [2], [3], [0, 1]),
    h_ends=H("c02", [2], [3], [0, 1]),
    h_newline=H("c02", [3], [4], [0, 1]),
    h_ascii=H("c02", [0], [0], [0, 1]),
    h_by=H("c02", [2], [3], [0, 1]),
    h_gen=H("c02", [2], [3], [0, 1]),
))
CHECKS["C03"] = dict(harnesses=dict(
    h_gen=H("c03", [6], [8], [0, 1]),
    h_gen_long=H("c03", [2, 3], [3, 4], [0, 1]),
    h_len=H("c03", [1], [2], [0, 1]),
    h_len_ops=H("c03", [1, 2], [2, 3], [0, 1]),
    h_types=H("c03", [6], [8], [0, 1]),
))
CHECKS["C04"] = dict(harnesses=dict(
    h_gen=H("c04", [6], [8], [0, 1]),
    h_wide=H("c04", [2], [3], [0, 1]),
    h_lib=H("c04", [2], [3], [0, 1]),
    h_overlap=H("c04", [2], [3], [0, 1]),
    h_at=H("c04", [4], [5], [0, 1]),
))
CHECKS["C05"] = dict(harnesses=dict(
    h_forms=H("c05", [6], [8], [0, 1]),
    h_mixed=H("c05", [6], [8], [0, 1]),
    h_mixed_any=H("c05", [4], [6], [0, 1]),
    h_types=H("c05", [6], [8], [0, 1]),
    h_option=H("c05", [3], [4], [1]),
    h_never=H("c05", [6], [8], [0, 1]),
))
CHECKS["C06"] = dict(harnesses=dict(
    h_gen=H("c06", [5], [7], [0, 1]),
    h_gen_text=H("c06", [3], [4], [0, 1]),
    h_stack=H("c06", [2, 2], [3, 3], [0, 1]),
))
CHECKS["C07"] = dict(harnesses=dict(
    h_ops=H("c07", [2, 2], [3, 3], [0, 1]),
    h_ops_text=H("c07", [2, 1], [2, 2], [0, 1]),
    h_slices=H("c07", [2, 2], [2, 3], [0, 1]),
    h_slices_edge=H("c07", [0], [0], [0, 1]),
    h_record=H("c07", [2, 2], [3, 2], [0, 1, 2, 3]),
    h_gen=H("c07", [6], [7], [0, 1]),
))
CHECKS["C08"] = dict(harnesses=dict(
    h_forms=H("c08", [2, 2], [3, 2], [0, 1]),
    h_shapes=H("c08", [3, 4], [4, 5], [0, 1]),
    h_restore=H("c08", [2, 2], [3, 2], [0, 1]),
    h_pos=H("c08", [2, 3], [3, 3], [1]),
    h_gen=H("c08", [6], [7], [0, 1]),
    h_gen_any=H("c08", [5], [6], [0, 1]),
))
CHECKS["C09"] = dict(harnesses=dict(
    h_calls=H("c09", [6], [7], [0, 1]),
    h_odd=H("c09", [6], [8], [0, 1]),
    h_few=H("c09", [6], [7], [0, 1]),
    h_entry=H("c09", [4], [5], [0, 1, 2, 3]),
    h_nodes=H("c09", [3], [4], [0, 1]),
    h_stack=H("c09", [2, 2], [3, 2], [0, 1]),
))
CHECKS["C10"] = dict(harnesses=dict(
    h_calls=H("c10", [5], [7], [0, 1, 2]),
    h_odd=H("c10", [6], [8], [0, 1, 2]),
    h_prefix=H("c10", [6], [8], [0, 1]),
))
CHECKS["C11"] = dict(harnesses=dict(
    h_calls=H("c11", [5], [7], [0, 1]),
    h_odd=H("c11", [5], [7], [0, 1]),
    h_wide=H("c11", [3], [4], [0, 1]),
    h_fields=H("c11", [3], [4], [0, 1]),
    h_nodes=H("c11", [3, 2, 2], [3, 2, 4], [0, 1]),
))
CHECKS["C12"] = dict(harnesses=dict(
    h_nest=H("c12", [5], [7], [0, 1]),
    h_nest_any=H("c12", [5], [6], [0, 1]),
    h_calls=H("c12", [5], [7], [0, 1]),
    h_odd=H("c12", [6], [8], [0, 1]),
    h_show=H("c12", [4], [5], [0, 1]),
    h_parts=H("c12", [5], [6], [0, 1]),
))
CHECKS["C13"] = dict(harnesses=dict(
    h_rep=H("c13", [5, 1], [6, 2], [0, 1, 2, 3]),
    h_rep_any=H("c13", [5], [6], [0, 1, 2, 3]),
    h_nest=H("c13", [5], [7], [0, 1]),
    h_calls=H("c13", [5], [7], [0, 1]),
    h_odd=H("c13", [5], [7], [0, 1, 2, 3]),
    h_crowd=H("c13", [3], [4], [0, 1, 2, 3]),
    h_events=H("c13", [3], [3], [0, 1, 2, 3]),
))
CHECKS["C15"] = dict(harnesses=dict(
    h_text=H("c15", [4], [5], [0, 1, 2]),
    h_breaks=H("c15", [6], [8], [0, 1, 2]),
    h_any=H("c15", [5], [7], [0, 1, 2]),
    h_long=H("c15", [1, 1], [2, 2], [0, 1, 2]),
    h_moved=H("c15", [3], [4], [0, 1]),
))
CHECKS["C16"] = dict(harnesses=dict(
    h_line=H("c16", [3], [4], [0, 1]),
    h_line_breaks=H("c16", [6], [8], [0, 1]),
    h_line_long=H("c16", [1, 1], [2, 2], [0, 1]),
    h_span=H("c16", [3], [4], [0, 1, 2, 3]),
    h_span_breaks=H("c16", [5], [7], [0, 1, 2, 3]),
    h_span_long=H("c16", [1, 1], [1, 2], [0, 1, 2, 3]),
))
CHECKS["C17"] = dict(harnesses=dict(
    h_position=H("c17", [3], [4], [0, 1]),
    h_span=H("c17", [2], [3], [0, 1]),
    h_get=H("c17", [2], [3], [0, 1]),
    h_ranges=H("c17", [3], [4], [0, 1]),
    h_merge=H("c17", [3], [4], [0, 1]),
    h_order=H("c17", [3], [4], [0, 1]),
))
CHECKS["C14"] = dict(harnesses=dict(
    h_rep=H("c14", [4], [5], [0, 1, 2, 3]),
    h_calls=H("c14", [4], [5], [0]),
    h_odd=H("c14", [4], [5], [0, 1, 3]),
    h_crowd=H("c14", [2], [3], [0, 1, 2, 3]),
    h_lines=H("c14", [3], [4], [0, 1]),
    h_lines_any=H("c14", [2], [3], [0]),
    h_where=H("c14", [2], [3], [0, 2, 3]),
    h_where_breaks=H("c14", [3], [4], [0, 2, 3]),
    h_where_long=H("c14", [0], [1], [0, 2, 3]),
))
CHECKS["C18"] = dict(harnesses=dict(
    h_small=H("c18", [5], [6], [0, 1]),
    h_wide=H("c18", [3], [4], [0, 1]),
    h_lines=H("c18", [8, 2], [11, 3], [0, 1, 2]),
    h_ascii=H("c18", [2], [3], [0, 1]),
))
CHECKS["C28"] = dict(harnesses=dict(
    h_node=H("c28", [1], [2], [0, 1]),
    h_names=H("c28", [0], [0], [0]),
    h_rule=H("c28", [0], [0], [0, 1]),
    h_word=H("c28", [2], [3], [0, 1]),
))
CHECKS["C23"] = dict(harnesses=dict(
    h_chain=H("c23", [5], [6], [1]),
    h_signs=H("c23", [2, 2], [2, 3], [0, 1]),
    h_parens=H("c23", [7], [8], [0, 1]),
    h_parens_signs=H("c23", [7], [8], [0, 1]),
    h_mixed=H("c23", [4], [5], [0, 1]),
    h_calls=H("c23", [5], [6], [0, 1]),
    h_space=H("c23", [2], [3], [0, 1]),
    h_any=H("c23", [1, 1], [1, 2], [0, 1]),
))
CHECKS["C24"] = dict(harnesses=dict(
    h_string=H("c24", [2], [3], [0, 1]),
    h_insens=H("c24", [2], [3], [0, 1]),
    h_escape=H("c24", [2], [3], [0, 1]),
    h_hex=H("c24", [3], [4], [0, 1]),
    h_code=H("c24", [0], [0], [1, 2]),
    h_unicode=H("c24", [4], [6], [1, 2]),
    h_unicode_any=H("c24", [3], [5], [0, 1]),
    h_brace=H("c24", [2], [3], [0, 1]),
    h_char=H("c24", [1], [2], [0, 1]),
    h_char_end=H("c24", [1], [2], [0, 1]),
    h_char_code=H("c24", [4], [5], [1, 2]),
    h_raw=H("c24", [2], [3], [0, 1]),
    h_raw_marks=H("c24", [3], [5], [0, 1]),
    h_raw_open=H("c24", [5], [7], [0, 1]),
    h_several=H("c24", [1, 1], [1, 2], [0, 1]),
    h_spelled=H("c24", [0], [0], [1]),
))
CHECKS["C25"] = dict(harnesses=dict(
    h_count=H("c25", [2, 2], [3, 3], [0, 1, 2]),
    h_count_big=H("c25", [0], [0], [1, 2]),
    h_index=H("c25", [2, 2], [3, 3], [0, 1]),
    h_index_big=H("c25", [0], [0], [1, 2]),
    h_braces=H("c25", [4], [6], [0, 1, 2]),
    h_bracks=H("c25", [4], [6], [0, 1]),
    h_any=H("c25", [1, 1], [1, 2], [0, 1]),
))
CHECKS["C27"] = dict(harnesses=dict(
    h_any=H("c27", [1, 1], [1, 2], [0, 1]),
    h_name=H("c27", [3], [4], [0, 1]),
    h_name_any=H("c27", [0], [0], [0, 1]),
    h_params=H("c27", [4], [6], [0, 1]),
    h_silent=H("c27", [4], [6], [0, 1]),
    h_doc=H("c27", [2], [3], [1]),
    h_docs=H("c27", [4], [5], [0, 1]),
    h_comment=H("c27", [4], [6], [0, 1]),
    h_between=H("c27", [3], [4], [0, 1]),
    h_import=H("c27", [4], [6], [0, 1]),
    h_imports=H("c27", [1, 1], [1, 2], [0, 1]),
    h_files=H("c27", [2], [3], [0, 1]),
    h_merge=H("c27", [1], [2], [0, 1]),
    h_shared=H("c27", [2], [3], [0, 1]),
))
CHECKS["C26"] = dict(harnesses=dict(
    h_text=H("c26", [2], [3], [0]),
    h_ascii=H("c26", [4], [5], [0, 1]),
    h_body=H("c26", [3], [4], [0, 1]),
    h_wide=H("c26", [2], [3], [0, 1]),
    h_rule=H("c26", [3], [4], [0, 1]),
    h_literal=H("c26", [2], [3], [0, 1]),
    h_bounds=H("c26", [3], [4], [0, 1]),
    h_head=H("c26", [3], [4], [0, 1]),
    h_import=H("c26", [3], [4], [0, 1]),
    h_use=H("c26", [4], [5], [0]),
    h_comment=H("c26", [3], [4], [0, 1]),
    h_whole=H("c26", [1, 1], [1, 2], [0, 1]),
    h_deep=H("c26", [30], [100], [0, 1]),
    h_open=H("c26", [30], [60], [0]),
    h_files=H("c26", [2], [3], [0, 1]),
))
CHECKS["C22"] = dict(harnesses=dict(
    h_lists=H("c22", [7], [8], [0, 1]),
    h_sums=H("c22", [7], [8], [0, 1]),
    h_parens=H("c22", [7], [8], [0, 1]),
    h_mutual=H("c22", [7], [8], [0, 1]),
    h_letters=H("c22", [7], [8], [0, 1]),
    h_trivia=H("c22", [7], [8], [0, 1]),
    h_any=H("c22", [4], [5], [0, 1]),
    h_deep=H("c22", [6], [12], [0, 1]),
    h_deeper=H("c22", [300], [700], [0, 1]),
    h_small=H("c22", [7], [8], [0, 1]),
))
CHECKS["C20"] = dict(harnesses=dict(
    h_plain=H("c20", [7], [8], [0, 1]),
    h_choice=H("c20", [7], [8], [0, 1]),
    h_repeat=H("c20", [7], [8], [0, 1]),
    h_rec=H("c20", [7], [8], [0, 1]),
    h_params=H("c20", [7], [8], [0, 1]),
    h_large=H("c20", [6], [8], [0, 1]),
    h_many_params=H("c20", [6], [7], [0, 1]),
    h_builtin=H("c20", [5], [6], [0, 1]),
))
CHECKS["C21"] = dict(harnesses=dict(
    h_lists=H("c21", [7], [8], [0, 1]),
    h_names=H("c21", [7], [8], [0, 1]),
    h_sub=H("c21", [7], [8], [0, 1]),
    h_builtin=H("c21", [3], [4], [0, 1]),
    h_stack=H("c21", [7], [8], [0, 1]),
    h_custom=H("c21", [7], [8], [0, 1]),
    h_own=H("c21", [7], [8], [0, 1]),
))
CHECKS["C19"] = dict(harnesses=dict(
    h_plain=H("c19", [8], [9], [0, 1]),
    h_nested=H("c19", [8], [9], [0, 1]),
    h_trivia=H("c19", [8], [9], [0, 1]),
    h_silent=H("c19", [8], [9], [0, 1]),
    h_silent2=H("c19", [8], [9], [0, 1]),
    h_any=H("c19", [4], [5], [0, 1]),
))
# Grammars put together at random from all constructs (bin/mkgen.py).
for _p, _n, _m in [("C03", 5, 6), ("C04", 5, 6), ("C05", 6, 7), ("C06", 6, 7), ("C07", 6, 7), ("C08", 6, 7), ("C19", 6, 7), ("C22", 4, 5)]:
    CHECKS[_p]["harnesses"]["h_many"] = H(_p.lower(), [_n], [_m], [0, 1])
    CHECKS[_p]["harnesses"]["h_many_any"] = H(_p.lower(), [3], [4], [0, 1])
for _p, _c in [("C09", [0, 1]), ("C10", [0, 1, 2]), ("C11", []), ("C12", [0, 1]), ("C13", [0, 1, 2, 3]), ("C20", [0, 1])]:
    CHECKS[_p]["harnesses"]["h_many"] = H(_p.lower(), [5], [6], _c)
# Large concrete parts with something arbitrary in them.
for _p in ("C08", "C09"):
    CHECKS[_p]["harnesses"]["h_snap"] = H(_p.lower(), [6], [7], [0, 1])
CHECKS["C29"] = dict(harnesses=dict(
    h_sequence=H("c29", [0], [0], [0]), h_choice=H("c29", [0], [0], [0, 1]), h_rounds=H("c29", [5], [7], [0, 1, 2]), h_inside=H("c29", [4], [5], [0, 1]),
    h_equal=H("c29", [3], [4], [0, 1]), h_equal_at=H("c29", [3], [4], [0, 1]), h_convert=H("c29", [2], [3], [0, 1]), h_constants=H("c29", [0], [0], [0, 1])))
CHECKS["C20"]["harnesses"]["h_shape"] = H("c20", [5], [7], [0, 1])
for _p in ("C05", "C09", "C10", "C11", "C12", "C13"):
    CHECKS[_p]["harnesses"]["h_null"] = H(_p.lower(), [6], [7], [0, 1])
CHECKS["C01"]["harnesses"]["h_big"] = H("c01", [0], [0], [0, 1])
CHECKS["C05"]["harnesses"]["h_big"] = H("c05", [2], [3], [0, 1])
CHECKS["C07"]["harnesses"]["h_big"] = H("c07", [0], [0], [0, 1])
CHECKS["C09"]["harnesses"]["h_far"] = H("c09", [3], [4], [0, 1])
CHECKS["C11"]["harnesses"]["h_far"] = H("c11", [3], [4], [])
CHECKS["C13"]["harnesses"]["h_far"] = H("c13", [3], [4], [0, 1, 2])
CHECKS["C15"]["harnesses"]["h_big"] = H("c15", [2], [3], [0, 1, 2])
CHECKS["C16"]["harnesses"]["h_line_big"] = H("c16", [2], [3], [0, 1])
CHECKS["C16"]["harnesses"]["h_span_big"] = H("c16", [2], [2], [0, 1, 2, 3])
CHECKS["C18"]["harnesses"]["h_big"] = H("c18", [2, 3], [3, 3], [0, 1])
for _p in ("C21", "C27"):
    CHECKS[_p]["harnesses"]["h_two"] = H("files", [3, 2], [4, 3], [0, 1])
    CHECKS[_p]["harnesses"]["h_through"] = H("files", [2], [4], [0, 1])
CHECKS["C23"]["harnesses"]["h_big"] = H("c23", [0], [0], [0, 1])
CHECKS["C23"]["harnesses"]["h_levels"] = H("c23", [0], [0], [0, 1])
CHECKS["C24"]["harnesses"]["h_big"] = H("c24", [1], [2], [0, 1])
CHECKS["C26"]["harnesses"]["h_quoted"] = H("c26", [1], [2], [0, 1])
CHECKS["C27"]["harnesses"]["h_big"] = H("c27", [0], [0], [0, 1])
CHECKS["C30"] = dict(harnesses=dict(
    h_sources=H("c30", [7], [9], [0, 1]), h_sources_any=H("c30", [5], [6], [0, 1]), h_attributes=H("c30", [5], [6], [0, 1])))
CHECKS["C31"] = dict(harnesses=dict(
    h_chain=H("c31", [3], [4], [1]), h_signs=H("c31", [2, 2], [2, 3], [0, 1]), h_parens=H("c31", [6], [7], [0, 1]), h_parens_signs=H("c31", [6], [7], [0, 1]),
    h_calls=H("c31", [4], [5], [0, 1]), h_space=H("c31", [2], [2], [0, 1]), h_rules=H("c31", [1, 1], [1, 2], [0, 1]), h_any=H("c31", [1, 1], [2, 1], [0, 1]),
    h_chars=H("c31", [1], [2], [0, 1, 2]), h_escape=H("c31", [2], [4], [1, 2]), h_count=H("c31", [4], [5], [0, 1, 2]), h_numbers=H("c31", [0], [0], [1, 2]),
    h_offers=H("c31", [4], [5], [0, 1]), h_offers_after=H("c31", [2], [3], [0, 1]), h_offers_any=H("c31", [1, 1], [2, 1], [0, 1]),
    h_import=H("c31", [2], [3], [0, 1, 2]), h_files=H("c31", [2], [3], [0, 2])))
CHECKS["C21"]["harnesses"]["h_nested"] = H("c21", [7], [8], [0, 1])
CHECKS["C05"]["harnesses"]["h_empty"] = H("c05", [5], [7], [0, 1])
CHECKS["C05"]["harnesses"]["h_empty_rounds"] = H("c05", [5], [7], [1])
CHECKS["C21"]["harnesses"]["h_generic"] = H("c21", [6], [7], [0, 1])
CHECKS["C21"]["harnesses"]["h_generic_near"] = H("c21", [1, 1], [2, 1], [0, 1])
CHECKS["C19"]["harnesses"]["h_levels"] = H("c19", [7], [8], [0, 1])
CHECKS["C19"]["harnesses"]["h_named"] = H("c19", [9], [11], [0, 1])
CHECKS["C32"] = dict(harnesses=dict(
    h_name=H("c32", [2], [3], [0, 1]), h_call=H("c32", [0], [0], [0, 1]), h_paths=H("c32", [3], [4], [0, 1]), h_trivia=H("c32", [0], [0], [0, 1]), h_twice=H("c32", [3], [4], [0, 1]),
    h_builtin=H("c32", [1], [2], [0, 1]), h_reserved=H("c32", [0], [0], [0, 1]), h_body=H("c32", [2], [3], [0, 1]), h_args=H("c32", [3], [4], [0, 1]),
    h_inline=H("c32", [0], [0], [0, 1]), h_files=H("c32", [0], [0], [0, 1]),
    h_sources=H("c32", [0], [0], [0, 1]), h_attributes=H("c32", [0], [0], [0, 1])))
CHECKS["C30"]["harnesses"]["h_split"] = H("c30g", [0], [0], [0, 1])
OUT_DER = "references longer or placed otherwise than the harnesses put them; which of several faults is named; silent rules with parameters that nothing calls; parameters named twice or like keywords; whether the generated code of an accepted grammar compiles (C19, C30 compile theirs)"
OUT_IN = "longer input texts than the bounds say (up to the stated number of symbolic bytes; the harnesses named big, far, long and deep put the symbolic bytes in texts and counts of up to some hundred)"
OUT_GR = "grammars other than those of the suites; left recursion and unbounded repetitions of something that can match nothing (they never end, and the grammar reader does not refuse them)"
OUT_READ = "grammar files with more symbolic bytes than stated, or with them in other surroundings than the ones given; nesting deeper than the stated levels (stack use)"
for _k, _v in CHECKS.items():
    _n = int(_k[1:])
    _v.setdefault("outside", OUT_DER if _n == 32 else OUT_READ if _n in (23, 24, 25, 26, 27, 31) else OUT_IN if _n in (15, 16, 17, 18, 28) else OUT_IN + "; " + OUT_GR)

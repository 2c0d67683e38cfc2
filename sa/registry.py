from .checks import oracles as O, words as W, runner as R, constraints as C, zones as Z, automata as A, conditions as TC, regional as F, juxtapose as J, table as OT, equivalence as Q, counterexample as CE, zoneauto as ZA

LEVEL = "other"
CHECKS = {
    "M01": dict(level=LEVEL, run=[O.check_membership_run],
                explain="Typestate analysis of the membership query over all words."),
    "M02": dict(level=LEVEL, run=[O.check_membership_cache], explain=""),
    "M03": dict(level=LEVEL, run=[O.check_symbolic_query], explain=""),
    "L01": dict(level=LEVEL, run=[O.check_learner], explain=""),
    "E01": dict(level=LEVEL, run=[O.check_chain, O.check_memo], explain=""),
    "E02": dict(level=LEVEL, run=[O.check_complement_oracle], explain=""),
    "E03": dict(level=LEVEL, run=[O.check_bytest, O.check_random], explain=""),
    "T01": dict(level=LEVEL, run=[W.check_word_ctor, W.check_word_ops, W.check_accumulated], explain=""),
    "R01": dict(level=LEVEL, run=[R.check_discrete, R.check_reset, R.check_runner_life], explain=""),
    "R02": dict(level=LEVEL, run=[R.check_wait_of_constraint, R.check_wait_of_guard, R.check_delay], explain=""),
    "C01": dict(level=LEVEL, run=[C.check_single, C.check_weaker, C.check_maker, C.check_guard_ops, C.check_widen, C.check_bounds], explain=""),
    "Z01": dict(level=LEVEL, run=[Z.check_close, Z.check_const, Z.check_tighten, Z.check_guard, Z.check_guards, Z.check_simple_ops,
                                  Z.check_binary, Z.check_sat, Z.check_ctor, Z.check_extrapolate], explain=""),
    "Z02": dict(level=LEVEL, run=[TC.check_bounds, TC.check_hull, TC.check_steps, TC.check_upper, TC.check_extend, TC.check_concat, TC.check_compare,
                                  TC.check_predicates, TC.check_simple, TC.check_lists, TC.check_concrete, TC.check_resets, TC.check_empty], explain=""),
    "F01": dict(level=LEVEL, run=[F.check_order_steps, F.check_order_vars, F.check_order_zero, F.check_order_ctor, F.check_order_eq], explain=""),
    "F02": dict(level=LEVEL, run=[F.check_lang_steps, F.check_prefix, F.check_prefixes, F.check_lang_eq, F.check_lang_ops, F.check_hull_of, F.check_enumerate,
                                  F.check_members, F.check_from_word, F.check_suffix, F.check_lang_resets], explain=""),
    "J01": dict(level=LEVEL, run=[J.check_ctor_plain, J.check_ctor_common, J.check_add_renaming, J.check_make_renaming, J.check_get_right,
                                  J.check_set_ctor, J.check_set_renaming, J.check_set_equal], explain=""),
    "Q01": dict(level=LEVEL, run=[Q.check_equivalence, Q.check_status, Q.check_search], explain=""),
    "O04": dict(level=LEVEL, run=[CE.check_analysis, CE.check_language, CE.check_split, CE.check_maps, CE.check_handle, CE.check_recognizable], explain=""),
    "O01": dict(level=LEVEL, run=[OT.check_refresh, OT.check_move], explain=""),
    "O02": dict(level=LEVEL, run=[OT.check_equivalent, OT.check_equivalent_memo, OT.check_equivalent_column], explain=""),
    "O03": dict(level=LEVEL, run=[OT.check_close, OT.check_consistent, OT.check_resolve, OT.check_exterior, OT.check_saturate], explain=""),
    "A01": dict(level=LEVEL, run=[A.check_intersection], explain=""),
    "A02": dict(level=LEVEL, run=[A.check_copy, A.check_complete, A.check_complement], explain=""),
    "A03": dict(level=LEVEL, run=[ZA.check_ta2za, ZA.check_sample, ZA.check_run], explain=""),
}

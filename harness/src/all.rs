#[macro_use]
pub mod g;
pub mod m;
pub mod gen;
pub mod fsm;
pub mod h_esc;
pub mod h_parse;
pub mod h_mirror;
pub mod h_build;
pub mod h_reject;
pub mod h_edit;
pub mod h_find;
pub mod h_ns;
pub mod h_attr;
pub mod h_eq;
pub mod h_io;
pub mod h_prolog;
pub mod h_kind;
pub mod h_misc;
pub mod h_big;
pub mod h_forms;
pub mod h_reach;
pub mod h_same;
pub mod h_words;
pub mod h_again;
pub mod h_history;

macro_rules! harnesses {
    ($x:ident) => {
        $x! {
            h_esc::c04_any2, h_esc::c04_any3, h_esc::c04_any4, h_esc::c04_ascii6, h_esc::c04_any5, h_esc::c04_ascii8, h_esc::c04_frame, h_esc::c04_long, h_esc::c05_any4, h_esc::c05_any5, h_esc::c05_any6, h_esc::c05_ascii9, h_esc::c05_ascii12, h_esc::c05_named, h_esc::c05_hex, h_esc::c05_digits, h_esc::c05_once, h_esc::c05_long, h_esc::c05_pad, h_esc::c05_far,
            h_parse::c01_ascii8, h_parse::c01_ascii10, h_parse::c01_ascii12, h_parse::c01_any4, h_parse::c01_any5, h_parse::c01_any6, h_parse::c01_any7, h_parse::c01_ctxu3, h_parse::c01_tag8, h_parse::c01_tag10, h_parse::c01_ctx4, h_parse::c01_ctx5, h_parse::c01_ctx6, h_parse::c01_ctxu, h_parse::c01_long, h_parse::c02_ascii8, h_parse::c02_ctx3, h_parse::c02_ctx4, h_parse::c02_ctx5, h_parse::c02_ctx6, h_parse::c02_ctxu2, h_parse::c02_ctxu3, h_parse::c02_ctxu, h_parse::c02_doc,
            h_mirror::c06_text, h_mirror::c06_text4, h_mirror::c06_text5, h_mirror::c06_text6, h_mirror::c06_textu, h_mirror::c06_textmix, h_mirror::c06_attr, h_mirror::c06_attru, h_mirror::c06_attr5, h_mirror::c06_verbatim, h_mirror::c06_verbatimu, h_mirror::c06_verbatim6, h_mirror::c06_tokens3, h_mirror::c06_tokens4, h_mirror::c06_tokens5, h_mirror::c06_tokens6, h_mirror::c06_names, h_mirror::c06_uninames, h_mirror::c06_deep, h_mirror::c06_wide, h_mirror::c06_kinds10, h_mirror::c06_kinds12, h_mirror::c06_kinds6, h_mirror::c06_kinds5,
            h_build::c03_tree, h_build::c03_treeq, h_build::c03_wide, h_build::c03_uni, h_build::c03_uniq, h_build::c03_deep, h_build::c03_tree3, h_build::c03_verbatim, h_build::c03_names, h_build::c03_ns, h_build::c03_edit, h_build::c09_order1, h_build::c09_order2, h_build::c09_prefix, h_build::c09_decl, h_build::c09_names, h_build::c09_many, h_build::c09_parsed, h_build::c09_equal, h_build::c10_tree, h_build::c10_treeq, h_build::c10_mixedq, h_build::c10_sameq, h_build::c10_tree3, h_build::c10_deep, h_build::c10_mixed, h_build::c10_pos, h_build::c10_indent, h_build::c10_indentu, h_build::c10_text, h_build::c10_same,
            h_reject::c07_tokens3, h_reject::c07_tokens4, h_reject::c07_tags6, h_reject::c07_edits, h_reject::c07_edits2, h_reject::c07_names, h_reject::c07_names2, h_reject::c07_endtag, h_reject::c07_window, h_reject::c07_window4, h_reject::c07_window5, h_reject::c07_window6, h_reject::c07_window7, h_reject::c07_alpha8, h_reject::c07_alpha10, h_reject::c07_alpha13, h_reject::c07_tokens5, h_reject::c07_tokens6, h_reject::c07_tags8, h_reject::c07_deep, h_reject::c08_tags3, h_reject::c08_tags4, h_reject::c08_tags5, h_reject::c08_tags6, h_reject::c08_tags7, h_reject::c08_tagsu, h_reject::c08_alpha6, h_reject::c08_alpha8, h_reject::c08_alpha10, h_reject::c08_alpha12, h_reject::c08_edits, h_reject::c08_list,
            h_edit::c11_one, h_edit::c11_two, h_edit::c11_two_all, h_edit::c11_three, h_edit::c11_three_all, h_edit::c11_blank, h_edit::c11_blankq, h_edit::c11_runs, h_edit::c11_pushes, h_edit::c12_name, h_edit::c12_query, h_edit::c12_mask, h_edit::c12_mask_flat, h_edit::c12_content,
            h_find::c13_recursive, h_find::c13_direct, h_find::c13_names, h_find::c13_colon, h_find::c13_query, h_find::c13_parsed, h_find::c13_size,
            h_ns::c14_chain3, h_ns::c14_chain4, h_ns::c14_chain4all, h_ns::c14_siblings, h_ns::c14_prefix, h_ns::c14_chars, h_ns::c14_put, h_ns::c14_bottomup, h_ns::c14_ctor, h_ns::c14_inside, h_ns::c14_move, h_ns::c14_redeclare, h_ns::c14_many, h_ns::c14_setns, h_ns::c14_setns2, h_ns::c14_setns3, h_ns::c26_setns,
            h_attr::c15_ascii, h_attr::c15_ascii5, h_attr::c15_ascii8, h_attr::c15_ascii12, h_attr::c15_uni3, h_attr::c15_uni, h_attr::c15_long, h_attr::c15_words, h_attr::c15_among, h_attr::c15_prefix, h_attr::c15_refused, h_attr::c15_content, h_attr::c15_content6, h_attr::c15_content10, h_attr::c15_contentu, h_attr::c15_contentlong, h_attr::c18_map1, h_attr::c18_map2, h_attr::c18_map3, h_attr::c18_setremove, h_attr::c18_many, h_attr::c18_ctor, h_attr::c18_quote2, h_attr::c18_quote3, h_attr::c18_quote4, h_attr::c18_quote6, h_attr::c18_quoteu, h_attr::c18_quoteu2, h_attr::c18_marks, h_attr::c18_three, h_attr::c18_entity, h_attr::c18_ns,
            h_eq::c16_pairs, h_eq::c16_routes, h_eq::c16_trees12, h_eq::c16_trees21, h_eq::c16_trees22, h_eq::c16_nodes, h_eq::c16_leaves, h_eq::c16_documents, h_eq::c16_parsed, h_eq::c16_clone, h_eq::c16_scope, h_eq::c16_copies, h_eq::c16_context, h_eq::c16_lookup,
            h_io::c17_stream1, h_io::c17_stream2, h_io::c17_stream3, h_io::c17_stream4, h_io::c17_split, h_io::c17_readfail, h_io::c17_write, h_io::c17_writefail, h_io::c17_schedule, h_io::c17_failat, h_io::c17_writeat, h_io::c17_longread, h_io::c17_longraw, h_io::c17_longwrite, h_io::c17_file1, h_io::c17_file2, h_io::c17_file3, h_io::c17_fileuni, h_io::c17_filefail, h_io::c17_save, h_io::c17_savefail,
            h_prolog::c19_windowq, h_prolog::c19_window, h_prolog::c19_window4, h_prolog::c19_windowu, h_prolog::c19_windowu2, h_prolog::c19_style, h_prolog::c19_seq3, h_prolog::c19_seq4, h_prolog::c19_seq5, h_prolog::c19_edit1, h_prolog::c19_edit2, h_prolog::c19_edit3, h_prolog::c19_ctor3, h_prolog::c19_ctor4, h_prolog::c19_ctor5, h_prolog::c19_ctoru, h_prolog::c19_ctoru3, h_prolog::c19_trim, h_prolog::c19_indent, h_prolog::c19_minimal,
            h_kind::c20_single, h_kind::c20_treeq, h_kind::c20_tree, h_kind::c20_wide, h_kind::c20_deep, h_kind::c20_tree3, h_kind::c20_parsed, h_kind::c20_parsedu, h_kind::c20_parsed3, h_kind::c20_edit1, h_kind::c20_edit2, h_kind::c20_edit3, h_kind::c20_long,
            h_misc::c22_values, h_misc::c22_index, h_misc::c22_indextext, h_misc::c22_kinds, h_misc::c22_parse, h_misc::c22_line, h_misc::c22_column, h_misc::c22_within, h_misc::c23_ctor1, h_misc::c23_ctor2, h_misc::c23_ctor3, h_misc::c23_full, h_misc::c23_refused, h_misc::c23_children4, h_misc::c23_children6, h_misc::c23_attrs, h_misc::c23_both, h_misc::c23_ns, h_misc::c23_ns2,
            h_big::c01_bigpat, h_big::c01_big, h_big::c02_big, h_big::c02_big2, h_big::c03_big, h_big::c03_big2, h_big::c06_big, h_big::c06_big2, h_big::c04_big, h_big::c05_big, h_big::c07_big, h_big::c07_big2, h_big::c07_bigwide, h_big::c08_big, h_big::c08_long, h_big::c09_big, h_big::c09_big2, h_big::c10_big, h_big::c10_big2, h_big::c11_big, h_big::c11_big2, h_big::c12_big, h_big::c12_big2, h_big::c13_big, h_big::c13_big2, h_big::c14_big, h_big::c14_big2, h_big::c14_listing, h_big::c15_big, h_big::c15_bigcontent, h_big::c16_big, h_big::c16_big2, h_big::c16_boxed, h_big::c18_big, h_big::c18_biglong, h_big::c19_big, h_big::c20_big, h_big::c20_display, h_big::c22_big, h_big::c22_bigindex, h_big::c22_bigtext, h_big::c23_big, h_big::c01_huge, h_big::c02_huge, h_big::c03_huge, h_big::c06_huge, h_big::c10_huge, h_big::c20_huge,
            h_forms::c24_leaf, h_forms::c24_leafq, h_forms::c24_leafascii, h_forms::c24_leaflong, h_forms::c24_tree, h_forms::c24_treeq, h_forms::c24_uni, h_forms::c24_uniq, h_forms::c24_deep, h_forms::c24_indent, h_forms::c24_indent3, h_forms::c24_doc, h_forms::c24_docq, h_forms::c24_order, h_forms::c24_order3, h_forms::c24_elements,
            h_reach::c25_one, h_reach::c25_uni, h_reach::c25_parsed, h_reach::c25_three, h_reach::c25_two, h_reach::c25_nested, h_reach::c25_look, h_reach::c25_all, h_reach::c25_prolog, h_reach::c25_big, h_reach::c25_blank, h_reach::c25_text, h_reach::c25_defs, h_reach::c25_first,
            h_same::c26_one, h_same::c26_nested, h_same::c26_nestedq, h_same::c26_two, h_same::c26_wide, h_same::c26_uni, h_same::c26_prolog, h_same::c26_big, h_same::c26_big2,
            h_words::c02_words, h_words::c03_words, h_words::c06_words, h_words::c10_words, h_words::c04_words, h_words::c11_words, h_words::c12_words, h_words::c13_words, h_words::c14_words, h_words::c16_words, h_words::c16_words2, h_words::c18_words, h_words::c19_words, h_words::c20_words, h_words::c23_words, h_words::c24_words, h_words::c01_words, h_words::c01_phrases, h_words::c01_refs, h_words::c05_refsq, h_words::c05_refs, h_words::c05_words, h_words::c07_words, h_words::c08_words, h_words::c25_words, h_words::c26_words,
            h_again::c01_again, h_again::c02_again, h_again::c04_again, h_again::c05_again, h_again::c06_again, h_again::c07_again, h_again::c07_after, h_again::c08_again, h_again::c15_again, h_again::c24_again, h_again::c17_again, h_again::c14_again, h_again::c22_again, h_again::c25_warm, h_again::c13_lazy, h_again::c06_far, h_again::c03_far, h_again::c22_far, h_again::c04_far,
            h_history::c11_history, h_history::c11_history2, h_history::c14_history, h_history::c14_history2, h_history::c18_history, h_history::c18_history2, h_history::c25_history, h_history::c25_history2, h_history::c03_history, h_history::c03_history2, h_history::c10_history, h_history::c10_history2, h_history::c20_history, h_history::c20_history2, h_history::c13_history, h_history::c13_history2, h_history::c16_history, h_history::c16_history2, h_history::c26_history, h_history::c26_history2,
        }
    };
}

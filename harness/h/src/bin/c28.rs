//! Unicode properties: the type of each property, and the built-in rule of each property in a grammar.
use h::*;
use hrt::spec::{*, E::*};
use pest2::unicode as table;
use pest3_core::typed::unicode;

macro_rules! all { ($m:ident) => { $m! {
    ALPHABETIC BIDI_CONTROL CASE_IGNORABLE CASED CHANGES_WHEN_CASEFOLDED CHANGES_WHEN_CASEMAPPED CHANGES_WHEN_LOWERCASED CHANGES_WHEN_TITLECASED
    CHANGES_WHEN_UPPERCASED DASH DEFAULT_IGNORABLE_CODE_POINT DEPRECATED DIACRITIC EMOJI EMOJI_COMPONENT EMOJI_MODIFIER
    EMOJI_MODIFIER_BASE EMOJI_PRESENTATION EXTENDED_PICTOGRAPHIC EXTENDER GRAPHEME_BASE GRAPHEME_EXTEND GRAPHEME_LINK HEX_DIGIT
    HYPHEN IDS_BINARY_OPERATOR IDS_TRINARY_OPERATOR ID_CONTINUE ID_START IDEOGRAPHIC JOIN_CONTROL LOGICAL_ORDER_EXCEPTION
    LOWERCASE MATH NONCHARACTER_CODE_POINT OTHER_ALPHABETIC OTHER_DEFAULT_IGNORABLE_CODE_POINT OTHER_GRAPHEME_EXTEND OTHER_ID_CONTINUE OTHER_ID_START
    OTHER_LOWERCASE OTHER_MATH OTHER_UPPERCASE PATTERN_SYNTAX PATTERN_WHITE_SPACE PREPENDED_CONCATENATION_MARK QUOTATION_MARK RADICAL
    REGIONAL_INDICATOR SENTENCE_TERMINAL SOFT_DOTTED TERMINAL_PUNCTUATION UNIFIED_IDEOGRAPH UPPERCASE VARIATION_SELECTOR WHITE_SPACE
    XID_CONTINUE XID_START CASED_LETTER CLOSE_PUNCTUATION CONNECTOR_PUNCTUATION CONTROL CURRENCY_SYMBOL DASH_PUNCTUATION
    DECIMAL_NUMBER ENCLOSING_MARK FINAL_PUNCTUATION FORMAT INITIAL_PUNCTUATION LETTER LETTER_NUMBER LINE_SEPARATOR
    LOWERCASE_LETTER MARK MATH_SYMBOL MODIFIER_LETTER MODIFIER_SYMBOL NONSPACING_MARK NUMBER OPEN_PUNCTUATION
    OTHER OTHER_LETTER OTHER_NUMBER OTHER_PUNCTUATION OTHER_SYMBOL PARAGRAPH_SEPARATOR PRIVATE_USE PUNCTUATION
    SEPARATOR SPACE_SEPARATOR SPACING_MARK SURROGATE SYMBOL TITLECASE_LETTER UNASSIGNED UPPERCASE_LETTER
    ADLAM AHOM ANATOLIAN_HIEROGLYPHS ARABIC ARMENIAN AVESTAN BALINESE BAMUM
    BASSA_VAH BATAK BENGALI BHAIKSUKI BOPOMOFO BRAHMI BRAILLE BUGINESE
    BUHID CANADIAN_ABORIGINAL CARIAN CAUCASIAN_ALBANIAN CHAKMA CHAM CHEROKEE CHORASMIAN
    COMMON COPTIC CUNEIFORM CYPRIOT CYPRO_MINOAN CYRILLIC DESERET DEVANAGARI
    DIVES_AKURU DOGRA DUPLOYAN EGYPTIAN_HIEROGLYPHS ELBASAN ELYMAIC ETHIOPIC GEORGIAN
    GLAGOLITIC GOTHIC GRANTHA GREEK GUJARATI GUNJALA_GONDI GURMUKHI HAN
    HANGUL HANIFI_ROHINGYA HANUNOO HATRAN HEBREW HIRAGANA IMPERIAL_ARAMAIC INHERITED
    INSCRIPTIONAL_PAHLAVI INSCRIPTIONAL_PARTHIAN JAVANESE KAITHI KANNADA KATAKANA KAWI KAYAH_LI
    KHAROSHTHI KHITAN_SMALL_SCRIPT KHMER KHOJKI KHUDAWADI LAO LATIN LEPCHA
    LIMBU LINEAR_A LINEAR_B LISU LYCIAN LYDIAN MAHAJANI MAKASAR
    MALAYALAM MANDAIC MANICHAEAN MARCHEN MASARAM_GONDI MEDEFAIDRIN MEETEI_MAYEK MENDE_KIKAKUI
    MEROITIC_CURSIVE MEROITIC_HIEROGLYPHS MIAO MODI MONGOLIAN MRO MULTANI MYANMAR
    NABATAEAN NAG_MUNDARI NANDINAGARI NEW_TAI_LUE NEWA NKO NUSHU NYIAKENG_PUACHUE_HMONG
    OGHAM OL_CHIKI OLD_HUNGARIAN OLD_ITALIC OLD_NORTH_ARABIAN OLD_PERMIC OLD_PERSIAN OLD_SOGDIAN
    OLD_SOUTH_ARABIAN OLD_TURKIC OLD_UYGHUR ORIYA OSAGE OSMANYA PAHAWH_HMONG PALMYRENE
    PAU_CIN_HAU PHAGS_PA PHOENICIAN PSALTER_PAHLAVI REJANG RUNIC SAMARITAN SAURASHTRA
    SHARADA SHAVIAN SIDDHAM SIGNWRITING SINHALA SOGDIAN SORA_SOMPENG SOYOMBO
    SUNDANESE SYLOTI_NAGRI SYRIAC TAGALOG TAGBANWA TAI_LE TAI_THAM TAI_VIET
    TAKRI TAMIL TANGSA TANGUT TELUGU THAANA THAI TIBETAN
    TIFINAGH TIRHUTA TOTO UGARITIC VAI VITHKUQI WANCHO WARANG_CITI
    YEZIDI YI ZANABAZAR_SQUARE
} } }

/// One property: its number, the node type, the table.
macro_rules! node_check { ($($n:ident)*) => {
    const NAMES: &[&str] = &[$(stringify!($n)),*];
    fn check_node(k: usize, s: &'static str, at: usize) {
        let mut i = 0;
        $(if k == i {
            if let Some((p, n)) = node_at::<unicode::$n>(&NOG, &C(|c| char::from_u32(c).map_or(false, table::$n)), s, at) {
                let (c, l) = char_at(s.as_bytes(), at).unwrap();
                ck(n.content as u32 == c, "the recorded character is not the one in the input");
                ck(p == at + l, "not exactly one character is consumed");
            }
            return
        }
        i += 1;)*
        let _ = i;
        fail("no such property")
    }
} }
all!(node_check);
entry!(h_node, {
    let k = choose(NAMES.len());
    let (s, at) = text_at(param(0), 4);
    check_node(k, s, at)
});
entry!(h_names, {
    let mut i = 0;
    for n in table::unicode_property_names() { ck(i < NAMES.len() && n == NAMES[i], "the list of properties"); i += 1; }
    ck(i == NAMES.len(), "the number of properties");
    cover(0)
});
// Each property under its name in a grammar.
mod named {
    use pest3::Parser;
    #[derive(Parser)]
    #[no_warnings]
    #[grammar_inline = r##"
u_alphabetic = pest::unicode::alphabetic
u_bidi_control = pest::unicode::bidi_control
u_case_ignorable = pest::unicode::case_ignorable
u_cased = pest::unicode::cased
u_changes_when_casefolded = pest::unicode::changes_when_casefolded
u_changes_when_casemapped = pest::unicode::changes_when_casemapped
u_changes_when_lowercased = pest::unicode::changes_when_lowercased
u_changes_when_titlecased = pest::unicode::changes_when_titlecased
u_changes_when_uppercased = pest::unicode::changes_when_uppercased
u_dash = pest::unicode::dash
u_default_ignorable_code_point = pest::unicode::default_ignorable_code_point
u_deprecated = pest::unicode::deprecated
u_diacritic = pest::unicode::diacritic
u_emoji = pest::unicode::emoji
u_emoji_component = pest::unicode::emoji_component
u_emoji_modifier = pest::unicode::emoji_modifier
u_emoji_modifier_base = pest::unicode::emoji_modifier_base
u_emoji_presentation = pest::unicode::emoji_presentation
u_extended_pictographic = pest::unicode::extended_pictographic
u_extender = pest::unicode::extender
u_grapheme_base = pest::unicode::grapheme_base
u_grapheme_extend = pest::unicode::grapheme_extend
u_grapheme_link = pest::unicode::grapheme_link
u_hex_digit = pest::unicode::hex_digit
u_hyphen = pest::unicode::hyphen
u_ids_binary_operator = pest::unicode::ids_binary_operator
u_ids_trinary_operator = pest::unicode::ids_trinary_operator
u_id_continue = pest::unicode::id_continue
u_id_start = pest::unicode::id_start
u_ideographic = pest::unicode::ideographic
u_join_control = pest::unicode::join_control
u_logical_order_exception = pest::unicode::logical_order_exception
u_lowercase = pest::unicode::lowercase
u_math = pest::unicode::math
u_noncharacter_code_point = pest::unicode::noncharacter_code_point
u_other_alphabetic = pest::unicode::other_alphabetic
u_other_default_ignorable_code_point = pest::unicode::other_default_ignorable_code_point
u_other_grapheme_extend = pest::unicode::other_grapheme_extend
u_other_id_continue = pest::unicode::other_id_continue
u_other_id_start = pest::unicode::other_id_start
u_other_lowercase = pest::unicode::other_lowercase
u_other_math = pest::unicode::other_math
u_other_uppercase = pest::unicode::other_uppercase
u_pattern_syntax = pest::unicode::pattern_syntax
u_pattern_white_space = pest::unicode::pattern_white_space
u_prepended_concatenation_mark = pest::unicode::prepended_concatenation_mark
u_quotation_mark = pest::unicode::quotation_mark
u_radical = pest::unicode::radical
u_regional_indicator = pest::unicode::regional_indicator
u_sentence_terminal = pest::unicode::sentence_terminal
u_soft_dotted = pest::unicode::soft_dotted
u_terminal_punctuation = pest::unicode::terminal_punctuation
u_unified_ideograph = pest::unicode::unified_ideograph
u_uppercase = pest::unicode::uppercase
u_variation_selector = pest::unicode::variation_selector
u_white_space = pest::unicode::white_space
u_xid_continue = pest::unicode::xid_continue
u_xid_start = pest::unicode::xid_start
u_cased_letter = pest::unicode::cased_letter
u_close_punctuation = pest::unicode::close_punctuation
u_connector_punctuation = pest::unicode::connector_punctuation
u_control = pest::unicode::control
u_currency_symbol = pest::unicode::currency_symbol
u_dash_punctuation = pest::unicode::dash_punctuation
u_decimal_number = pest::unicode::decimal_number
u_enclosing_mark = pest::unicode::enclosing_mark
u_final_punctuation = pest::unicode::final_punctuation
u_format = pest::unicode::format
u_initial_punctuation = pest::unicode::initial_punctuation
u_letter = pest::unicode::letter
u_letter_number = pest::unicode::letter_number
u_line_separator = pest::unicode::line_separator
u_lowercase_letter = pest::unicode::lowercase_letter
u_mark = pest::unicode::mark
u_math_symbol = pest::unicode::math_symbol
u_modifier_letter = pest::unicode::modifier_letter
u_modifier_symbol = pest::unicode::modifier_symbol
u_nonspacing_mark = pest::unicode::nonspacing_mark
u_number = pest::unicode::number
u_open_punctuation = pest::unicode::open_punctuation
u_other = pest::unicode::other
u_other_letter = pest::unicode::other_letter
u_other_number = pest::unicode::other_number
u_other_punctuation = pest::unicode::other_punctuation
u_other_symbol = pest::unicode::other_symbol
u_paragraph_separator = pest::unicode::paragraph_separator
u_private_use = pest::unicode::private_use
u_punctuation = pest::unicode::punctuation
u_separator = pest::unicode::separator
u_space_separator = pest::unicode::space_separator
u_spacing_mark = pest::unicode::spacing_mark
u_surrogate = pest::unicode::surrogate
u_symbol = pest::unicode::symbol
u_titlecase_letter = pest::unicode::titlecase_letter
u_unassigned = pest::unicode::unassigned
u_uppercase_letter = pest::unicode::uppercase_letter
u_adlam = pest::unicode::adlam
u_ahom = pest::unicode::ahom
u_anatolian_hieroglyphs = pest::unicode::anatolian_hieroglyphs
u_arabic = pest::unicode::arabic
u_armenian = pest::unicode::armenian
u_avestan = pest::unicode::avestan
u_balinese = pest::unicode::balinese
u_bamum = pest::unicode::bamum
u_bassa_vah = pest::unicode::bassa_vah
u_batak = pest::unicode::batak
u_bengali = pest::unicode::bengali
u_bhaiksuki = pest::unicode::bhaiksuki
u_bopomofo = pest::unicode::bopomofo
u_brahmi = pest::unicode::brahmi
u_braille = pest::unicode::braille
u_buginese = pest::unicode::buginese
u_buhid = pest::unicode::buhid
u_canadian_aboriginal = pest::unicode::canadian_aboriginal
u_carian = pest::unicode::carian
u_caucasian_albanian = pest::unicode::caucasian_albanian
u_chakma = pest::unicode::chakma
u_cham = pest::unicode::cham
u_cherokee = pest::unicode::cherokee
u_chorasmian = pest::unicode::chorasmian
u_common = pest::unicode::common
u_coptic = pest::unicode::coptic
u_cuneiform = pest::unicode::cuneiform
u_cypriot = pest::unicode::cypriot
u_cypro_minoan = pest::unicode::cypro_minoan
u_cyrillic = pest::unicode::cyrillic
u_deseret = pest::unicode::deseret
u_devanagari = pest::unicode::devanagari
u_dives_akuru = pest::unicode::dives_akuru
u_dogra = pest::unicode::dogra
u_duployan = pest::unicode::duployan
u_egyptian_hieroglyphs = pest::unicode::egyptian_hieroglyphs
u_elbasan = pest::unicode::elbasan
u_elymaic = pest::unicode::elymaic
u_ethiopic = pest::unicode::ethiopic
u_georgian = pest::unicode::georgian
u_glagolitic = pest::unicode::glagolitic
u_gothic = pest::unicode::gothic
u_grantha = pest::unicode::grantha
u_greek = pest::unicode::greek
u_gujarati = pest::unicode::gujarati
u_gunjala_gondi = pest::unicode::gunjala_gondi
u_gurmukhi = pest::unicode::gurmukhi
u_han = pest::unicode::han
u_hangul = pest::unicode::hangul
u_hanifi_rohingya = pest::unicode::hanifi_rohingya
u_hanunoo = pest::unicode::hanunoo
u_hatran = pest::unicode::hatran
u_hebrew = pest::unicode::hebrew
u_hiragana = pest::unicode::hiragana
u_imperial_aramaic = pest::unicode::imperial_aramaic
u_inherited = pest::unicode::inherited
u_inscriptional_pahlavi = pest::unicode::inscriptional_pahlavi
u_inscriptional_parthian = pest::unicode::inscriptional_parthian
u_javanese = pest::unicode::javanese
u_kaithi = pest::unicode::kaithi
u_kannada = pest::unicode::kannada
u_katakana = pest::unicode::katakana
u_kawi = pest::unicode::kawi
u_kayah_li = pest::unicode::kayah_li
u_kharoshthi = pest::unicode::kharoshthi
u_khitan_small_script = pest::unicode::khitan_small_script
u_khmer = pest::unicode::khmer
u_khojki = pest::unicode::khojki
u_khudawadi = pest::unicode::khudawadi
u_lao = pest::unicode::lao
u_latin = pest::unicode::latin
u_lepcha = pest::unicode::lepcha
u_limbu = pest::unicode::limbu
u_linear_a = pest::unicode::linear_a
u_linear_b = pest::unicode::linear_b
u_lisu = pest::unicode::lisu
u_lycian = pest::unicode::lycian
u_lydian = pest::unicode::lydian
u_mahajani = pest::unicode::mahajani
u_makasar = pest::unicode::makasar
u_malayalam = pest::unicode::malayalam
u_mandaic = pest::unicode::mandaic
u_manichaean = pest::unicode::manichaean
u_marchen = pest::unicode::marchen
u_masaram_gondi = pest::unicode::masaram_gondi
u_medefaidrin = pest::unicode::medefaidrin
u_meetei_mayek = pest::unicode::meetei_mayek
u_mende_kikakui = pest::unicode::mende_kikakui
u_meroitic_cursive = pest::unicode::meroitic_cursive
u_meroitic_hieroglyphs = pest::unicode::meroitic_hieroglyphs
u_miao = pest::unicode::miao
u_modi = pest::unicode::modi
u_mongolian = pest::unicode::mongolian
u_mro = pest::unicode::mro
u_multani = pest::unicode::multani
u_myanmar = pest::unicode::myanmar
u_nabataean = pest::unicode::nabataean
u_nag_mundari = pest::unicode::nag_mundari
u_nandinagari = pest::unicode::nandinagari
u_new_tai_lue = pest::unicode::new_tai_lue
u_newa = pest::unicode::newa
u_nko = pest::unicode::nko
u_nushu = pest::unicode::nushu
u_nyiakeng_puachue_hmong = pest::unicode::nyiakeng_puachue_hmong
u_ogham = pest::unicode::ogham
u_ol_chiki = pest::unicode::ol_chiki
u_old_hungarian = pest::unicode::old_hungarian
u_old_italic = pest::unicode::old_italic
u_old_north_arabian = pest::unicode::old_north_arabian
u_old_permic = pest::unicode::old_permic
u_old_persian = pest::unicode::old_persian
u_old_sogdian = pest::unicode::old_sogdian
u_old_south_arabian = pest::unicode::old_south_arabian
u_old_turkic = pest::unicode::old_turkic
u_old_uyghur = pest::unicode::old_uyghur
u_oriya = pest::unicode::oriya
u_osage = pest::unicode::osage
u_osmanya = pest::unicode::osmanya
u_pahawh_hmong = pest::unicode::pahawh_hmong
u_palmyrene = pest::unicode::palmyrene
u_pau_cin_hau = pest::unicode::pau_cin_hau
u_phags_pa = pest::unicode::phags_pa
u_phoenician = pest::unicode::phoenician
u_psalter_pahlavi = pest::unicode::psalter_pahlavi
u_rejang = pest::unicode::rejang
u_runic = pest::unicode::runic
u_samaritan = pest::unicode::samaritan
u_saurashtra = pest::unicode::saurashtra
u_sharada = pest::unicode::sharada
u_shavian = pest::unicode::shavian
u_siddham = pest::unicode::siddham
u_signwriting = pest::unicode::signwriting
u_sinhala = pest::unicode::sinhala
u_sogdian = pest::unicode::sogdian
u_sora_sompeng = pest::unicode::sora_sompeng
u_soyombo = pest::unicode::soyombo
u_sundanese = pest::unicode::sundanese
u_syloti_nagri = pest::unicode::syloti_nagri
u_syriac = pest::unicode::syriac
u_tagalog = pest::unicode::tagalog
u_tagbanwa = pest::unicode::tagbanwa
u_tai_le = pest::unicode::tai_le
u_tai_tham = pest::unicode::tai_tham
u_tai_viet = pest::unicode::tai_viet
u_takri = pest::unicode::takri
u_tamil = pest::unicode::tamil
u_tangsa = pest::unicode::tangsa
u_tangut = pest::unicode::tangut
u_telugu = pest::unicode::telugu
u_thaana = pest::unicode::thaana
u_thai = pest::unicode::thai
u_tibetan = pest::unicode::tibetan
u_tifinagh = pest::unicode::tifinagh
u_tirhuta = pest::unicode::tirhuta
u_toto = pest::unicode::toto
u_ugaritic = pest::unicode::ugaritic
u_vai = pest::unicode::vai
u_vithkuqi = pest::unicode::vithkuqi
u_wancho = pest::unicode::wancho
u_warang_citi = pest::unicode::warang_citi
u_yezidi = pest::unicode::yezidi
u_yi = pest::unicode::yi
u_zanabazar_square = pest::unicode::zanabazar_square
word = pest::unicode::xid_start - pest::unicode::xid_continue*
spot = pest::unicode::line_separator | !pest::unicode::alphabetic - pest::unicode::math | pest::unicode::cyrillic{2}
"##]
    pub struct P;
}
use named::{rules, Rule};
fn verdict<N: TypedNode<'static, Rule>>(f: fn(char) -> bool, s: &'static str) {
    let want = char_at(s.as_bytes(), 0).filter(|x| char::from_u32(x.0).map_or(false, f)).map(|x| x.1);
    ck(N::check_partial(s).ok().map(|p| p.pos()) == want, "the built-in rule differs from the property of its name");
    cover(want.is_some() as u32);
}
macro_rules! grammar_check { ($($n:ident $r:ident)*) => {
    fn check_rule(k: usize, s: &'static str) {
        let mut i = 0;
        $(if k == i { return verdict::<rules::$r<'static>>(table::$n, s) } i += 1;)*
        let _ = i;
    }
} }
grammar_check! {
    ALPHABETIC u_alphabetic BIDI_CONTROL u_bidi_control CASE_IGNORABLE u_case_ignorable CASED u_cased CHANGES_WHEN_CASEFOLDED u_changes_when_casefolded CHANGES_WHEN_CASEMAPPED u_changes_when_casemapped
    CHANGES_WHEN_LOWERCASED u_changes_when_lowercased CHANGES_WHEN_TITLECASED u_changes_when_titlecased CHANGES_WHEN_UPPERCASED u_changes_when_uppercased DASH u_dash DEFAULT_IGNORABLE_CODE_POINT u_default_ignorable_code_point DEPRECATED u_deprecated
    DIACRITIC u_diacritic EMOJI u_emoji EMOJI_COMPONENT u_emoji_component EMOJI_MODIFIER u_emoji_modifier EMOJI_MODIFIER_BASE u_emoji_modifier_base EMOJI_PRESENTATION u_emoji_presentation
    EXTENDED_PICTOGRAPHIC u_extended_pictographic EXTENDER u_extender GRAPHEME_BASE u_grapheme_base GRAPHEME_EXTEND u_grapheme_extend GRAPHEME_LINK u_grapheme_link HEX_DIGIT u_hex_digit
    HYPHEN u_hyphen IDS_BINARY_OPERATOR u_ids_binary_operator IDS_TRINARY_OPERATOR u_ids_trinary_operator ID_CONTINUE u_id_continue ID_START u_id_start IDEOGRAPHIC u_ideographic
    JOIN_CONTROL u_join_control LOGICAL_ORDER_EXCEPTION u_logical_order_exception LOWERCASE u_lowercase MATH u_math NONCHARACTER_CODE_POINT u_noncharacter_code_point OTHER_ALPHABETIC u_other_alphabetic
    OTHER_DEFAULT_IGNORABLE_CODE_POINT u_other_default_ignorable_code_point OTHER_GRAPHEME_EXTEND u_other_grapheme_extend OTHER_ID_CONTINUE u_other_id_continue OTHER_ID_START u_other_id_start OTHER_LOWERCASE u_other_lowercase OTHER_MATH u_other_math
    OTHER_UPPERCASE u_other_uppercase PATTERN_SYNTAX u_pattern_syntax PATTERN_WHITE_SPACE u_pattern_white_space PREPENDED_CONCATENATION_MARK u_prepended_concatenation_mark QUOTATION_MARK u_quotation_mark RADICAL u_radical
    REGIONAL_INDICATOR u_regional_indicator SENTENCE_TERMINAL u_sentence_terminal SOFT_DOTTED u_soft_dotted TERMINAL_PUNCTUATION u_terminal_punctuation UNIFIED_IDEOGRAPH u_unified_ideograph UPPERCASE u_uppercase
    VARIATION_SELECTOR u_variation_selector WHITE_SPACE u_white_space XID_CONTINUE u_xid_continue XID_START u_xid_start CASED_LETTER u_cased_letter CLOSE_PUNCTUATION u_close_punctuation
    CONNECTOR_PUNCTUATION u_connector_punctuation CONTROL u_control CURRENCY_SYMBOL u_currency_symbol DASH_PUNCTUATION u_dash_punctuation DECIMAL_NUMBER u_decimal_number ENCLOSING_MARK u_enclosing_mark
    FINAL_PUNCTUATION u_final_punctuation FORMAT u_format INITIAL_PUNCTUATION u_initial_punctuation LETTER u_letter LETTER_NUMBER u_letter_number LINE_SEPARATOR u_line_separator
    LOWERCASE_LETTER u_lowercase_letter MARK u_mark MATH_SYMBOL u_math_symbol MODIFIER_LETTER u_modifier_letter MODIFIER_SYMBOL u_modifier_symbol NONSPACING_MARK u_nonspacing_mark
    NUMBER u_number OPEN_PUNCTUATION u_open_punctuation OTHER u_other OTHER_LETTER u_other_letter OTHER_NUMBER u_other_number OTHER_PUNCTUATION u_other_punctuation
    OTHER_SYMBOL u_other_symbol PARAGRAPH_SEPARATOR u_paragraph_separator PRIVATE_USE u_private_use PUNCTUATION u_punctuation SEPARATOR u_separator SPACE_SEPARATOR u_space_separator
    SPACING_MARK u_spacing_mark SURROGATE u_surrogate SYMBOL u_symbol TITLECASE_LETTER u_titlecase_letter UNASSIGNED u_unassigned UPPERCASE_LETTER u_uppercase_letter
    ADLAM u_adlam AHOM u_ahom ANATOLIAN_HIEROGLYPHS u_anatolian_hieroglyphs ARABIC u_arabic ARMENIAN u_armenian AVESTAN u_avestan
    BALINESE u_balinese BAMUM u_bamum BASSA_VAH u_bassa_vah BATAK u_batak BENGALI u_bengali BHAIKSUKI u_bhaiksuki
    BOPOMOFO u_bopomofo BRAHMI u_brahmi BRAILLE u_braille BUGINESE u_buginese BUHID u_buhid CANADIAN_ABORIGINAL u_canadian_aboriginal
    CARIAN u_carian CAUCASIAN_ALBANIAN u_caucasian_albanian CHAKMA u_chakma CHAM u_cham CHEROKEE u_cherokee CHORASMIAN u_chorasmian
    COMMON u_common COPTIC u_coptic CUNEIFORM u_cuneiform CYPRIOT u_cypriot CYPRO_MINOAN u_cypro_minoan CYRILLIC u_cyrillic
    DESERET u_deseret DEVANAGARI u_devanagari DIVES_AKURU u_dives_akuru DOGRA u_dogra DUPLOYAN u_duployan EGYPTIAN_HIEROGLYPHS u_egyptian_hieroglyphs
    ELBASAN u_elbasan ELYMAIC u_elymaic ETHIOPIC u_ethiopic GEORGIAN u_georgian GLAGOLITIC u_glagolitic GOTHIC u_gothic
    GRANTHA u_grantha GREEK u_greek GUJARATI u_gujarati GUNJALA_GONDI u_gunjala_gondi GURMUKHI u_gurmukhi HAN u_han
    HANGUL u_hangul HANIFI_ROHINGYA u_hanifi_rohingya HANUNOO u_hanunoo HATRAN u_hatran HEBREW u_hebrew HIRAGANA u_hiragana
    IMPERIAL_ARAMAIC u_imperial_aramaic INHERITED u_inherited INSCRIPTIONAL_PAHLAVI u_inscriptional_pahlavi INSCRIPTIONAL_PARTHIAN u_inscriptional_parthian JAVANESE u_javanese KAITHI u_kaithi
    KANNADA u_kannada KATAKANA u_katakana KAWI u_kawi KAYAH_LI u_kayah_li KHAROSHTHI u_kharoshthi KHITAN_SMALL_SCRIPT u_khitan_small_script
    KHMER u_khmer KHOJKI u_khojki KHUDAWADI u_khudawadi LAO u_lao LATIN u_latin LEPCHA u_lepcha
    LIMBU u_limbu LINEAR_A u_linear_a LINEAR_B u_linear_b LISU u_lisu LYCIAN u_lycian LYDIAN u_lydian
    MAHAJANI u_mahajani MAKASAR u_makasar MALAYALAM u_malayalam MANDAIC u_mandaic MANICHAEAN u_manichaean MARCHEN u_marchen
    MASARAM_GONDI u_masaram_gondi MEDEFAIDRIN u_medefaidrin MEETEI_MAYEK u_meetei_mayek MENDE_KIKAKUI u_mende_kikakui MEROITIC_CURSIVE u_meroitic_cursive MEROITIC_HIEROGLYPHS u_meroitic_hieroglyphs
    MIAO u_miao MODI u_modi MONGOLIAN u_mongolian MRO u_mro MULTANI u_multani MYANMAR u_myanmar
    NABATAEAN u_nabataean NAG_MUNDARI u_nag_mundari NANDINAGARI u_nandinagari NEW_TAI_LUE u_new_tai_lue NEWA u_newa NKO u_nko
    NUSHU u_nushu NYIAKENG_PUACHUE_HMONG u_nyiakeng_puachue_hmong OGHAM u_ogham OL_CHIKI u_ol_chiki OLD_HUNGARIAN u_old_hungarian OLD_ITALIC u_old_italic
    OLD_NORTH_ARABIAN u_old_north_arabian OLD_PERMIC u_old_permic OLD_PERSIAN u_old_persian OLD_SOGDIAN u_old_sogdian OLD_SOUTH_ARABIAN u_old_south_arabian OLD_TURKIC u_old_turkic
    OLD_UYGHUR u_old_uyghur ORIYA u_oriya OSAGE u_osage OSMANYA u_osmanya PAHAWH_HMONG u_pahawh_hmong PALMYRENE u_palmyrene
    PAU_CIN_HAU u_pau_cin_hau PHAGS_PA u_phags_pa PHOENICIAN u_phoenician PSALTER_PAHLAVI u_psalter_pahlavi REJANG u_rejang RUNIC u_runic
    SAMARITAN u_samaritan SAURASHTRA u_saurashtra SHARADA u_sharada SHAVIAN u_shavian SIDDHAM u_siddham SIGNWRITING u_signwriting
    SINHALA u_sinhala SOGDIAN u_sogdian SORA_SOMPENG u_sora_sompeng SOYOMBO u_soyombo SUNDANESE u_sundanese SYLOTI_NAGRI u_syloti_nagri
    SYRIAC u_syriac TAGALOG u_tagalog TAGBANWA u_tagbanwa TAI_LE u_tai_le TAI_THAM u_tai_tham TAI_VIET u_tai_viet
    TAKRI u_takri TAMIL u_tamil TANGSA u_tangsa TANGUT u_tangut TELUGU u_telugu THAANA u_thaana
    THAI u_thai TIBETAN u_tibetan TIFINAGH u_tifinagh TIRHUTA u_tirhuta TOTO u_toto UGARITIC u_ugaritic
    VAI u_vai VITHKUQI u_vithkuqi WANCHO u_wancho WARANG_CITI u_warang_citi YEZIDI u_yezidi YI u_yi
    ZANABAZAR_SQUARE u_zanabazar_square
}
entry!(h_rule, { check_rule(choose(NAMES.len()), text(1, 4)) });
// Properties in larger rules.
macro_rules! prop { ($n:ident) => { C(|c| char::from_u32(c).map_or(false, table::$n)) } }
entry!(h_word, {
    let s = text_upto(param(0), 4);
    let (want, got) = if flip() {
        (hrt::spec::M::new(&NOG, s).run(&Seq(&[(T::N, prop!(XID_START)), (T::N, Rep(&prop!(XID_CONTINUE), 0, INF, T::N))]), 0),
         <rules::word<'static> as TypedNode<'static, Rule>>::try_parse_partial(s).ok().map(|x| x.0.pos()))
    } else {
        (hrt::spec::M::new(&NOG, s).run(&Alt(&[prop!(LINE_SEPARATOR), Seq(&[(T::N, Neg(&prop!(ALPHABETIC))), (T::N, prop!(MATH))]), Rep(&prop!(CYRILLIC), 2, 2, T::N)]), 0),
         <rules::spot<'static> as TypedNode<'static, Rule>>::try_parse_partial(s).ok().map(|x| x.0.pos()))
    };
    ck(got == want, "a rule made of properties");
    cover(want.is_some() as u32);
    trace(want.map_or(999, |x| x as u64));
});
harnesses!(h_node, h_names, h_rule, h_word);

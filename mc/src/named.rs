//! Generated by tools/make_unicode.py: every public named entry and the character its name stands for.
use chanoma::characters_set::prelude::*;
use chanoma::{Corr, Item};

pub struct Named {
    pub table: &'static str,
    pub name: &'static str,
    pub from: char,
    pub items: fn() -> Vec<Item>,
}

pub fn named() -> Vec<Named> {
    let mut v = Vec::new();
    macro_rules! n { ($t:literal, $e:expr, $c:literal) => { v.push(Named { table: $t, name: stringify!($e), from: $c, items: || $e.items() }) } }
    n!("Alphabets", Alphabets::CAPITAL_LETTER_A, '\u{ff21}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_B, '\u{ff22}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_C, '\u{ff23}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_D, '\u{ff24}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_E, '\u{ff25}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_F, '\u{ff26}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_G, '\u{ff27}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_H, '\u{ff28}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_I, '\u{ff29}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_J, '\u{ff2a}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_K, '\u{ff2b}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_L, '\u{ff2c}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_M, '\u{ff2d}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_N, '\u{ff2e}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_O, '\u{ff2f}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_P, '\u{ff30}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_Q, '\u{ff31}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_R, '\u{ff32}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_S, '\u{ff33}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_T, '\u{ff34}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_U, '\u{ff35}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_V, '\u{ff36}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_W, '\u{ff37}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_X, '\u{ff38}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_Y, '\u{ff39}');
    n!("Alphabets", Alphabets::CAPITAL_LETTER_Z, '\u{ff3a}');
    n!("Alphabets", Alphabets::SMALL_LETTER_A, '\u{ff41}');
    n!("Alphabets", Alphabets::SMALL_LETTER_B, '\u{ff42}');
    n!("Alphabets", Alphabets::SMALL_LETTER_C, '\u{ff43}');
    n!("Alphabets", Alphabets::SMALL_LETTER_D, '\u{ff44}');
    n!("Alphabets", Alphabets::SMALL_LETTER_E, '\u{ff45}');
    n!("Alphabets", Alphabets::SMALL_LETTER_F, '\u{ff46}');
    n!("Alphabets", Alphabets::SMALL_LETTER_G, '\u{ff47}');
    n!("Alphabets", Alphabets::SMALL_LETTER_H, '\u{ff48}');
    n!("Alphabets", Alphabets::SMALL_LETTER_I, '\u{ff49}');
    n!("Alphabets", Alphabets::SMALL_LETTER_J, '\u{ff4a}');
    n!("Alphabets", Alphabets::SMALL_LETTER_K, '\u{ff4b}');
    n!("Alphabets", Alphabets::SMALL_LETTER_L, '\u{ff4c}');
    n!("Alphabets", Alphabets::SMALL_LETTER_M, '\u{ff4d}');
    n!("Alphabets", Alphabets::SMALL_LETTER_N, '\u{ff4e}');
    n!("Alphabets", Alphabets::SMALL_LETTER_O, '\u{ff4f}');
    n!("Alphabets", Alphabets::SMALL_LETTER_P, '\u{ff50}');
    n!("Alphabets", Alphabets::SMALL_LETTER_Q, '\u{ff51}');
    n!("Alphabets", Alphabets::SMALL_LETTER_R, '\u{ff52}');
    n!("Alphabets", Alphabets::SMALL_LETTER_S, '\u{ff53}');
    n!("Alphabets", Alphabets::SMALL_LETTER_T, '\u{ff54}');
    n!("Alphabets", Alphabets::SMALL_LETTER_U, '\u{ff55}');
    n!("Alphabets", Alphabets::SMALL_LETTER_V, '\u{ff56}');
    n!("Alphabets", Alphabets::SMALL_LETTER_W, '\u{ff57}');
    n!("Alphabets", Alphabets::SMALL_LETTER_X, '\u{ff58}');
    n!("Alphabets", Alphabets::SMALL_LETTER_Y, '\u{ff59}');
    n!("Alphabets", Alphabets::SMALL_LETTER_Z, '\u{ff5a}');
    n!("Digits", Digits::DIGIT_ZERO, '\u{ff10}');
    n!("Digits", Digits::DIGIT_ONE, '\u{ff11}');
    n!("Digits", Digits::DIGIT_TWO, '\u{ff12}');
    n!("Digits", Digits::DIGIT_THREE, '\u{ff13}');
    n!("Digits", Digits::DIGIT_FOUR, '\u{ff14}');
    n!("Digits", Digits::DIGIT_FIVE, '\u{ff15}');
    n!("Digits", Digits::DIGIT_SIX, '\u{ff16}');
    n!("Digits", Digits::DIGIT_SEVEN, '\u{ff17}');
    n!("Digits", Digits::DIGIT_EIGHT, '\u{ff18}');
    n!("Digits", Digits::DIGIT_NINE, '\u{ff19}');
    n!("Punctuations", Punctuations::EXCLAMATION_MARK, '\u{ff01}');
    n!("Punctuations", Punctuations::QUOTATION_MARK, '\u{201d}');
    n!("Punctuations", Punctuations::SHARP, '\u{ff03}');
    n!("Punctuations", Punctuations::DOLLER_SIGN, '\u{ff04}');
    n!("Punctuations", Punctuations::PERCENT_SIGN, '\u{ff05}');
    n!("Punctuations", Punctuations::AMPERSAND, '\u{ff06}');
    n!("Punctuations", Punctuations::APOSTROPHE, '\u{2019}');
    n!("Punctuations", Punctuations::LEFT_PARENTHESIS, '\u{ff08}');
    n!("Punctuations", Punctuations::RIGHT_PARENTHESIS, '\u{ff09}');
    n!("Punctuations", Punctuations::ASTERISK, '\u{ff0a}');
    n!("Punctuations", Punctuations::PLUS_SIGN, '\u{ff0b}');
    n!("Punctuations", Punctuations::COMMA, '\u{ff0c}');
    n!("Punctuations", Punctuations::HYPHEN_MINUS, '\u{ff0d}');
    n!("Punctuations", Punctuations::FULL_STOP, '\u{ff0e}');
    n!("Punctuations", Punctuations::SLASH, '\u{ff0f}');
    n!("Punctuations", Punctuations::COLON, '\u{ff1a}');
    n!("Punctuations", Punctuations::SEMI_COLON, '\u{ff1b}');
    n!("Punctuations", Punctuations::LESS_THAN_SIGN, '\u{ff1c}');
    n!("Punctuations", Punctuations::EQUAL_SIGN, '\u{ff1d}');
    n!("Punctuations", Punctuations::GREATER_THAN_SIGN, '\u{ff1e}');
    n!("Punctuations", Punctuations::QUESTION_MARK, '\u{ff1f}');
    n!("Punctuations", Punctuations::AT_SIGN, '\u{ff20}');
    n!("Punctuations", Punctuations::LEFT_SQUARE_BRACKET, '\u{ff3b}');
    n!("Punctuations", Punctuations::BACKSLASH, '\u{ff3c}');
    n!("Punctuations", Punctuations::YEN_SIGN, '\u{ffe5}');
    n!("Punctuations", Punctuations::RIGHT_SQUARE_BRACKET, '\u{ff3d}');
    n!("Punctuations", Punctuations::CIRCUMFLEX_ACCENT, '\u{ff3e}');
    n!("Punctuations", Punctuations::LOW_LINE, '\u{ff3f}');
    n!("Punctuations", Punctuations::GRAVE_ACCENT, '\u{ff40}');
    n!("Punctuations", Punctuations::LEFT_CURLY_BRACKET, '\u{ff5b}');
    n!("Punctuations", Punctuations::VERTICAL_BAR, '\u{ff5c}');
    n!("Punctuations", Punctuations::RIGHT_CURLY_BRACKET, '\u{ff5d}');
    n!("Punctuations", Punctuations::TILDE, '\u{301c}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_A, '\u{ff67}');
    n!("Kanas", Kanas::KATAKANA_LETTER_A, '\u{ff71}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_I, '\u{ff68}');
    n!("Kanas", Kanas::KATAKANA_LETTER_I, '\u{ff72}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_U, '\u{ff69}');
    n!("Kanas", Kanas::KATAKANA_LETTER_U, '\u{ff73}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_E, '\u{ff6a}');
    n!("Kanas", Kanas::KATAKANA_LETTER_E, '\u{ff74}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_O, '\u{ff6b}');
    n!("Kanas", Kanas::KATAKANA_LETTER_O, '\u{ff75}');
    n!("Kanas", Kanas::KATAKANA_LETTER_KA, '\u{ff76}');
    n!("Kanas", Kanas::KATAKANA_LETTER_KI, '\u{ff77}');
    n!("Kanas", Kanas::KATAKANA_LETTER_KU, '\u{ff78}');
    n!("Kanas", Kanas::KATAKANA_LETTER_KE, '\u{ff79}');
    n!("Kanas", Kanas::KATAKANA_LETTER_KO, '\u{ff7a}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SA, '\u{ff7b}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SI, '\u{ff7c}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SU, '\u{ff7d}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SE, '\u{ff7e}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SO, '\u{ff7f}');
    n!("Kanas", Kanas::KATAKANA_LETTER_TA, '\u{ff80}');
    n!("Kanas", Kanas::KATAKANA_LETTER_TI, '\u{ff81}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_TU, '\u{ff6f}');
    n!("Kanas", Kanas::KATAKANA_LETTER_TU, '\u{ff82}');
    n!("Kanas", Kanas::KATAKANA_LETTER_TE, '\u{ff83}');
    n!("Kanas", Kanas::KATAKANA_LETTER_TO, '\u{ff84}');
    n!("Kanas", Kanas::KATAKANA_LETTER_NA, '\u{ff85}');
    n!("Kanas", Kanas::KATAKANA_LETTER_NI, '\u{ff86}');
    n!("Kanas", Kanas::KATAKANA_LETTER_NU, '\u{ff87}');
    n!("Kanas", Kanas::KATAKANA_LETTER_NE, '\u{ff88}');
    n!("Kanas", Kanas::KATAKANA_LETTER_NO, '\u{ff89}');
    n!("Kanas", Kanas::KATAKANA_LETTER_HA, '\u{ff8a}');
    n!("Kanas", Kanas::KATAKANA_LETTER_HI, '\u{ff8b}');
    n!("Kanas", Kanas::KATAKANA_LETTER_HU, '\u{ff8c}');
    n!("Kanas", Kanas::KATAKANA_LETTER_HE, '\u{ff8d}');
    n!("Kanas", Kanas::KATAKANA_LETTER_HO, '\u{ff8e}');
    n!("Kanas", Kanas::KATAKANA_LETTER_MA, '\u{ff8f}');
    n!("Kanas", Kanas::KATAKANA_LETTER_MI, '\u{ff90}');
    n!("Kanas", Kanas::KATAKANA_LETTER_MU, '\u{ff91}');
    n!("Kanas", Kanas::KATAKANA_LETTER_ME, '\u{ff92}');
    n!("Kanas", Kanas::KATAKANA_LETTER_MO, '\u{ff93}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_YA, '\u{ff6c}');
    n!("Kanas", Kanas::KATAKANA_LETTER_YA, '\u{ff94}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_YU, '\u{ff6d}');
    n!("Kanas", Kanas::KATAKANA_LETTER_YU, '\u{ff95}');
    n!("Kanas", Kanas::KATAKANA_LETTER_SMALL_YO, '\u{ff6e}');
    n!("Kanas", Kanas::KATAKANA_LETTER_YO, '\u{ff96}');
    n!("Kanas", Kanas::KATAKANA_LETTER_RA, '\u{ff97}');
    n!("Kanas", Kanas::KATAKANA_LETTER_RI, '\u{ff98}');
    n!("Kanas", Kanas::KATAKANA_LETTER_RU, '\u{ff99}');
    n!("Kanas", Kanas::KATAKANA_LETTER_RE, '\u{ff9a}');
    n!("Kanas", Kanas::KATAKANA_LETTER_RO, '\u{ff9b}');
    n!("Kanas", Kanas::KATAKANA_LETTER_WA, '\u{ff9c}');
    n!("Kanas", Kanas::KATAKANA_LETTER_WO, '\u{ff66}');
    n!("Kanas", Kanas::KATAKANA_LETTER_N, '\u{ff9d}');
    n!("Kanas", Kanas::IDEOGRAPHIC_COMMA, '\u{ff64}');
    n!("Kanas", Kanas::IDEOGRAPHIC_FULL_STOP, '\u{ff61}');
    n!("Kanas", Kanas::KATAKANA_MIDDLE_DOT, '\u{ff65}');
    n!("Kanas", Kanas::LEFT_CORNER_BRACKET, '\u{ff62}');
    n!("Kanas", Kanas::RIGHT_CORNER_BRACKET, '\u{ff63}');
    n!("Kanas", Kanas::IDEOGRAPHIC_SPACE, '\u{3000}');
    n!("CjkCompatibilities", SQUARE_APAATO, '\u{3300}');
    n!("CjkCompatibilities", SQUARE_ARUHUA, '\u{3301}');
    n!("CjkCompatibilities", SQUARE_ANPEA, '\u{3302}');
    n!("CjkCompatibilities", SQUARE_AARU, '\u{3303}');
    n!("CjkCompatibilities", SQUARE_ININGU, '\u{3304}');
    n!("CjkCompatibilities", SQUARE_INTI, '\u{3305}');
    n!("CjkCompatibilities", SQUARE_UON, '\u{3306}');
    n!("CjkCompatibilities", SQUARE_ESUKUUDO, '\u{3307}');
    n!("CjkCompatibilities", SQUARE_EEKAA, '\u{3308}');
    n!("CjkCompatibilities", SQUARE_ONSU, '\u{3309}');
    n!("CjkCompatibilities", SQUARE_OOMU, '\u{330a}');
    n!("CjkCompatibilities", SQUARE_KAIRI, '\u{330b}');
    n!("CjkCompatibilities", SQUARE_KARATTO, '\u{330c}');
    n!("CjkCompatibilities", SQUARE_KARORII, '\u{330d}');
    n!("CjkCompatibilities", SQUARE_GARON, '\u{330e}');
    n!("CjkCompatibilities", SQUARE_GANMA, '\u{330f}');
    n!("CjkCompatibilities", SQUARE_GIGA, '\u{3310}');
    n!("CjkCompatibilities", SQUARE_GINII, '\u{3311}');
    n!("CjkCompatibilities", SQUARE_KYURII, '\u{3312}');
    n!("CjkCompatibilities", SQUARE_GIRUDAA, '\u{3313}');
    n!("CjkCompatibilities", SQUARE_KIRO, '\u{3314}');
    n!("CjkCompatibilities", SQUARE_KIROGURAMU, '\u{3315}');
    n!("CjkCompatibilities", SQUARE_KIROMEETORU, '\u{3316}');
    n!("CjkCompatibilities", SQUARE_KIROWATTO, '\u{3317}');
    n!("CjkCompatibilities", SQUARE_GURAMU, '\u{3318}');
    n!("CjkCompatibilities", SQUARE_GURAMUTON, '\u{3319}');
    n!("CjkCompatibilities", SQUARE_KURUZEIRO, '\u{331a}');
    n!("CjkCompatibilities", SQUARE_KUROONE, '\u{331b}');
    n!("CjkCompatibilities", SQUARE_KEESU, '\u{331c}');
    n!("CjkCompatibilities", SQUARE_KORUNA, '\u{331d}');
    n!("CjkCompatibilities", SQUARE_KOOPO, '\u{331e}');
    n!("CjkCompatibilities", SQUARE_SAIKURU, '\u{331f}');
    n!("CjkCompatibilities", SQUARE_SANTIIMU, '\u{3320}');
    n!("CjkCompatibilities", SQUARE_SIRINGU, '\u{3321}');
    n!("CjkCompatibilities", SQUARE_SENTI, '\u{3322}');
    n!("CjkCompatibilities", SQUARE_SENTO, '\u{3323}');
    n!("CjkCompatibilities", SQUARE_DAASU, '\u{3324}');
    n!("CjkCompatibilities", SQUARE_DESI, '\u{3325}');
    n!("CjkCompatibilities", SQUARE_DORU, '\u{3326}');
    n!("CjkCompatibilities", SQUARE_TON, '\u{3327}');
    n!("CjkCompatibilities", SQUARE_NANO, '\u{3328}');
    n!("CjkCompatibilities", SQUARE_NOTTO, '\u{3329}');
    n!("CjkCompatibilities", SQUARE_HAITU, '\u{332a}');
    n!("CjkCompatibilities", SQUARE_PAASENTO, '\u{332b}');
    n!("CjkCompatibilities", SQUARE_PAATU, '\u{332c}');
    n!("CjkCompatibilities", SQUARE_BAARERU, '\u{332d}');
    n!("CjkCompatibilities", SQUARE_PIASUTORU, '\u{332e}');
    n!("CjkCompatibilities", SQUARE_PIKURU, '\u{332f}');
    n!("CjkCompatibilities", SQUARE_PIKO, '\u{3330}');
    n!("CjkCompatibilities", SQUARE_BIRU, '\u{3331}');
    n!("CjkCompatibilities", SQUARE_HUARADDO, '\u{3332}');
    n!("CjkCompatibilities", SQUARE_HUIITO, '\u{3333}');
    n!("CjkCompatibilities", SQUARE_BUSSYERU, '\u{3334}');
    n!("CjkCompatibilities", SQUARE_HURAN, '\u{3335}');
    n!("CjkCompatibilities", SQUARE_HEKUTAARU, '\u{3336}');
    n!("CjkCompatibilities", SQUARE_PESO, '\u{3337}');
    n!("CjkCompatibilities", SQUARE_PENIHI, '\u{3338}');
    n!("CjkCompatibilities", SQUARE_HERUTU, '\u{3339}');
    n!("CjkCompatibilities", SQUARE_PENSU, '\u{333a}');
    n!("CjkCompatibilities", SQUARE_PEEZI, '\u{333b}');
    n!("CjkCompatibilities", SQUARE_BEETA, '\u{333c}');
    n!("CjkCompatibilities", SQUARE_POINTO, '\u{333d}');
    n!("CjkCompatibilities", SQUARE_BORUTO, '\u{333e}');
    n!("CjkCompatibilities", SQUARE_HON, '\u{333f}');
    n!("CjkCompatibilities", SQUARE_PONDO, '\u{3340}');
    n!("CjkCompatibilities", SQUARE_HOORU, '\u{3341}');
    n!("CjkCompatibilities", SQUARE_HOON, '\u{3342}');
    n!("CjkCompatibilities", SQUARE_MAIKURO, '\u{3343}');
    n!("CjkCompatibilities", SQUARE_MAIRU, '\u{3344}');
    n!("CjkCompatibilities", SQUARE_MAHHA, '\u{3345}');
    n!("CjkCompatibilities", SQUARE_MARUKU, '\u{3346}');
    n!("CjkCompatibilities", SQUARE_MANSYON, '\u{3347}');
    n!("CjkCompatibilities", SQUARE_MIKURON, '\u{3348}');
    n!("CjkCompatibilities", SQUARE_MIRI, '\u{3349}');
    n!("CjkCompatibilities", SQUARE_MIRIBAARU, '\u{334a}');
    n!("CjkCompatibilities", SQUARE_MEGA, '\u{334b}');
    n!("CjkCompatibilities", SQUARE_MEGATON, '\u{334c}');
    n!("CjkCompatibilities", SQUARE_MEETORU, '\u{334d}');
    n!("CjkCompatibilities", SQUARE_YAADO, '\u{334e}');
    n!("CjkCompatibilities", SQUARE_YAARU, '\u{334f}');
    n!("CjkCompatibilities", SQUARE_YUAN, '\u{3350}');
    n!("CjkCompatibilities", SQUARE_RITTORU, '\u{3351}');
    n!("CjkCompatibilities", SQUARE_RIRA, '\u{3352}');
    n!("CjkCompatibilities", SQUARE_RUPII, '\u{3353}');
    n!("CjkCompatibilities", SQUARE_RUUBURU, '\u{3354}');
    n!("CjkCompatibilities", SQUARE_REMU, '\u{3355}');
    n!("CjkCompatibilities", SQUARE_RENTOGEN, '\u{3356}');
    n!("CjkCompatibilities", SQUARE_WATTO, '\u{3357}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO, '\u{3358}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE, '\u{3359}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO, '\u{335a}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE, '\u{335b}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR, '\u{335c}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE, '\u{335d}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX, '\u{335e}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN, '\u{335f}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT, '\u{3360}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE, '\u{3361}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN, '\u{3362}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN, '\u{3363}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE, '\u{3364}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN, '\u{3365}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN, '\u{3366}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN, '\u{3367}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN, '\u{3368}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN, '\u{3369}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN, '\u{336a}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN, '\u{336b}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY, '\u{336c}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE, '\u{336d}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO, '\u{336e}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE, '\u{336f}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR, '\u{3370}');
    n!("CjkCompatibilities", SQUARE_HPA, '\u{3371}');
    n!("CjkCompatibilities", SQUARE_DA, '\u{3372}');
    n!("CjkCompatibilities", SQUARE_AU, '\u{3373}');
    n!("CjkCompatibilities", SQUARE_BAR, '\u{3374}');
    n!("CjkCompatibilities", SQUARE_OV, '\u{3375}');
    n!("CjkCompatibilities", SQUARE_PC, '\u{3376}');
    n!("CjkCompatibilities", SQUARE_DM, '\u{3377}');
    n!("CjkCompatibilities", SQUARE_DM_SQUARED, '\u{3378}');
    n!("CjkCompatibilities", SQUARE_DM_CUBED, '\u{3379}');
    n!("CjkCompatibilities", SQUARE_IU, '\u{337a}');
    n!("CjkCompatibilities", SQUARE_ERA_NAME_HEISEI, '\u{337b}');
    n!("CjkCompatibilities", SQUARE_ERA_NAME_SYOUWA, '\u{337c}');
    n!("CjkCompatibilities", SQUARE_ERA_NAME_TAISYOU, '\u{337d}');
    n!("CjkCompatibilities", SQUARE_ERA_NAME_MEIZI, '\u{337e}');
    n!("CjkCompatibilities", SQUARE_CORPORATION, '\u{337f}');
    n!("CjkCompatibilities", SQUARE_PA_AMPS, '\u{3380}');
    n!("CjkCompatibilities", SQUARE_NA, '\u{3381}');
    n!("CjkCompatibilities", SQUARE_MU_A, '\u{3382}');
    n!("CjkCompatibilities", SQUARE_MA, '\u{3383}');
    n!("CjkCompatibilities", SQUARE_KA, '\u{3384}');
    n!("CjkCompatibilities", SQUARE_KB, '\u{3385}');
    n!("CjkCompatibilities", SQUARE_MB, '\u{3386}');
    n!("CjkCompatibilities", SQUARE_GB, '\u{3387}');
    n!("CjkCompatibilities", SQUARE_CAL, '\u{3388}');
    n!("CjkCompatibilities", SQUARE_KCAL, '\u{3389}');
    n!("CjkCompatibilities", SQUARE_PF, '\u{338a}');
    n!("CjkCompatibilities", SQUARE_NF, '\u{338b}');
    n!("CjkCompatibilities", SQUARE_MU_F, '\u{338c}');
    n!("CjkCompatibilities", SQUARE_MU_G, '\u{338d}');
    n!("CjkCompatibilities", SQUARE_MG, '\u{338e}');
    n!("CjkCompatibilities", SQUARE_KG, '\u{338f}');
    n!("CjkCompatibilities", SQUARE_HZ, '\u{3390}');
    n!("CjkCompatibilities", SQUARE_KHZ, '\u{3391}');
    n!("CjkCompatibilities", SQUARE_MHZ, '\u{3392}');
    n!("CjkCompatibilities", SQUARE_GHZ, '\u{3393}');
    n!("CjkCompatibilities", SQUARE_THZ, '\u{3394}');
    n!("CjkCompatibilities", SQUARE_MU_L, '\u{3395}');
    n!("CjkCompatibilities", SQUARE_ML, '\u{3396}');
    n!("CjkCompatibilities", SQUARE_DL, '\u{3397}');
    n!("CjkCompatibilities", SQUARE_KL, '\u{3398}');
    n!("CjkCompatibilities", SQUARE_FM, '\u{3399}');
    n!("CjkCompatibilities", SQUARE_NM, '\u{339a}');
    n!("CjkCompatibilities", SQUARE_MU_M, '\u{339b}');
    n!("CjkCompatibilities", SQUARE_MM, '\u{339c}');
    n!("CjkCompatibilities", SQUARE_CM, '\u{339d}');
    n!("CjkCompatibilities", SQUARE_KM, '\u{339e}');
    n!("CjkCompatibilities", SQUARE_MM_SQUARED, '\u{339f}');
    n!("CjkCompatibilities", SQUARE_CM_SQUARED, '\u{33a0}');
    n!("CjkCompatibilities", SQUARE_M_SQUARED, '\u{33a1}');
    n!("CjkCompatibilities", SQUARE_KM_SQUARED, '\u{33a2}');
    n!("CjkCompatibilities", SQUARE_MM_CUBED, '\u{33a3}');
    n!("CjkCompatibilities", SQUARE_CM_CUBED, '\u{33a4}');
    n!("CjkCompatibilities", SQUARE_M_CUBED, '\u{33a5}');
    n!("CjkCompatibilities", SQUARE_KM_CUBED, '\u{33a6}');
    n!("CjkCompatibilities", SQUARE_M_OVER_S, '\u{33a7}');
    n!("CjkCompatibilities", SQUARE_M_OVER_S_SQUARED, '\u{33a8}');
    n!("CjkCompatibilities", SQUARE_PA, '\u{33a9}');
    n!("CjkCompatibilities", SQUARE_KPA, '\u{33aa}');
    n!("CjkCompatibilities", SQUARE_MPA, '\u{33ab}');
    n!("CjkCompatibilities", SQUARE_GPA, '\u{33ac}');
    n!("CjkCompatibilities", SQUARE_RAD, '\u{33ad}');
    n!("CjkCompatibilities", SQUARE_RAD_OVER_S, '\u{33ae}');
    n!("CjkCompatibilities", SQUARE_RAD_OVER_S_SQUARED, '\u{33af}');
    n!("CjkCompatibilities", SQUARE_PS, '\u{33b0}');
    n!("CjkCompatibilities", SQUARE_NS, '\u{33b1}');
    n!("CjkCompatibilities", SQUARE_MU_S, '\u{33b2}');
    n!("CjkCompatibilities", SQUARE_MS, '\u{33b3}');
    n!("CjkCompatibilities", SQUARE_PV, '\u{33b4}');
    n!("CjkCompatibilities", SQUARE_NV, '\u{33b5}');
    n!("CjkCompatibilities", SQUARE_MU_V, '\u{33b6}');
    n!("CjkCompatibilities", SQUARE_MV, '\u{33b7}');
    n!("CjkCompatibilities", SQUARE_KV, '\u{33b8}');
    n!("CjkCompatibilities", SQUARE_MV_MEGA, '\u{33b9}');
    n!("CjkCompatibilities", SQUARE_PW, '\u{33ba}');
    n!("CjkCompatibilities", SQUARE_NW, '\u{33bb}');
    n!("CjkCompatibilities", SQUARE_MU_W, '\u{33bc}');
    n!("CjkCompatibilities", SQUARE_MW, '\u{33bd}');
    n!("CjkCompatibilities", SQUARE_KW, '\u{33be}');
    n!("CjkCompatibilities", SQUARE_MW_MEGA, '\u{33bf}');
    n!("CjkCompatibilities", SQUARE_K_OHM, '\u{33c0}');
    n!("CjkCompatibilities", SQUARE_M_OHM, '\u{33c1}');
    n!("CjkCompatibilities", SQUARE_AM, '\u{33c2}');
    n!("CjkCompatibilities", SQUARE_BQ, '\u{33c3}');
    n!("CjkCompatibilities", SQUARE_CC, '\u{33c4}');
    n!("CjkCompatibilities", SQUARE_CD, '\u{33c5}');
    n!("CjkCompatibilities", SQUARE_C_OVER_KG, '\u{33c6}');
    n!("CjkCompatibilities", SQUARE_CO, '\u{33c7}');
    n!("CjkCompatibilities", SQUARE_DB, '\u{33c8}');
    n!("CjkCompatibilities", SQUARE_GY, '\u{33c9}');
    n!("CjkCompatibilities", SQUARE_HA, '\u{33ca}');
    n!("CjkCompatibilities", SQUARE_HP, '\u{33cb}');
    n!("CjkCompatibilities", SQUARE_IN, '\u{33cc}');
    n!("CjkCompatibilities", SQUARE_KK, '\u{33cd}');
    n!("CjkCompatibilities", SQUARE_KM_CAPITAL, '\u{33ce}');
    n!("CjkCompatibilities", SQUARE_KT, '\u{33cf}');
    n!("CjkCompatibilities", SQUARE_LM, '\u{33d0}');
    n!("CjkCompatibilities", SQUARE_LN, '\u{33d1}');
    n!("CjkCompatibilities", SQUARE_LOG, '\u{33d2}');
    n!("CjkCompatibilities", SQUARE_LX, '\u{33d3}');
    n!("CjkCompatibilities", SQUARE_MB_SMALL, '\u{33d4}');
    n!("CjkCompatibilities", SQUARE_MIL, '\u{33d5}');
    n!("CjkCompatibilities", SQUARE_MOL, '\u{33d6}');
    n!("CjkCompatibilities", SQUARE_PH, '\u{33d7}');
    n!("CjkCompatibilities", SQUARE_PM, '\u{33d8}');
    n!("CjkCompatibilities", SQUARE_PPM, '\u{33d9}');
    n!("CjkCompatibilities", SQUARE_PR, '\u{33da}');
    n!("CjkCompatibilities", SQUARE_SR, '\u{33db}');
    n!("CjkCompatibilities", SQUARE_SV, '\u{33dc}');
    n!("CjkCompatibilities", SQUARE_WB, '\u{33dd}');
    n!("CjkCompatibilities", SQUARE_V_OVER_M, '\u{33de}');
    n!("CjkCompatibilities", SQUARE_A_OVER_M, '\u{33df}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE, '\u{33e0}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO, '\u{33e1}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE, '\u{33e2}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR, '\u{33e3}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE, '\u{33e4}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX, '\u{33e5}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN, '\u{33e6}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT, '\u{33e7}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE, '\u{33e8}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN, '\u{33e9}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN, '\u{33ea}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE, '\u{33eb}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN, '\u{33ec}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN, '\u{33ed}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN, '\u{33ee}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN, '\u{33ef}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN, '\u{33f0}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN, '\u{33f1}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN, '\u{33f2}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY, '\u{33f3}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE, '\u{33f4}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO, '\u{33f5}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE, '\u{33f6}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR, '\u{33f7}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE, '\u{33f8}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX, '\u{33f9}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN, '\u{33fa}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT, '\u{33fb}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE, '\u{33fc}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY, '\u{33fd}');
    n!("CjkCompatibilities", IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE, '\u{33fe}');
    n!("CjkCompatibilities", SQUARE_GAL, '\u{33ff}');
    v
}

uni!(ALPHABETIC BIDI_CONTROL CASE_IGNORABLE CASED CHANGES_WHEN_CASEFOLDED CHANGES_WHEN_CASEMAPPED CHANGES_WHEN_LOWERCASED CHANGES_WHEN_TITLECASED CHANGES_WHEN_UPPERCASED DASH DEFAULT_IGNORABLE_CODE_POINT DEPRECATED DIACRITIC EMOJI EMOJI_COMPONENT EMOJI_MODIFIER EMOJI_MODIFIER_BASE EMOJI_PRESENTATION EXTENDED_PICTOGRAPHIC EXTENDER GRAPHEME_BASE GRAPHEME_EXTEND GRAPHEME_LINK HEX_DIGIT HYPHEN IDS_BINARY_OPERATOR IDS_TRINARY_OPERATOR ID_CONTINUE ID_START IDEOGRAPHIC JOIN_CONTROL LOGICAL_ORDER_EXCEPTION LOWERCASE MATH NONCHARACTER_CODE_POINT OTHER_ALPHABETIC OTHER_DEFAULT_IGNORABLE_CODE_POINT OTHER_GRAPHEME_EXTEND OTHER_ID_CONTINUE OTHER_ID_START OTHER_LOWERCASE OTHER_MATH OTHER_UPPERCASE PATTERN_SYNTAX PATTERN_WHITE_SPACE PREPENDED_CONCATENATION_MARK QUOTATION_MARK RADICAL REGIONAL_INDICATOR SENTENCE_TERMINAL SOFT_DOTTED TERMINAL_PUNCTUATION UNIFIED_IDEOGRAPH UPPERCASE VARIATION_SELECTOR WHITE_SPACE XID_CONTINUE XID_START CASED_LETTER CLOSE_PUNCTUATION CONNECTOR_PUNCTUATION CONTROL CURRENCY_SYMBOL DASH_PUNCTUATION DECIMAL_NUMBER ENCLOSING_MARK FINAL_PUNCTUATION FORMAT INITIAL_PUNCTUATION LETTER LETTER_NUMBER LINE_SEPARATOR LOWERCASE_LETTER MARK MATH_SYMBOL MODIFIER_LETTER MODIFIER_SYMBOL NONSPACING_MARK NUMBER OPEN_PUNCTUATION OTHER OTHER_LETTER OTHER_NUMBER OTHER_PUNCTUATION OTHER_SYMBOL PARAGRAPH_SEPARATOR PRIVATE_USE PUNCTUATION SEPARATOR SPACE_SEPARATOR SPACING_MARK SURROGATE SYMBOL TITLECASE_LETTER UNASSIGNED UPPERCASE_LETTER ADLAM AHOM ANATOLIAN_HIEROGLYPHS ARABIC ARMENIAN AVESTAN BALINESE BAMUM BASSA_VAH BATAK BENGALI BHAIKSUKI BOPOMOFO BRAHMI BRAILLE BUGINESE BUHID CANADIAN_ABORIGINAL CARIAN CAUCASIAN_ALBANIAN CHAKMA CHAM CHEROKEE CHORASMIAN COMMON COPTIC CUNEIFORM CYPRIOT CYPRO_MINOAN CYRILLIC DESERET DEVANAGARI DIVES_AKURU DOGRA DUPLOYAN EGYPTIAN_HIEROGLYPHS ELBASAN ELYMAIC ETHIOPIC GEORGIAN GLAGOLITIC GOTHIC GRANTHA GREEK GUJARATI GUNJALA_GONDI GURMUKHI HAN HANGUL HANIFI_ROHINGYA HANUNOO HATRAN HEBREW HIRAGANA IMPERIAL_ARAMAIC INHERITED INSCRIPTIONAL_PAHLAVI INSCRIPTIONAL_PARTHIAN JAVANESE KAITHI KANNADA KATAKANA KAWI KAYAH_LI KHAROSHTHI KHITAN_SMALL_SCRIPT KHMER KHOJKI KHUDAWADI LAO LATIN LEPCHA LIMBU LINEAR_A LINEAR_B LISU LYCIAN LYDIAN MAHAJANI MAKASAR MALAYALAM MANDAIC MANICHAEAN MARCHEN MASARAM_GONDI MEDEFAIDRIN MEETEI_MAYEK MENDE_KIKAKUI MEROITIC_CURSIVE MEROITIC_HIEROGLYPHS MIAO MODI MONGOLIAN MRO MULTANI MYANMAR NABATAEAN NAG_MUNDARI NANDINAGARI NEW_TAI_LUE NEWA NKO NUSHU NYIAKENG_PUACHUE_HMONG OGHAM OL_CHIKI OLD_HUNGARIAN OLD_ITALIC OLD_NORTH_ARABIAN OLD_PERMIC OLD_PERSIAN OLD_SOGDIAN OLD_SOUTH_ARABIAN OLD_TURKIC OLD_UYGHUR ORIYA OSAGE OSMANYA PAHAWH_HMONG PALMYRENE PAU_CIN_HAU PHAGS_PA PHOENICIAN PSALTER_PAHLAVI REJANG RUNIC SAMARITAN SAURASHTRA SHARADA SHAVIAN SIDDHAM SIGNWRITING SINHALA SOGDIAN SORA_SOMPENG SOYOMBO SUNDANESE SYLOTI_NAGRI SYRIAC TAGALOG TAGBANWA TAI_LE TAI_THAM TAI_VIET TAKRI TAMIL TANGSA TANGUT TELUGU THAANA THAI TIBETAN TIFINAGH TIRHUTA TOTO UGARITIC VAI VITHKUQI WANCHO WARANG_CITI YEZIDI YI ZANABAZAR_SQUARE);

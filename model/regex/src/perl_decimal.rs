// DO NOT EDIT THIS FILE. IT WAS AUTOMATICALLY GENERATED BY:
//
//  ucd-generate general-category ucd-13.0.0 --chars --include decimalnumber
//
// ucd-generate 0.2.7 is available on crates.io.

pub const BY_NAME: &'static [(&'static str, &'static [(char, char)])] =
    &[("Decimal_Number", DECIMAL_NUMBER)];

pub const DECIMAL_NUMBER: &'static [(char, char)] = &[
    ('0', '9'),
    ('٠', '٩'),
    ('۰', '۹'),
    ('߀', '߉'),
    ('०', '९'),
    ('০', '৯'),
    ('੦', '੯'),
    ('૦', '૯'),
    ('୦', '୯'),
    ('௦', '௯'),
    ('౦', '౯'),
    ('೦', '೯'),
    ('൦', '൯'),
    ('෦', '෯'),
    ('๐', '๙'),
    ('໐', '໙'),
    ('༠', '༩'),
    ('၀', '၉'),
    ('႐', '႙'),
    ('០', '៩'),
    ('᠐', '᠙'),
    ('᥆', '᥏'),
    ('᧐', '᧙'),
    ('᪀', '᪉'),
    ('᪐', '᪙'),
    ('᭐', '᭙'),
    ('᮰', '᮹'),
    ('᱀', '᱉'),
    ('᱐', '᱙'),
    ('꘠', '꘩'),
    ('꣐', '꣙'),
    ('꤀', '꤉'),
    ('꧐', '꧙'),
    ('꧰', '꧹'),
    ('꩐', '꩙'),
    ('꯰', '꯹'),
    ('０', '９'),
    ('𐒠', '𐒩'),
    ('𐴰', '𐴹'),
    ('𑁦', '𑁯'),
    ('𑃰', '𑃹'),
    ('𑄶', '𑄿'),
    ('𑇐', '𑇙'),
    ('𑋰', '𑋹'),
    ('𑑐', '𑑙'),
    ('𑓐', '𑓙'),
    ('𑙐', '𑙙'),
    ('𑛀', '𑛉'),
    ('𑜰', '𑜹'),
    ('𑣠', '𑣩'),
    ('\u{11950}', '\u{11959}'),
    ('𑱐', '𑱙'),
    ('𑵐', '𑵙'),
    ('𑶠', '𑶩'),
    ('𖩠', '𖩩'),
    ('𖭐', '𖭙'),
    ('𝟎', '𝟿'),
    ('𞅀', '𞅉'),
    ('𞋰', '𞋹'),
    ('𞥐', '𞥙'),
    ('\u{1fbf0}', '\u{1fbf9}'),
];

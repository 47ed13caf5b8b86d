//! Values of the enumerated properties by identity, independent of the names the code gives them.
//! The unreachable arms keep this file compiling if a variant is added.
#![allow(unreachable_patterns)]

pub fn gc(v: unic_ucd_category::GeneralCategory) -> &'static str {
    use unic_ucd_category::GeneralCategory as E;
    match v {
        E::UppercaseLetter => "Lu",
        E::LowercaseLetter => "Ll",
        E::TitlecaseLetter => "Lt",
        E::ModifierLetter => "Lm",
        E::OtherLetter => "Lo",
        E::NonspacingMark => "Mn",
        E::SpacingMark => "Mc",
        E::EnclosingMark => "Me",
        E::DecimalNumber => "Nd",
        E::LetterNumber => "Nl",
        E::OtherNumber => "No",
        E::ConnectorPunctuation => "Pc",
        E::DashPunctuation => "Pd",
        E::OpenPunctuation => "Ps",
        E::ClosePunctuation => "Pe",
        E::InitialPunctuation => "Pi",
        E::FinalPunctuation => "Pf",
        E::OtherPunctuation => "Po",
        E::MathSymbol => "Sm",
        E::CurrencySymbol => "Sc",
        E::ModifierSymbol => "Sk",
        E::OtherSymbol => "So",
        E::SpaceSeparator => "Zs",
        E::LineSeparator => "Zl",
        E::ParagraphSeparator => "Zp",
        E::Control => "Cc",
        E::Format => "Cf",
        E::Surrogate => "Cs",
        E::PrivateUse => "Co",
        E::Unassigned => "Cn",
        _ => "?",
    }
}
pub fn bc(v: unic_ucd_bidi::BidiClass) -> &'static str {
    use unic_ucd_bidi::BidiClass as E;
    match v {
        E::ArabicLetter => "AL",
        E::ArabicNumber => "AN",
        E::ParagraphSeparator => "B",
        E::BoundaryNeutral => "BN",
        E::CommonSeparator => "CS",
        E::EuropeanNumber => "EN",
        E::EuropeanSeparator => "ES",
        E::EuropeanTerminator => "ET",
        E::FirstStrongIsolate => "FSI",
        E::LeftToRight => "L",
        E::LeftToRightEmbedding => "LRE",
        E::LeftToRightIsolate => "LRI",
        E::LeftToRightOverride => "LRO",
        E::NonspacingMark => "NSM",
        E::OtherNeutral => "ON",
        E::PopDirectionalFormat => "PDF",
        E::PopDirectionalIsolate => "PDI",
        E::RightToLeft => "R",
        E::RightToLeftEmbedding => "RLE",
        E::RightToLeftIsolate => "RLI",
        E::RightToLeftOverride => "RLO",
        E::SegmentSeparator => "S",
        E::WhiteSpace => "WS",
        _ => "?",
    }
}
pub fn gcb(v: unic_ucd_segment::GraphemeClusterBreak) -> &'static str {
    use unic_ucd_segment::GraphemeClusterBreak as E;
    match v {
        E::CR => "CR",
        E::LF => "LF",
        E::Control => "CN",
        E::Extend => "EX",
        E::ZWJ => "ZWJ",
        E::RegionalIndicator => "RI",
        E::Prepend => "PP",
        E::SpacingMark => "SM",
        E::L => "L",
        E::V => "V",
        E::T => "T",
        E::LV => "LV",
        E::LVT => "LVT",
        E::EBase => "EB",
        E::EModifier => "EM",
        E::GlueAfterZwj => "GAZ",
        E::EBaseGAZ => "EBG",
        E::Other => "XX",
        _ => "?",
    }
}
pub fn wb(v: unic_ucd_segment::WordBreak) -> &'static str {
    use unic_ucd_segment::WordBreak as E;
    match v {
        E::CR => "CR",
        E::LF => "LF",
        E::Newline => "NL",
        E::Extend => "Extend",
        E::ZWJ => "ZWJ",
        E::RegionalIndicator => "RI",
        E::Format => "FO",
        E::Katakana => "KA",
        E::HebrewLetter => "HL",
        E::ALetter => "LE",
        E::SingleQuote => "SQ",
        E::DoubleQuote => "DQ",
        E::MidNumLet => "MB",
        E::MidLetter => "ML",
        E::MidNum => "MN",
        E::Numeric => "NU",
        E::ExtendNumLet => "EX",
        E::EBase => "EB",
        E::EModifier => "EM",
        E::GlueAfterZwj => "GAZ",
        E::EBaseGAZ => "EBG",
        E::Other => "XX",
        _ => "?",
    }
}
pub fn sb(v: unic_ucd_segment::SentenceBreak) -> &'static str {
    use unic_ucd_segment::SentenceBreak as E;
    match v {
        E::CR => "CR",
        E::LF => "LF",
        E::Extend => "Extend",
        E::Sep => "SE",
        E::Format => "FO",
        E::Sp => "SP",
        E::Lower => "LO",
        E::Upper => "UP",
        E::OLetter => "LE",
        E::Numeric => "NU",
        E::ATerm => "AT",
        E::SContinue => "SC",
        E::STerm => "ST",
        E::Close => "CL",
        E::Other => "XX",
        _ => "?",
    }
}

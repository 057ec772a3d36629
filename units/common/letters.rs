// ---- common/letters.rs: the documented one-letter codes of aircraft data ----
/// the one-letter texts
pub open spec fn letter(s: Seq<char>, c: char) -> bool { s.len() == 1 && s[0] == c }
pub open spec fn wtc_of(s: Seq<char>) -> Option<Wtc> {
    if letter(s, 'L') { Some(Wtc::LIGHT) } else if letter(s, 'M') { Some(Wtc::MEDIUM) } else if letter(s, 'H') { Some(Wtc::HEAVY) }
    else if letter(s, 'J') { Some(Wtc::SUPER) } else if letter(s, '-') { Some(Wtc::UNKNOWN) } else { None }
}
pub open spec fn type_of(s: Seq<char>) -> Option<AircraftType> {
    if letter(s, 'L') { Some(AircraftType::LANDPLANE) } else if letter(s, 'S') { Some(AircraftType::SEAPLANE) } else if letter(s, 'A') { Some(AircraftType::AMPHIBIAN) }
    else if letter(s, 'G') { Some(AircraftType::GYROCOPTER) } else if letter(s, 'H') { Some(AircraftType::HELICOPTER) } else if letter(s, 'T') { Some(AircraftType::TILTROTOR) }
    else if letter(s, '-') { Some(AircraftType::UNKNOWN) } else { None }
}
pub open spec fn engine_of(s: Seq<char>) -> Option<EngineType> {
    if letter(s, 'J') { Some(EngineType::JET) } else if letter(s, 'T') { Some(EngineType::TURBOPROP) } else if letter(s, 'P') { Some(EngineType::PISTON) }
    else if letter(s, 'E') { Some(EngineType::ELECTRIC) } else if letter(s, 'R') { Some(EngineType::ROCKET) } else if letter(s, '-') { Some(EngineType::UNKNOWN) } else { None }
}
pub proof fn lemma_letter(s: Seq<char>)
    ensures
        forall|c: char| (c as u32) < 128 ==> (#[trigger] letter(s, c) <==> vstd::utf8::encode_utf8(s) == seq![c as u8]),
{
    assert forall|c: char| (c as u32) < 128 implies (#[trigger] letter(s, c) <==> vstd::utf8::encode_utf8(s) == seq![c as u8]) by {
        let t = seq![c];
        vstd::utf8::is_ascii_chars_encode_utf8(t);
        assert(vstd::utf8::encode_utf8(t) =~= seq![c as u8]);
        vstd::utf8::encode_utf8_decode_utf8(t);
        vstd::utf8::encode_utf8_decode_utf8(s);
        if letter(s, c) { assert(s =~= t); }
    }
}

//@ source src/asr.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ use farith
//@ rename parse vx_parse
//@ rename clone .vx_dup
//@ callrename Sign::from sign_from
//@ callrename AsrMap::from asrmap_from
//@ callrename AsrMap::default asrmap_default
//@ callrename f64::from vx_f64_from
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string
//@ item Leader
//@ item SimulationMode
//@ item DisplayType
//@ item AsrData noclone
//@ item AsrMapFixType
//@ item AsrMapNavaidType
//@ item AsrMapRunwayType
//@ item AsrMapAirwayType
//@ item AsrMapGroundNetworkType
//@ item AsrMap noclone
//@ item Asr noclone
//@ item AsrResult
//@ item Sign
//@ grammar AsrParser asr
//@ prelude
broadcast use crate::rd::reads;
#[derive(Clone, Copy)]
pub struct Coord { pub x: f64, pub y: f64 }
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum AsrError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for AsrError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for AsrError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures r matches Ok(t) ==> t@ == text_of(s@) { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_asr(tree(s)->0);
pub struct AsrParser { }
impl AsrParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(V)]
pub struct TwoKeyMap<A, B, V>(pub HashMap<(A, B), V>);
pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub trait HemiFrom: Sized { fn from_hemi(hemi: &str) -> (ret: Self) requires sign_of(hemi@) is Some; }
pub open spec fn letter(s: Seq<char>, c: char) -> bool { s.len() == 1 && s[0] == c }
pub open spec fn sign_of(s: Seq<char>) -> Option<Sign> {
    if letter(s, 'N') || letter(s, 'E') || letter(s, 'n') || letter(s, 'e') { Some(Sign::Pos) } else if letter(s, 'S') || letter(s, 'W') || letter(s, 's') || letter(s, 'w') { Some(Sign::Neg) } else { None }
}
pub fn sign_from(h: &str) -> (r: Sign) requires sign_of(h@) is Some, ensures Some(r) == sign_of(h@) { <Sign as HemiFrom>::from_hemi(h) }
/// the kinds of lines
pub enum Key { Above, Below, DisablePanning, DisableZooming, DisplayRotation, DisplayType, DisplayTypeGeoReferenced, DisplayTypeNeedRadarContent, HistoryDots, Leader, SectorFile, SectorTitle, ShowLeader, ShowC, ShowStandby, SimulationMode, TagFamily, TurnLeader, WindowArea, PluginSetting, Runway, Airport, Vor, Ndb, Fix, LowAirway, HighAirway, Sid, Star, FreeText, Geo, GroundNetwork, Region, ArtccBoundary, ArtccLowBoundary, ArtccHighBoundary }
pub open spec fn kind(d: AsrData) -> Key { match d { AsrData::Above(_) => Key::Above, AsrData::Below(_) => Key::Below, AsrData::DisablePanning(_) => Key::DisablePanning, AsrData::DisableZooming(_) => Key::DisableZooming, AsrData::DisplayRotation(_) => Key::DisplayRotation, AsrData::DisplayType(_) => Key::DisplayType, AsrData::DisplayTypeGeoReferenced(_) => Key::DisplayTypeGeoReferenced, AsrData::DisplayTypeNeedRadarContent(_) => Key::DisplayTypeNeedRadarContent, AsrData::HistoryDots(_) => Key::HistoryDots, AsrData::Leader(_) => Key::Leader, AsrData::SectorFile(_) => Key::SectorFile, AsrData::SectorTitle(_) => Key::SectorTitle, AsrData::ShowLeader(_) => Key::ShowLeader, AsrData::ShowC(_) => Key::ShowC, AsrData::ShowStandby(_) => Key::ShowStandby, AsrData::SimulationMode(_) => Key::SimulationMode, AsrData::TagFamily(_) => Key::TagFamily, AsrData::TurnLeader(_) => Key::TurnLeader, AsrData::WindowArea(_) => Key::WindowArea, AsrData::PluginSetting(_) => Key::PluginSetting, AsrData::Runway(_) => Key::Runway, AsrData::Airport(_) => Key::Airport, AsrData::Vor(_) => Key::Vor, AsrData::Ndb(_) => Key::Ndb, AsrData::Fix(_) => Key::Fix, AsrData::LowAirway(_) => Key::LowAirway, AsrData::HighAirway(_) => Key::HighAirway, AsrData::Sid(_) => Key::Sid, AsrData::Star(_) => Key::Star, AsrData::FreeText(_) => Key::FreeText, AsrData::Geo(_) => Key::Geo, AsrData::GroundNetwork(_) => Key::GroundNetwork, AsrData::Region(_) => Key::Region, AsrData::ArtccBoundary(_) => Key::ArtccBoundary, AsrData::ArtccLowBoundary(_) => Key::ArtccLowBoundary, AsrData::ArtccHighBoundary(_) => Key::ArtccHighBoundary } }
/// the text value with these characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
/// the first line of a kind among the first n
pub open spec fn find(s: Seq<AsrData>, n: int, k: Key) -> Option<AsrData>
    decreases n
{ if n <= 0 { None } else { match find(s, n - 1, k) { Some(d) => Some(d), None => if kind(s[n - 1]) == k { Some(s[n - 1]) } else { None } } } }
pub proof fn lemma_find(s: Seq<AsrData>, n: int, m: int, k: Key)
    requires 0 <= n <= m, find(s, n, k) is Some
    ensures find(s, m, k) == find(s, n, k)
    decreases m
{ if n < m { lemma_find(s, n, m - 1, k); } }
pub proof fn lemma_kind(s: Seq<AsrData>, n: int, k: Key) ensures find(s, n, k) matches Some(d) ==> kind(d) == k decreases n { if n > 0 { lemma_kind(s, n - 1, k); } }
/// all lines of a kind among the first n, in order
pub open spec fn all(s: Seq<AsrData>, n: int, k: Key) -> Seq<AsrData>
    decreases n
{ if n <= 0 { Seq::empty() } else if kind(s[n - 1]) == k { all(s, n - 1, k).push(s[n - 1]) } else { all(s, n - 1, k) } }
pub open spec fn the_above(d: Option<AsrData>) -> Option<Option<u32>> { match d { Some(AsrData::Above(x)) => Some(x), _ => None } }
pub open spec fn the_below(d: Option<AsrData>) -> Option<Option<u32>> { match d { Some(AsrData::Below(x)) => Some(x), _ => None } }
pub open spec fn the_disable_panning(d: Option<AsrData>) -> Option<bool> { match d { Some(AsrData::DisablePanning(x)) => Some(x), _ => None } }
pub open spec fn the_disable_zooming(d: Option<AsrData>) -> Option<bool> { match d { Some(AsrData::DisableZooming(x)) => Some(x), _ => None } }
pub open spec fn the_display_rotation(d: Option<AsrData>) -> Option<f64> { match d { Some(AsrData::DisplayRotation(x)) => Some(x), _ => None } }
pub open spec fn the_display_type(d: Option<AsrData>) -> Option<DisplayType> { match d { Some(AsrData::DisplayType(x)) => Some(x), _ => None } }
pub open spec fn the_display_type_geo_referenced(d: Option<AsrData>) -> Option<bool> { match d { Some(AsrData::DisplayTypeGeoReferenced(x)) => Some(x), _ => None } }
pub open spec fn the_display_type_need_radar_content(d: Option<AsrData>) -> Option<bool> { match d { Some(AsrData::DisplayTypeNeedRadarContent(x)) => Some(x), _ => None } }
pub open spec fn the_history_dots(d: Option<AsrData>) -> Option<u8> { match d { Some(AsrData::HistoryDots(x)) => Some(x), _ => None } }
pub open spec fn the_leader(d: Option<AsrData>) -> Option<Leader> { match d { Some(AsrData::Leader(x)) => Some(x), _ => None } }
pub open spec fn the_sector_file(d: Option<AsrData>) -> Option<Seq<char>> { match d { Some(AsrData::SectorFile(x)) => Some(x@), _ => None } }
pub open spec fn the_sector_title(d: Option<AsrData>) -> Option<Seq<char>> { match d { Some(AsrData::SectorTitle(x)) => Some(x@), _ => None } }
pub open spec fn the_show_leader(d: Option<AsrData>) -> Option<bool> { match d { Some(AsrData::ShowLeader(x)) => Some(x), _ => None } }
pub open spec fn the_show_c(d: Option<AsrData>) -> Option<bool> { match d { Some(AsrData::ShowC(x)) => Some(x), _ => None } }
pub open spec fn the_show_standby(d: Option<AsrData>) -> Option<bool> { match d { Some(AsrData::ShowStandby(x)) => Some(x), _ => None } }
pub open spec fn the_simulation_mode(d: Option<AsrData>) -> Option<SimulationMode> { match d { Some(AsrData::SimulationMode(x)) => Some(x), _ => None } }
pub open spec fn the_tag_family(d: Option<AsrData>) -> Option<Seq<char>> { match d { Some(AsrData::TagFamily(x)) => Some(x@), _ => None } }
pub open spec fn the_turn_leader(d: Option<AsrData>) -> Option<bool> { match d { Some(AsrData::TurnLeader(x)) => Some(x), _ => None } }
pub open spec fn the_window_area(d: Option<AsrData>) -> Option<(Coord, Coord)> { match d { Some(AsrData::WindowArea(x)) => Some(x), _ => None } }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_above(s: Seq<AsrData>, n: int) -> Option<Option<u32>> { the_above(find(s, n, Key::Above)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_below(s: Seq<AsrData>, n: int) -> Option<Option<u32>> { the_below(find(s, n, Key::Below)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_disable_panning(s: Seq<AsrData>, n: int) -> Option<bool> { the_disable_panning(find(s, n, Key::DisablePanning)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_disable_zooming(s: Seq<AsrData>, n: int) -> Option<bool> { the_disable_zooming(find(s, n, Key::DisableZooming)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_display_rotation(s: Seq<AsrData>, n: int) -> Option<f64> { the_display_rotation(find(s, n, Key::DisplayRotation)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_display_type(s: Seq<AsrData>, n: int) -> Option<DisplayType> { the_display_type(find(s, n, Key::DisplayType)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_display_type_geo_referenced(s: Seq<AsrData>, n: int) -> Option<bool> { the_display_type_geo_referenced(find(s, n, Key::DisplayTypeGeoReferenced)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_display_type_need_radar_content(s: Seq<AsrData>, n: int) -> Option<bool> { the_display_type_need_radar_content(find(s, n, Key::DisplayTypeNeedRadarContent)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_history_dots(s: Seq<AsrData>, n: int) -> Option<u8> { the_history_dots(find(s, n, Key::HistoryDots)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_leader(s: Seq<AsrData>, n: int) -> Option<Leader> { the_leader(find(s, n, Key::Leader)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_sector_file(s: Seq<AsrData>, n: int) -> Option<Seq<char>> { the_sector_file(find(s, n, Key::SectorFile)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_sector_title(s: Seq<AsrData>, n: int) -> Option<Seq<char>> { the_sector_title(find(s, n, Key::SectorTitle)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_show_leader(s: Seq<AsrData>, n: int) -> Option<bool> { the_show_leader(find(s, n, Key::ShowLeader)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_show_c(s: Seq<AsrData>, n: int) -> Option<bool> { the_show_c(find(s, n, Key::ShowC)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_show_standby(s: Seq<AsrData>, n: int) -> Option<bool> { the_show_standby(find(s, n, Key::ShowStandby)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_simulation_mode(s: Seq<AsrData>, n: int) -> Option<SimulationMode> { the_simulation_mode(find(s, n, Key::SimulationMode)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_tag_family(s: Seq<AsrData>, n: int) -> Option<Seq<char>> { the_tag_family(find(s, n, Key::TagFamily)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_turn_leader(s: Seq<AsrData>, n: int) -> Option<bool> { the_turn_leader(find(s, n, Key::TurnLeader)) }
/// what the first of the first n lines says of it
#[verifier::opaque]
pub open spec fn got_window_area(s: Seq<AsrData>, n: int) -> Option<(Coord, Coord)> { the_window_area(find(s, n, Key::WindowArea)) }
proof fn none_above(s: Seq<AsrData>) ensures got_above(s, 0) is None { reveal(got_above); }
proof fn step_above(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_above(s, n + 1) == (match got_above(s, n) { Some(x) => Some(x), None => if s[n] is Above { Some(s[n]->Above_0) } else { None } }) { reveal(got_above); lemma_kind(s, n, Key::Above); }
proof fn after_above(s: Seq<AsrData>, n: int, r: Option<Option<u32>>) requires 0 <= n <= s.len(), r == got_above(s, n), r is None ==> n == s.len() ensures r == got_above(s, s.len() as int) { reveal(got_above); if r is Some { lemma_find(s, n, s.len() as int, Key::Above); } }
proof fn none_below(s: Seq<AsrData>) ensures got_below(s, 0) is None { reveal(got_below); }
proof fn step_below(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_below(s, n + 1) == (match got_below(s, n) { Some(x) => Some(x), None => if s[n] is Below { Some(s[n]->Below_0) } else { None } }) { reveal(got_below); lemma_kind(s, n, Key::Below); }
proof fn after_below(s: Seq<AsrData>, n: int, r: Option<Option<u32>>) requires 0 <= n <= s.len(), r == got_below(s, n), r is None ==> n == s.len() ensures r == got_below(s, s.len() as int) { reveal(got_below); if r is Some { lemma_find(s, n, s.len() as int, Key::Below); } }
proof fn none_disable_panning(s: Seq<AsrData>) ensures got_disable_panning(s, 0) is None { reveal(got_disable_panning); }
proof fn step_disable_panning(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_disable_panning(s, n + 1) == (match got_disable_panning(s, n) { Some(x) => Some(x), None => if s[n] is DisablePanning { Some(s[n]->DisablePanning_0) } else { None } }) { reveal(got_disable_panning); lemma_kind(s, n, Key::DisablePanning); }
proof fn after_disable_panning(s: Seq<AsrData>, n: int, r: Option<bool>) requires 0 <= n <= s.len(), r == got_disable_panning(s, n), r is None ==> n == s.len() ensures r == got_disable_panning(s, s.len() as int) { reveal(got_disable_panning); if r is Some { lemma_find(s, n, s.len() as int, Key::DisablePanning); } }
proof fn none_disable_zooming(s: Seq<AsrData>) ensures got_disable_zooming(s, 0) is None { reveal(got_disable_zooming); }
proof fn step_disable_zooming(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_disable_zooming(s, n + 1) == (match got_disable_zooming(s, n) { Some(x) => Some(x), None => if s[n] is DisableZooming { Some(s[n]->DisableZooming_0) } else { None } }) { reveal(got_disable_zooming); lemma_kind(s, n, Key::DisableZooming); }
proof fn after_disable_zooming(s: Seq<AsrData>, n: int, r: Option<bool>) requires 0 <= n <= s.len(), r == got_disable_zooming(s, n), r is None ==> n == s.len() ensures r == got_disable_zooming(s, s.len() as int) { reveal(got_disable_zooming); if r is Some { lemma_find(s, n, s.len() as int, Key::DisableZooming); } }
proof fn none_display_rotation(s: Seq<AsrData>) ensures got_display_rotation(s, 0) is None { reveal(got_display_rotation); }
proof fn step_display_rotation(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_display_rotation(s, n + 1) == (match got_display_rotation(s, n) { Some(x) => Some(x), None => if s[n] is DisplayRotation { Some(s[n]->DisplayRotation_0) } else { None } }) { reveal(got_display_rotation); lemma_kind(s, n, Key::DisplayRotation); }
proof fn after_display_rotation(s: Seq<AsrData>, n: int, r: Option<f64>) requires 0 <= n <= s.len(), r == got_display_rotation(s, n), r is None ==> n == s.len() ensures r == got_display_rotation(s, s.len() as int) { reveal(got_display_rotation); if r is Some { lemma_find(s, n, s.len() as int, Key::DisplayRotation); } }
proof fn none_display_type(s: Seq<AsrData>) ensures got_display_type(s, 0) is None { reveal(got_display_type); }
proof fn step_display_type(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_display_type(s, n + 1) == (match got_display_type(s, n) { Some(x) => Some(x), None => if s[n] is DisplayType { Some(s[n]->DisplayType_0) } else { None } }) { reveal(got_display_type); lemma_kind(s, n, Key::DisplayType); }
proof fn after_display_type(s: Seq<AsrData>, n: int, r: Option<DisplayType>) requires 0 <= n <= s.len(), r == got_display_type(s, n), r is None ==> n == s.len() ensures r == got_display_type(s, s.len() as int) { reveal(got_display_type); if r is Some { lemma_find(s, n, s.len() as int, Key::DisplayType); } }
proof fn none_display_type_geo_referenced(s: Seq<AsrData>) ensures got_display_type_geo_referenced(s, 0) is None { reveal(got_display_type_geo_referenced); }
proof fn step_display_type_geo_referenced(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_display_type_geo_referenced(s, n + 1) == (match got_display_type_geo_referenced(s, n) { Some(x) => Some(x), None => if s[n] is DisplayTypeGeoReferenced { Some(s[n]->DisplayTypeGeoReferenced_0) } else { None } }) { reveal(got_display_type_geo_referenced); lemma_kind(s, n, Key::DisplayTypeGeoReferenced); }
proof fn after_display_type_geo_referenced(s: Seq<AsrData>, n: int, r: Option<bool>) requires 0 <= n <= s.len(), r == got_display_type_geo_referenced(s, n), r is None ==> n == s.len() ensures r == got_display_type_geo_referenced(s, s.len() as int) { reveal(got_display_type_geo_referenced); if r is Some { lemma_find(s, n, s.len() as int, Key::DisplayTypeGeoReferenced); } }
proof fn none_display_type_need_radar_content(s: Seq<AsrData>) ensures got_display_type_need_radar_content(s, 0) is None { reveal(got_display_type_need_radar_content); }
proof fn step_display_type_need_radar_content(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_display_type_need_radar_content(s, n + 1) == (match got_display_type_need_radar_content(s, n) { Some(x) => Some(x), None => if s[n] is DisplayTypeNeedRadarContent { Some(s[n]->DisplayTypeNeedRadarContent_0) } else { None } }) { reveal(got_display_type_need_radar_content); lemma_kind(s, n, Key::DisplayTypeNeedRadarContent); }
proof fn after_display_type_need_radar_content(s: Seq<AsrData>, n: int, r: Option<bool>) requires 0 <= n <= s.len(), r == got_display_type_need_radar_content(s, n), r is None ==> n == s.len() ensures r == got_display_type_need_radar_content(s, s.len() as int) { reveal(got_display_type_need_radar_content); if r is Some { lemma_find(s, n, s.len() as int, Key::DisplayTypeNeedRadarContent); } }
proof fn none_history_dots(s: Seq<AsrData>) ensures got_history_dots(s, 0) is None { reveal(got_history_dots); }
proof fn step_history_dots(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_history_dots(s, n + 1) == (match got_history_dots(s, n) { Some(x) => Some(x), None => if s[n] is HistoryDots { Some(s[n]->HistoryDots_0) } else { None } }) { reveal(got_history_dots); lemma_kind(s, n, Key::HistoryDots); }
proof fn after_history_dots(s: Seq<AsrData>, n: int, r: Option<u8>) requires 0 <= n <= s.len(), r == got_history_dots(s, n), r is None ==> n == s.len() ensures r == got_history_dots(s, s.len() as int) { reveal(got_history_dots); if r is Some { lemma_find(s, n, s.len() as int, Key::HistoryDots); } }
proof fn none_leader(s: Seq<AsrData>) ensures got_leader(s, 0) is None { reveal(got_leader); }
proof fn step_leader(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_leader(s, n + 1) == (match got_leader(s, n) { Some(x) => Some(x), None => if s[n] is Leader { Some(s[n]->Leader_0) } else { None } }) { reveal(got_leader); lemma_kind(s, n, Key::Leader); }
proof fn after_leader(s: Seq<AsrData>, n: int, r: Option<Leader>) requires 0 <= n <= s.len(), r == got_leader(s, n), r is None ==> n == s.len() ensures r == got_leader(s, s.len() as int) { reveal(got_leader); if r is Some { lemma_find(s, n, s.len() as int, Key::Leader); } }
proof fn none_sector_file(s: Seq<AsrData>) ensures got_sector_file(s, 0) is None { reveal(got_sector_file); }
proof fn step_sector_file(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_sector_file(s, n + 1) == (match got_sector_file(s, n) { Some(x) => Some(x), None => if s[n] is SectorFile { Some(s[n]->SectorFile_0@) } else { None } }) { reveal(got_sector_file); lemma_kind(s, n, Key::SectorFile); }
proof fn after_sector_file(s: Seq<AsrData>, n: int, r: Option<Seq<char>>) requires 0 <= n <= s.len(), r == got_sector_file(s, n), r is None ==> n == s.len() ensures r == got_sector_file(s, s.len() as int) { reveal(got_sector_file); if r is Some { lemma_find(s, n, s.len() as int, Key::SectorFile); } }
proof fn none_sector_title(s: Seq<AsrData>) ensures got_sector_title(s, 0) is None { reveal(got_sector_title); }
proof fn step_sector_title(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_sector_title(s, n + 1) == (match got_sector_title(s, n) { Some(x) => Some(x), None => if s[n] is SectorTitle { Some(s[n]->SectorTitle_0@) } else { None } }) { reveal(got_sector_title); lemma_kind(s, n, Key::SectorTitle); }
proof fn after_sector_title(s: Seq<AsrData>, n: int, r: Option<Seq<char>>) requires 0 <= n <= s.len(), r == got_sector_title(s, n), r is None ==> n == s.len() ensures r == got_sector_title(s, s.len() as int) { reveal(got_sector_title); if r is Some { lemma_find(s, n, s.len() as int, Key::SectorTitle); } }
proof fn none_show_leader(s: Seq<AsrData>) ensures got_show_leader(s, 0) is None { reveal(got_show_leader); }
proof fn step_show_leader(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_show_leader(s, n + 1) == (match got_show_leader(s, n) { Some(x) => Some(x), None => if s[n] is ShowLeader { Some(s[n]->ShowLeader_0) } else { None } }) { reveal(got_show_leader); lemma_kind(s, n, Key::ShowLeader); }
proof fn after_show_leader(s: Seq<AsrData>, n: int, r: Option<bool>) requires 0 <= n <= s.len(), r == got_show_leader(s, n), r is None ==> n == s.len() ensures r == got_show_leader(s, s.len() as int) { reveal(got_show_leader); if r is Some { lemma_find(s, n, s.len() as int, Key::ShowLeader); } }
proof fn none_show_c(s: Seq<AsrData>) ensures got_show_c(s, 0) is None { reveal(got_show_c); }
proof fn step_show_c(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_show_c(s, n + 1) == (match got_show_c(s, n) { Some(x) => Some(x), None => if s[n] is ShowC { Some(s[n]->ShowC_0) } else { None } }) { reveal(got_show_c); lemma_kind(s, n, Key::ShowC); }
proof fn after_show_c(s: Seq<AsrData>, n: int, r: Option<bool>) requires 0 <= n <= s.len(), r == got_show_c(s, n), r is None ==> n == s.len() ensures r == got_show_c(s, s.len() as int) { reveal(got_show_c); if r is Some { lemma_find(s, n, s.len() as int, Key::ShowC); } }
proof fn none_show_standby(s: Seq<AsrData>) ensures got_show_standby(s, 0) is None { reveal(got_show_standby); }
proof fn step_show_standby(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_show_standby(s, n + 1) == (match got_show_standby(s, n) { Some(x) => Some(x), None => if s[n] is ShowStandby { Some(s[n]->ShowStandby_0) } else { None } }) { reveal(got_show_standby); lemma_kind(s, n, Key::ShowStandby); }
proof fn after_show_standby(s: Seq<AsrData>, n: int, r: Option<bool>) requires 0 <= n <= s.len(), r == got_show_standby(s, n), r is None ==> n == s.len() ensures r == got_show_standby(s, s.len() as int) { reveal(got_show_standby); if r is Some { lemma_find(s, n, s.len() as int, Key::ShowStandby); } }
proof fn none_simulation_mode(s: Seq<AsrData>) ensures got_simulation_mode(s, 0) is None { reveal(got_simulation_mode); }
proof fn step_simulation_mode(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_simulation_mode(s, n + 1) == (match got_simulation_mode(s, n) { Some(x) => Some(x), None => if s[n] is SimulationMode { Some(s[n]->SimulationMode_0) } else { None } }) { reveal(got_simulation_mode); lemma_kind(s, n, Key::SimulationMode); }
proof fn after_simulation_mode(s: Seq<AsrData>, n: int, r: Option<SimulationMode>) requires 0 <= n <= s.len(), r == got_simulation_mode(s, n), r is None ==> n == s.len() ensures r == got_simulation_mode(s, s.len() as int) { reveal(got_simulation_mode); if r is Some { lemma_find(s, n, s.len() as int, Key::SimulationMode); } }
proof fn none_tag_family(s: Seq<AsrData>) ensures got_tag_family(s, 0) is None { reveal(got_tag_family); }
proof fn step_tag_family(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_tag_family(s, n + 1) == (match got_tag_family(s, n) { Some(x) => Some(x), None => if s[n] is TagFamily { Some(s[n]->TagFamily_0@) } else { None } }) { reveal(got_tag_family); lemma_kind(s, n, Key::TagFamily); }
proof fn after_tag_family(s: Seq<AsrData>, n: int, r: Option<Seq<char>>) requires 0 <= n <= s.len(), r == got_tag_family(s, n), r is None ==> n == s.len() ensures r == got_tag_family(s, s.len() as int) { reveal(got_tag_family); if r is Some { lemma_find(s, n, s.len() as int, Key::TagFamily); } }
proof fn none_turn_leader(s: Seq<AsrData>) ensures got_turn_leader(s, 0) is None { reveal(got_turn_leader); }
proof fn step_turn_leader(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_turn_leader(s, n + 1) == (match got_turn_leader(s, n) { Some(x) => Some(x), None => if s[n] is TurnLeader { Some(s[n]->TurnLeader_0) } else { None } }) { reveal(got_turn_leader); lemma_kind(s, n, Key::TurnLeader); }
proof fn after_turn_leader(s: Seq<AsrData>, n: int, r: Option<bool>) requires 0 <= n <= s.len(), r == got_turn_leader(s, n), r is None ==> n == s.len() ensures r == got_turn_leader(s, s.len() as int) { reveal(got_turn_leader); if r is Some { lemma_find(s, n, s.len() as int, Key::TurnLeader); } }
proof fn none_window_area(s: Seq<AsrData>) ensures got_window_area(s, 0) is None { reveal(got_window_area); }
proof fn step_window_area(s: Seq<AsrData>, n: int) requires 0 <= n < s.len() ensures got_window_area(s, n + 1) == (match got_window_area(s, n) { Some(x) => Some(x), None => if s[n] is WindowArea { Some(s[n]->WindowArea_0) } else { None } }) { reveal(got_window_area); lemma_kind(s, n, Key::WindowArea); }
proof fn after_window_area(s: Seq<AsrData>, n: int, r: Option<(Coord, Coord)>) requires 0 <= n <= s.len(), r == got_window_area(s, n), r is None ==> n == s.len() ensures r == got_window_area(s, s.len() as int) { reveal(got_window_area); if r is Some { lemma_find(s, n, s.len() as int, Key::WindowArea); } }
pub open spec fn of_runways(v: Seq<(String, String, String, AsrMapRunwayType)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Runway(v[i])) }
pub open spec fn of_airports(v: Seq<(String, AsrMapFixType)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Airport(v[i])) }
pub open spec fn of_vors(v: Seq<(String, AsrMapNavaidType)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Vor(v[i])) }
pub open spec fn of_ndbs(v: Seq<(String, AsrMapNavaidType)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Ndb(v[i])) }
pub open spec fn of_fixes(v: Seq<(String, AsrMapFixType)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Fix(v[i])) }
pub open spec fn of_low_airways(v: Seq<(String, AsrMapAirwayType)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::LowAirway(v[i])) }
pub open spec fn of_high_airways(v: Seq<(String, AsrMapAirwayType)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::HighAirway(v[i])) }
pub open spec fn of_sids(v: Seq<String>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Sid(v[i])) }
pub open spec fn of_stars(v: Seq<String>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Star(v[i])) }
pub open spec fn of_free_text(v: Seq<(String, String)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::FreeText(v[i])) }
pub open spec fn of_geo(v: Seq<String>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Geo(v[i])) }
pub open spec fn of_ground_network(v: Seq<(String, AsrMapGroundNetworkType)>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::GroundNetwork(v[i])) }
pub open spec fn of_regions(v: Seq<String>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::Region(v[i])) }
pub open spec fn of_artcc_boundary(v: Seq<String>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::ArtccBoundary(v[i])) }
pub open spec fn of_artcc_low_boundary(v: Seq<String>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::ArtccLowBoundary(v[i])) }
pub open spec fn of_artcc_high_boundary(v: Seq<String>) -> Seq<AsrData> { Seq::new(v.len(), |i: int| AsrData::ArtccHighBoundary(v[i])) }
pub open spec fn or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub open spec fn optv(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
/// the map elements among the first n lines, by kind and in order
pub open spec fn map_is(m: AsrMap, s: Seq<AsrData>, n: int) -> bool {
    &&& of_runways(m.runways@) == all(s, n, Key::Runway)
    &&& of_airports(m.airports@) == all(s, n, Key::Airport)
    &&& of_vors(m.vors@) == all(s, n, Key::Vor)
    &&& of_ndbs(m.ndbs@) == all(s, n, Key::Ndb)
    &&& of_fixes(m.fixes@) == all(s, n, Key::Fix)
    &&& of_low_airways(m.low_airways@) == all(s, n, Key::LowAirway)
    &&& of_high_airways(m.high_airways@) == all(s, n, Key::HighAirway)
    &&& of_sids(m.sids@) == all(s, n, Key::Sid)
    &&& of_stars(m.stars@) == all(s, n, Key::Star)
    &&& of_free_text(m.free_text@) == all(s, n, Key::FreeText)
    &&& of_geo(m.geo@) == all(s, n, Key::Geo)
    &&& of_ground_network(m.ground_network@) == all(s, n, Key::GroundNetwork)
    &&& of_regions(m.regions@) == all(s, n, Key::Region)
    &&& of_artcc_boundary(m.artcc_boundary@) == all(s, n, Key::ArtccBoundary)
    &&& of_artcc_low_boundary(m.artcc_low_boundary@) == all(s, n, Key::ArtccLowBoundary)
    &&& of_artcc_high_boundary(m.artcc_high_boundary@) == all(s, n, Key::ArtccHighBoundary)
}
pub proof fn lemma_none(s: Seq<AsrData>) ensures of_runways(Seq::empty()) == all(s, 0, Key::Runway), of_airports(Seq::empty()) == all(s, 0, Key::Airport), of_vors(Seq::empty()) == all(s, 0, Key::Vor), of_ndbs(Seq::empty()) == all(s, 0, Key::Ndb), of_fixes(Seq::empty()) == all(s, 0, Key::Fix), of_low_airways(Seq::empty()) == all(s, 0, Key::LowAirway), of_high_airways(Seq::empty()) == all(s, 0, Key::HighAirway), of_sids(Seq::empty()) == all(s, 0, Key::Sid), of_stars(Seq::empty()) == all(s, 0, Key::Star), of_free_text(Seq::empty()) == all(s, 0, Key::FreeText), of_geo(Seq::empty()) == all(s, 0, Key::Geo), of_ground_network(Seq::empty()) == all(s, 0, Key::GroundNetwork), of_regions(Seq::empty()) == all(s, 0, Key::Region), of_artcc_boundary(Seq::empty()) == all(s, 0, Key::ArtccBoundary), of_artcc_low_boundary(Seq::empty()) == all(s, 0, Key::ArtccLowBoundary), of_artcc_high_boundary(Seq::empty()) == all(s, 0, Key::ArtccHighBoundary) { assert(of_runways(Seq::empty()) =~= all(s, 0, Key::Runway)); assert(of_airports(Seq::empty()) =~= all(s, 0, Key::Airport)); assert(of_vors(Seq::empty()) =~= all(s, 0, Key::Vor)); assert(of_ndbs(Seq::empty()) =~= all(s, 0, Key::Ndb)); assert(of_fixes(Seq::empty()) =~= all(s, 0, Key::Fix)); assert(of_low_airways(Seq::empty()) =~= all(s, 0, Key::LowAirway)); assert(of_high_airways(Seq::empty()) =~= all(s, 0, Key::HighAirway)); assert(of_sids(Seq::empty()) =~= all(s, 0, Key::Sid)); assert(of_stars(Seq::empty()) =~= all(s, 0, Key::Star)); assert(of_free_text(Seq::empty()) =~= all(s, 0, Key::FreeText)); assert(of_geo(Seq::empty()) =~= all(s, 0, Key::Geo)); assert(of_ground_network(Seq::empty()) =~= all(s, 0, Key::GroundNetwork)); assert(of_regions(Seq::empty()) =~= all(s, 0, Key::Region)); assert(of_artcc_boundary(Seq::empty()) =~= all(s, 0, Key::ArtccBoundary)); assert(of_artcc_low_boundary(Seq::empty()) =~= all(s, 0, Key::ArtccLowBoundary)); assert(of_artcc_high_boundary(Seq::empty()) =~= all(s, 0, Key::ArtccHighBoundary)); }
#[verifier::external_body]
pub fn asrmap_default() -> (r: AsrMap) ensures r.runways@ == Seq::<(String, String, String, AsrMapRunwayType)>::empty(), r.airports@ == Seq::<(String, AsrMapFixType)>::empty(), r.vors@ == Seq::<(String, AsrMapNavaidType)>::empty(), r.ndbs@ == Seq::<(String, AsrMapNavaidType)>::empty(), r.fixes@ == Seq::<(String, AsrMapFixType)>::empty(), r.low_airways@ == Seq::<(String, AsrMapAirwayType)>::empty(), r.high_airways@ == Seq::<(String, AsrMapAirwayType)>::empty(), r.sids@ == Seq::<String>::empty(), r.stars@ == Seq::<String>::empty(), r.free_text@ == Seq::<(String, String)>::empty(), r.geo@ == Seq::<String>::empty(), r.ground_network@ == Seq::<(String, AsrMapGroundNetworkType)>::empty(), r.regions@ == Seq::<String>::empty(), r.artcc_boundary@ == Seq::<String>::empty(), r.artcc_low_boundary@ == Seq::<String>::empty(), r.artcc_high_boundary@ == Seq::<String>::empty() { unimplemented!() }
pub trait VxMapFrom: Sized { spec fn built(self, s: Seq<AsrData>) -> bool; fn vx_map(data: Vec<AsrData>) -> (ret: Self) ensures ret.built(data@); }
pub fn asrmap_from(data: Vec<AsrData>) -> (r: AsrMap) ensures map_is(r, data@, data@.len() as int) { <AsrMap as VxMapFrom>::vx_map(data) }
/// plugin settings: a later line of the same plugin and key counts
pub open spec fn plugins(s: Seq<AsrData>, n: int) -> Map<(Seq<char>, Seq<char>), String>
    decreases n
{ if n <= 0 { Map::empty() } else { match s[n - 1] { AsrData::PluginSetting(x) => plugins(s, n - 1).insert((x.0@, x.1@), x.2), _ => plugins(s, n - 1) } } }
// ---- what a line says ----
pub open spec fn flag(s: Seq<char>) -> Option<bool> { if letter(s, '0') { Some(false) } else if letter(s, '1') { Some(true) } else { None } }
pub open spec fn part_of(p: Pair<Rule>) -> f64 {
    let q = p.kids()[0]; let k = q.kids();
    if q.rule() == Rule::DECIMAL { read_f64(q.text())->0 }
    else { fmul(fadd(fadd(read_f64(k[1].text())->0, fdiv(read_f64(k[2].text())->0, 60.0f64)), fdiv(read_f64(k[3].text())->0, 3600.0f64)), f_of(match sign_of(k[0].text())->0 { Sign::Pos => 1int, Sign::Neg => -1int })) }
}
pub open spec fn say_bool(s: Seq<char>, k: Key) -> Option<AsrData> {
    match flag(s) { None => None, Some(b) => match k { Key::DisablePanning => Some(AsrData::DisablePanning(b)), Key::DisableZooming => Some(AsrData::DisableZooming(b)), Key::DisplayTypeGeoReferenced => Some(AsrData::DisplayTypeGeoReferenced(b)), Key::DisplayTypeNeedRadarContent => Some(AsrData::DisplayTypeNeedRadarContent(b)), Key::ShowLeader => Some(AsrData::ShowLeader(b)), Key::ShowC => Some(AsrData::ShowC(b)), Key::ShowStandby => Some(AsrData::ShowStandby(b)), Key::TurnLeader => Some(AsrData::TurnLeader(b)), _ => None } }
}
/// no filter at level zero
pub open spec fn level(n: u32) -> Option<u32> { if n == 0 { None } else { Some(n) } }
pub open spec fn fix_type(r: Rule) -> AsrMapFixType { if r == Rule::symbol { AsrMapFixType::Symbol } else { AsrMapFixType::Name } }
pub open spec fn navaid_type(r: Rule) -> AsrMapNavaidType { if r == Rule::symbol { AsrMapNavaidType::Symbol } else if r == Rule::name { AsrMapNavaidType::Name } else { AsrMapNavaidType::Frequency } }
pub open spec fn airway_type(r: Rule) -> AsrMapAirwayType { if r == Rule::line { AsrMapAirwayType::Line } else { AsrMapAirwayType::Name } }
pub open spec fn ground_type(r: Rule) -> AsrMapGroundNetworkType { if r == Rule::exit { AsrMapGroundNetworkType::Exit } else if r == Rule::taxiway { AsrMapGroundNetworkType::Taxiway } else { AsrMapGroundNetworkType::TerminalTaxiway } }
#[verifier::opaque]
pub open spec fn said(p: Pair<Rule>) -> Option<AsrData> {
    let k = p.kids(); let t = k[0].text(); let s = string_of(t);
    match p.rule() {
        Rule::above => match read_u32(t) { Some(n) => Some(AsrData::Above(level(n))), None => None },
        Rule::below => match read_u32(t) { Some(n) => Some(AsrData::Below(level(n))), None => None },
        Rule::disable_panning => say_bool(t, Key::DisablePanning),
        Rule::disable_zooming => say_bool(t, Key::DisableZooming),
        Rule::display_rotation => Some(AsrData::DisplayRotation(read_f64(t)->0)),
        Rule::display_type => Some(AsrData::DisplayType(if t == "Ground Radar display"@ { DisplayType::GroundRadar } else { DisplayType::Radar })),
        Rule::display_type_geo_referenced => say_bool(t, Key::DisplayTypeGeoReferenced),
        Rule::display_type_need_radar_content => say_bool(t, Key::DisplayTypeNeedRadarContent),
        Rule::history_dots => match read_u8(t) { Some(n) => Some(AsrData::HistoryDots(n)), None => None },
        Rule::leader => match read_i8(t) { Some(n) => Some(AsrData::Leader(if n > 0 { Leader::Miles(n as u8) } else { Leader::Minutes((-(n as int)) as u8) })), None => None },
        Rule::sector_file => Some(AsrData::SectorFile(s)),
        Rule::sector_title => Some(AsrData::SectorTitle(s)),
        Rule::show_leader => say_bool(t, Key::ShowLeader),
        Rule::show_c => say_bool(t, Key::ShowC),
        Rule::show_standby => say_bool(t, Key::ShowStandby),
        Rule::simulation_mode => Some(AsrData::SimulationMode(if letter(t, '4') { SimulationMode::Ground } else { SimulationMode::Radar })),
        Rule::tag_family => Some(AsrData::TagFamily(s)),
        Rule::turn_leader => say_bool(t, Key::TurnLeader),
        Rule::window_area => Some(AsrData::WindowArea((Coord { x: part_of(k[1]), y: part_of(k[0]) }, Coord { x: part_of(k[3]), y: part_of(k[2]) }))),
        Rule::plugin => Some(AsrData::PluginSetting((s, string_of(k[1].text()), string_of(k[2].text())))),
        Rule::runways => if k[3].rule() == Rule::centerline { Some(AsrData::Runway((s, string_of(k[1].text()), string_of(k[2].text()), AsrMapRunwayType::Centreline))) } else if k[3].rule() == Rule::name { Some(AsrData::Runway((s, string_of(k[1].text()), string_of(k[2].text()), AsrMapRunwayType::Name))) } else { None },
        Rule::airports => Some(AsrData::Airport((s, fix_type(k[1].rule())))),
        Rule::fixes => Some(AsrData::Fix((s, fix_type(k[1].rule())))),
        Rule::ndbs => Some(AsrData::Ndb((s, navaid_type(k[1].rule())))),
        Rule::vors => Some(AsrData::Vor((s, navaid_type(k[1].rule())))),
        Rule::low_airways => Some(AsrData::LowAirway((s, airway_type(k[1].rule())))),
        Rule::high_airways => Some(AsrData::HighAirway((s, airway_type(k[1].rule())))),
        Rule::sids => Some(AsrData::Sid(s)),
        Rule::stars => Some(AsrData::Star(s)),
        Rule::free_text => Some(AsrData::FreeText((s, string_of(k[1].text())))),
        Rule::geo => Some(AsrData::Geo(s)),
        Rule::ground_network => Some(AsrData::GroundNetwork((s, ground_type(k[1].rule())))),
        Rule::regions => Some(AsrData::Region(s)),
        Rule::artcc_boundary => Some(AsrData::ArtccBoundary(s)),
        Rule::artcc_low_boundary => Some(AsrData::ArtccLowBoundary(s)),
        Rule::artcc_high_boundary => Some(AsrData::ArtccHighBoundary(s)),
        _ => None,
    }
}
/// the lines of a display file that say something
pub open spec fn lines(k: Seq<Pair<Rule>>, n: int) -> Seq<AsrData>
    decreases n
{ if n <= 0 { Seq::empty() } else { match said(k[n - 1]) { Some(d) => lines(k, n - 1).push(d), None => lines(k, n - 1) } } }
pub open spec fn shows(a: Asr, s: Seq<AsrData>) -> bool {
    &&& a.above == or(got_above(s, s.len() as int), None)
    &&& a.below == or(got_below(s, s.len() as int), None)
    &&& a.disable_panning == or(got_disable_panning(s, s.len() as int), false)
    &&& a.disable_zooming == or(got_disable_zooming(s, s.len() as int), false)
    &&& a.display_rotation == or(got_display_rotation(s, s.len() as int), 0.0f64)
    &&& a.display_type == or(got_display_type(s, s.len() as int), DisplayType::Radar)
    &&& a.display_type_geo_referenced == or(got_display_type_geo_referenced(s, s.len() as int), true)
    &&& a.display_type_need_radar_content == or(got_display_type_need_radar_content(s, s.len() as int), true)
    &&& a.history_dots == or(got_history_dots(s, s.len() as int), 5u8)
    &&& a.leader == or(got_leader(s, s.len() as int), Leader::Minutes(3))
    &&& a.sector_file@ == or(got_sector_file(s, s.len() as int), ""@)
    &&& a.sector_title@ == or(got_sector_title(s, s.len() as int), ""@)
    &&& a.show_leader == or(got_show_leader(s, s.len() as int), false)
    &&& a.show_c == or(got_show_c(s, s.len() as int), true)
    &&& a.show_standby == or(got_show_standby(s, s.len() as int), false)
    &&& a.simulation_mode == or(got_simulation_mode(s, s.len() as int), SimulationMode::Radar)
    &&& a.tag_family@ == or(got_tag_family(s, s.len() as int), "Matias (built in)"@)
    &&& a.turn_leader == or(got_turn_leader(s, s.len() as int), false)
    &&& a.window_area == or(got_window_area(s, s.len() as int), (Coord { x: 6.678_287f64, y: 46.529_122f64 }, Coord { x: 16.599_900f64, y: 50.105_536f64 }))
    &&& a.plugin_settings.0@ == plugins(s, s.len() as int)
    &&& map_is(a.map, s, s.len() as int)
}
//@ fn Sign::sign
//@ spec
ensures ret == (match self { Sign::Pos => 1i8, Sign::Neg => -1i8 }),
//@ fn Sign as From::from  trait=HemiFrom
//@ sig fn from_hemi(hemi: &str) -> (ret: Self)
//@ spec
ensures Some(ret) == sign_of(hemi@),
//@ at start
proof { reveal_strlit("N"); assert("N"@ =~= seq!['N']); axiom_str_ext(hemi, "N"); reveal_strlit("E"); assert("E"@ =~= seq!['E']); axiom_str_ext(hemi, "E"); reveal_strlit("n"); assert("n"@ =~= seq!['n']); axiom_str_ext(hemi, "n"); reveal_strlit("e"); assert("e"@ =~= seq!['e']); axiom_str_ext(hemi, "e"); reveal_strlit("S"); assert("S"@ =~= seq!['S']); axiom_str_ext(hemi, "S"); reveal_strlit("W"); assert("W"@ =~= seq!['W']); axiom_str_ext(hemi, "W"); reveal_strlit("s"); assert("s"@ =~= seq!['s']); axiom_str_ext(hemi, "s"); reveal_strlit("w"); assert("w"@ =~= seq!['w']); axiom_str_ext(hemi, "w");
    assert forall|c: char| letter(hemi@, c) implies hemi@ == seq![c] by { assert(hemi@ =~= seq![c]); } }
//@ fn to_bool
//@ spec
ensures ret == flag(data@),
//@ at start
proof { reveal_strlit("0"); assert("0"@ =~= seq!['0']); axiom_str_ext(data, "0"); reveal_strlit("1"); assert("1"@ =~= seq!['1']); axiom_str_ext(data, "1"); assert forall|c: char| letter(data@, c) implies data@ == seq![c] by { assert(data@ =~= seq![c]); } }
//@ fn parse_coordinate_part
//@ floats
//@ spec
requires g_coord_part(pair),
ensures ret == part_of(pair),
//@ fn parse_setting
//@ spec
requires in_asr(pair),
ensures ret == said(pair),
//@ at start
proof { reveal(said); axiom_string_of(); reveal_strlit("1"); assert("1"@ =~= seq!['1']); reveal_strlit("4"); assert("4"@ =~= seq!['4']); reveal_strlit("Ground Radar display"); reveal_strlit("Standard ES radar screen"); assert("Standard ES radar screen"@[0] != "Ground Radar display"@[0]);
    assert forall|s: &str| #![trigger s@] (s@ == "1"@ ==> s == "1") && (s@ == "4"@ ==> s == "4") && (s@ == "Ground Radar display"@ ==> s == "Ground Radar display") && (letter(s@, '1') ==> s == "1") && (letter(s@, '4') ==> s == "4") by { axiom_str_ext(s, "1"); axiom_str_ext(s, "4"); axiom_str_ext(s, "Ground Radar display"); if letter(s@, '1') { assert(s@ =~= seq!['1']); } if letter(s@, '4') { assert(s@ =~= seq!['4']); } } }
//@ fn AsrMap as From::from  trait=VxMapFrom
//@ type r0 AsrMap
//@ sig open spec fn built(self, s: Seq<AsrData>) -> bool { map_is(self, s, s.len() as int) } fn vx_map(data: Vec<AsrData>) -> (ret: Self)
//@ loop 0
    map_is(acc0, g0, it0.pos()),
//@ at start
proof { lemma_none(data@); }
//@ at loop0.start
let ghost before = acc0;
//@ at loop0.end
proof { let d = g0[it0.pos() - 1]; if let AsrData::Runway(x) = d { assert(of_runways(acc0.runways@) =~= of_runways(before.runways@).push(d)); } if let AsrData::Airport(x) = d { assert(of_airports(acc0.airports@) =~= of_airports(before.airports@).push(d)); } if let AsrData::Vor(x) = d { assert(of_vors(acc0.vors@) =~= of_vors(before.vors@).push(d)); } if let AsrData::Ndb(x) = d { assert(of_ndbs(acc0.ndbs@) =~= of_ndbs(before.ndbs@).push(d)); } if let AsrData::Fix(x) = d { assert(of_fixes(acc0.fixes@) =~= of_fixes(before.fixes@).push(d)); } if let AsrData::LowAirway(x) = d { assert(of_low_airways(acc0.low_airways@) =~= of_low_airways(before.low_airways@).push(d)); } if let AsrData::HighAirway(x) = d { assert(of_high_airways(acc0.high_airways@) =~= of_high_airways(before.high_airways@).push(d)); } if let AsrData::Sid(x) = d { assert(of_sids(acc0.sids@) =~= of_sids(before.sids@).push(d)); } if let AsrData::Star(x) = d { assert(of_stars(acc0.stars@) =~= of_stars(before.stars@).push(d)); } if let AsrData::FreeText(x) = d { assert(of_free_text(acc0.free_text@) =~= of_free_text(before.free_text@).push(d)); } if let AsrData::Geo(x) = d { assert(of_geo(acc0.geo@) =~= of_geo(before.geo@).push(d)); } if let AsrData::GroundNetwork(x) = d { assert(of_ground_network(acc0.ground_network@) =~= of_ground_network(before.ground_network@).push(d)); } if let AsrData::Region(x) = d { assert(of_regions(acc0.regions@) =~= of_regions(before.regions@).push(d)); } if let AsrData::ArtccBoundary(x) = d { assert(of_artcc_boundary(acc0.artcc_boundary@) =~= of_artcc_boundary(before.artcc_boundary@).push(d)); } if let AsrData::ArtccLowBoundary(x) = d { assert(of_artcc_low_boundary(acc0.artcc_low_boundary@) =~= of_artcc_low_boundary(before.artcc_low_boundary@).push(d)); } if let AsrData::ArtccHighBoundary(x) = d { assert(of_artcc_high_boundary(acc0.artcc_high_boundary@) =~= of_artcc_high_boundary(before.artcc_high_boundary@).push(d)); } }
//@ fn Asr::parse
//@ spec
ensures match ret { Ok(a) => tree(text_of(content@)) is Some && ({ let k = tree(text_of(content@))->0[0].kids(); shows(a, lines(k, k.len() as int)) }), Err(_) => true },
//@ at start

proof { axiom_tree(text_of(content@)); if tree(text_of(content@)) is Some { let t = tree(text_of(content@))->0; assert(root_asr(t)); assert forall|i: int| 0 <= i < t[0].kids().len() implies in_asr(#[trigger] t[0].kids()[i]) by { } } reveal_strlit(""); assert(""@ =~= Seq::empty()); }
//@ loop 0
    tree(text_of(content@)) is Some, g0 == tree(text_of(content@))->0[0].kids(), forall|i: int| 0 <= i < g0.len() ==> in_asr(#[trigger] g0[i]),
    acc0@ == lines(g0, it0.pos()),
//@ type acc0 Vec<AsrData>
//@ loop 1
    g1 == seq_refs(sections@), r1 == got_above(sections@, it1.pos()),
//@ type r1 Option<Option<u32>>
//@ at loop1.before
proof { none_above(sections@); }
//@ at loop1.after
proof { after_above(sections@, it1.pos(), r1); }
//@ at loop1.start
proof { step_above(sections@, it1.pos() - 1); }
//@ loop 2
    g2 == seq_refs(sections@), r2 == got_below(sections@, it2.pos()),
//@ type r2 Option<Option<u32>>
//@ at loop2.before
proof { none_below(sections@); }
//@ at loop2.after
proof { after_below(sections@, it2.pos(), r2); }
//@ at loop2.start
proof { step_below(sections@, it2.pos() - 1); }
//@ loop 3
    g3 == seq_refs(sections@), r3 == got_disable_panning(sections@, it3.pos()),
//@ type r3 Option<bool>
//@ at loop3.before
proof { none_disable_panning(sections@); }
//@ at loop3.after
proof { after_disable_panning(sections@, it3.pos(), r3); }
//@ at loop3.start
proof { step_disable_panning(sections@, it3.pos() - 1); }
//@ loop 4
    g4 == seq_refs(sections@), r4 == got_disable_zooming(sections@, it4.pos()),
//@ type r4 Option<bool>
//@ at loop4.before
proof { none_disable_zooming(sections@); }
//@ at loop4.after
proof { after_disable_zooming(sections@, it4.pos(), r4); }
//@ at loop4.start
proof { step_disable_zooming(sections@, it4.pos() - 1); }
//@ loop 5
    g5 == seq_refs(sections@), r5 == got_display_rotation(sections@, it5.pos()),
//@ type r5 Option<f64>
//@ at loop5.before
proof { none_display_rotation(sections@); }
//@ at loop5.after
proof { after_display_rotation(sections@, it5.pos(), r5); }
//@ at loop5.start
proof { step_display_rotation(sections@, it5.pos() - 1); }
//@ loop 6
    g6 == seq_refs(sections@), r6 == got_display_type(sections@, it6.pos()),
//@ type r6 Option<DisplayType>
//@ at loop6.before
proof { none_display_type(sections@); }
//@ at loop6.after
proof { after_display_type(sections@, it6.pos(), r6); }
//@ at loop6.start
proof { step_display_type(sections@, it6.pos() - 1); }
//@ loop 7
    g7 == seq_refs(sections@), r7 == got_display_type_geo_referenced(sections@, it7.pos()),
//@ type r7 Option<bool>
//@ at loop7.before
proof { none_display_type_geo_referenced(sections@); }
//@ at loop7.after
proof { after_display_type_geo_referenced(sections@, it7.pos(), r7); }
//@ at loop7.start
proof { step_display_type_geo_referenced(sections@, it7.pos() - 1); }
//@ loop 8
    g8 == seq_refs(sections@), r8 == got_display_type_need_radar_content(sections@, it8.pos()),
//@ type r8 Option<bool>
//@ at loop8.before
proof { none_display_type_need_radar_content(sections@); }
//@ at loop8.after
proof { after_display_type_need_radar_content(sections@, it8.pos(), r8); }
//@ at loop8.start
proof { step_display_type_need_radar_content(sections@, it8.pos() - 1); }
//@ loop 9
    g9 == seq_refs(sections@), r9 == got_history_dots(sections@, it9.pos()),
//@ type r9 Option<u8>
//@ at loop9.before
proof { none_history_dots(sections@); }
//@ at loop9.after
proof { after_history_dots(sections@, it9.pos(), r9); }
//@ at loop9.start
proof { step_history_dots(sections@, it9.pos() - 1); }
//@ loop 10
    g10 == seq_refs(sections@), r10 == got_leader(sections@, it10.pos()),
//@ type r10 Option<Leader>
//@ at loop10.before
proof { none_leader(sections@); }
//@ at loop10.after
proof { after_leader(sections@, it10.pos(), r10); }
//@ at loop10.start
proof { step_leader(sections@, it10.pos() - 1); }
//@ loop 11
    g11 == seq_refs(sections@), optv(r11) == got_sector_file(sections@, it11.pos()),
//@ type r11 Option<String>
//@ at loop11.before
proof { none_sector_file(sections@); }
//@ at loop11.after
proof { after_sector_file(sections@, it11.pos(), optv(r11)); }
//@ at loop11.start
proof { step_sector_file(sections@, it11.pos() - 1); }
//@ loop 12
    g12 == seq_refs(sections@), optv(r12) == got_sector_title(sections@, it12.pos()),
//@ type r12 Option<String>
//@ at loop12.before
proof { none_sector_title(sections@); }
//@ at loop12.after
proof { after_sector_title(sections@, it12.pos(), optv(r12)); }
//@ at loop12.start
proof { step_sector_title(sections@, it12.pos() - 1); }
//@ loop 13
    g13 == seq_refs(sections@), r13 == got_show_leader(sections@, it13.pos()),
//@ type r13 Option<bool>
//@ at loop13.before
proof { none_show_leader(sections@); }
//@ at loop13.after
proof { after_show_leader(sections@, it13.pos(), r13); }
//@ at loop13.start
proof { step_show_leader(sections@, it13.pos() - 1); }
//@ loop 14
    g14 == seq_refs(sections@), r14 == got_show_c(sections@, it14.pos()),
//@ type r14 Option<bool>
//@ at loop14.before
proof { none_show_c(sections@); }
//@ at loop14.after
proof { after_show_c(sections@, it14.pos(), r14); }
//@ at loop14.start
proof { step_show_c(sections@, it14.pos() - 1); }
//@ loop 15
    g15 == seq_refs(sections@), r15 == got_show_standby(sections@, it15.pos()),
//@ type r15 Option<bool>
//@ at loop15.before
proof { none_show_standby(sections@); }
//@ at loop15.after
proof { after_show_standby(sections@, it15.pos(), r15); }
//@ at loop15.start
proof { step_show_standby(sections@, it15.pos() - 1); }
//@ loop 16
    g16 == seq_refs(sections@), r16 == got_simulation_mode(sections@, it16.pos()),
//@ type r16 Option<SimulationMode>
//@ at loop16.before
proof { none_simulation_mode(sections@); }
//@ at loop16.after
proof { after_simulation_mode(sections@, it16.pos(), r16); }
//@ at loop16.start
proof { step_simulation_mode(sections@, it16.pos() - 1); }
//@ loop 17
    g17 == seq_refs(sections@), optv(r17) == got_tag_family(sections@, it17.pos()),
//@ type r17 Option<String>
//@ at loop17.before
proof { none_tag_family(sections@); }
//@ at loop17.after
proof { after_tag_family(sections@, it17.pos(), optv(r17)); }
//@ at loop17.start
proof { step_tag_family(sections@, it17.pos() - 1); }
//@ loop 18
    g18 == seq_refs(sections@), r18 == got_turn_leader(sections@, it18.pos()),
//@ type r18 Option<bool>
//@ at loop18.before
proof { none_turn_leader(sections@); }
//@ at loop18.after
proof { after_turn_leader(sections@, it18.pos(), r18); }
//@ at loop18.start
proof { step_turn_leader(sections@, it18.pos() - 1); }
//@ loop 19
    g19 == seq_refs(sections@), r19 == got_window_area(sections@, it19.pos()),
//@ type r19 Option<(Coord, Coord)>
//@ at loop19.before
proof { none_window_area(sections@); }
//@ at loop19.after
proof { after_window_area(sections@, it19.pos(), r19); }
//@ at loop19.start
proof { step_window_area(sections@, it19.pos() - 1); }
//@ loop 20
    g20 == seq_refs(sections@), map_of(acc20@) == plugins(sections@, it20.pos()),
//@ type acc20 Vec<((String, String), String)>
//@ at loop20.start
let ghost before = acc20@;
//@ at loop20.end
proof { if sections@[it20.pos() - 1] is PluginSetting { assert(acc20@.drop_last() =~= before); } }

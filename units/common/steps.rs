// ---- common/steps.rs: the drawing steps of symbols, as their lines say them ----
pub const VX_EPSILON: f64 = 2.220446049250313e-16f64;
/// IEEE comparison
pub uninterp spec fn fless(a: f64, b: f64) -> bool;
#[verifier::external_body]
pub fn vx_clt(a: &f64, b: &f64) -> (r: bool) ensures r == fless(*a, *b) { unimplemented!() }
/// remainder with the sign of the dividend
pub open spec fn turn(n: i64) -> i64 { (if n >= 0 { n as int % 360 } else { -((-n as int) % 360) }) as i64 }
pub open spec fn at(p: Pair<Rule>) -> (f64, f64) { (read_f64(p.kids()[0].text())->0, read_f64(p.kids()[1].text())->0) }
pub open spec fn fl(p: Pair<Rule>) -> f64 { read_f64(p.text())->0 }
pub open spec fn angle(p: Pair<Rule>) -> i64 { turn(read_i64(p.text())->0) }
/// radii that differ by less than the machine epsilon make a circle
pub open spec fn round(a: f64, b: f64) -> bool { fless(fabs(fsub(a, b)), VX_EPSILON) }
/// the drawing step a line says
pub open spec fn step(r: SymbolRule, p: Pair<Rule>) -> bool {
    let k = p.kids();
    match p.rule() {
        Rule::moveto => r == SymbolRule::Move(at(k[0])),
        Rule::line => r == SymbolRule::Line(at(k[0])),
        Rule::pixel => r == SymbolRule::Pixel(at(k[0])),
        Rule::arc => r == SymbolRule::Arc(at(k[0]), fl(k[1]), angle(k[2]), angle(k[3])),
        Rule::arc_ellipse => r == (if round(fl(k[1]), fl(k[2])) { SymbolRule::Arc(at(k[0]), fl(k[1]), angle(k[3]), angle(k[4])) } else { SymbolRule::EllipticArc(at(k[0]), fl(k[1]), fl(k[2]), angle(k[3]), angle(k[4])) }),
        Rule::fillarc => r == SymbolRule::FilledArc(at(k[0]), fl(k[1]), angle(k[2]), angle(k[3])),
        Rule::fillarc_ellipse => r == (if round(fl(k[1]), fl(k[2])) { SymbolRule::FilledArc(at(k[0]), fl(k[1]), angle(k[3]), angle(k[4])) } else { SymbolRule::FilledEllipticArc(at(k[0]), fl(k[1]), fl(k[2]), angle(k[3]), angle(k[4])) }),
        Rule::ellipse_circle => r == SymbolRule::FilledArc(at(k[0]), fl(k[1]), 0, 0),
        Rule::ellipse => r == SymbolRule::FilledEllipticArc(at(k[0]), fl(k[1]), fl(k[2]), 0, 0),
        Rule::fillrect => r matches SymbolRule::Polygon(v) && v@ =~= seq![at(k[0]), (at(k[1]).0, at(k[0]).1), at(k[1]), (at(k[0]).0, at(k[1]).1)],
        Rule::polygon => r matches SymbolRule::Polygon(v) && v@.len() == k.len() && forall|i: int| 0 <= i < k.len() ==> #[trigger] v@[i] == at(k[i]),
        _ => false,
    }
}

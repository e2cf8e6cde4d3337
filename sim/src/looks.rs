//! Reference semantics of the sprite properties a host keeps on behalf of the program.
use std::collections::BTreeMap;
use super::{fail, discard, fin, Model, R, V};
use crate::ir::Look;

/// Hue, saturation and brightness (percent) and transparency (percent) of an ARGB colour.
fn hsvt(c: u32) -> [f64; 4] {
    let [a, r, g, b] = c.to_be_bytes().map(|x| x as f64 / 255.0);
    let (max, min) = (r.max(g).max(b), r.min(g).min(b));
    let d = max - min;
    let h = if d == 0.0 { 0.0 } else if max == r { ((g - b) / d).rem_euclid(6.0) } else if max == g { (b - r) / d + 2.0 } else { (r - g) / d + 4.0 };
    [h * 60.0, if max == 0.0 { 0.0 } else { d / max * 100.0 }, max * 100.0, (1.0 - a) * 100.0]
}
fn argb([h, s, v, t]: [f64; 4]) -> u32 {
    let (s, v) = (s / 100.0, v / 100.0);
    let f = |n: f64| { let k = (n + h / 60.0).rem_euclid(6.0); ((v - v * s * k.min(4.0 - k).clamp(0.0, 1.0)) * 255.0).round() as u8 };
    u32::from_be_bytes([((1.0 - t / 100.0) * 255.0).round() as u8, f(5.0), f(3.0), f(1.0)])
}
const PEN: [&str; 4] = ["PenColorH", "PenColorS", "PenColorV", "PenColorT"];
pub const NUMERIC: [&str; 21] = ["XPos", "YPos", "Heading", "Size", "PenSize", "PenColorH", "PenColorS", "PenColorV", "PenColorT", "Tempo", "Volume", "Balance", "ColorH", "ColorS", "ColorV", "ColorT", "Fisheye", "Whirl", "Pixelate", "Mosaic", "Negative"];

#[derive(Clone, Debug, PartialEq)]
pub struct Looks { pub n: BTreeMap<&'static str, f64>, pub visible: bool, pub pen_down: bool, /** the pen colour while it is the one that was set as a whole */ pub pen: Option<u32>, /** pen attributes known only up to rounding */ pub rough: [bool; 4] }
/// A full turn.
fn turn(x: f64) -> f64 { let r = x % 360.0; if r < 0.0 { r + 360.0 } else { r } }
fn rule(p: &str, x: f64) -> f64 {
    match p {
        "Heading" | "PenColorH" | "ColorH" => turn(x),
        "Size" | "PenSize" => x.max(0.0),
        "PenColorS" | "PenColorV" | "PenColorT" | "ColorS" | "ColorV" | "ColorT" => x.clamp(0.0, 100.0),
        _ => x,
    }
}
impl Looks {
    pub fn new(l: &Look) -> Looks {
        let mut n: BTreeMap<&'static str, f64> = NUMERIC.iter().map(|x| (*x, 0.0)).collect();
        for (k, v) in [("XPos", l.pos.0), ("YPos", l.pos.1), ("Heading", turn(l.heading)), ("Size", l.scale * 100.0), ("PenSize", 1.0), ("Tempo", 60.0), ("Volume", 100.0)] { n.insert(k, v + 0.0); }
        let mut s = Looks { n, visible: l.visible, pen_down: false, pen: None, rough: [false; 4] };
        s.pen_color(u32::from_be_bytes([l.color.3, l.color.0, l.color.1, l.color.2]));
        s
    }
    fn pen_color(&mut self, c: u32) {
        for (k, v) in PEN.iter().zip(hsvt(c)) { self.n.insert(k, v); }
        self.rough = [true; 4];
        self.pen = Some(c);
    }
    /// The colour the pen draws with, and by how much each channel may differ.
    pub fn pen_argb(&self) -> (u32, u8) { match self.pen { Some(c) => (c, 0), None => (argb(PEN.map(|k| self.n[k])), 1) } }
    pub fn is_rough(&self, p: &str) -> bool { PEN.iter().position(|x| *x == p).is_some_and(|i| self.rough[i]) }
    fn put(&mut self, p: &str, v: f64, absolute: bool) {
        let k = NUMERIC.iter().find(|x| **x == p).unwrap();
        self.n.insert(k, v + 0.0);
        if let Some(i) = PEN.iter().position(|x| *x == p) { self.pen = None; if absolute { self.rough[i] = false } }
    }
}
impl Model {
    /// The effect of a host operation on the properties of a sprite; `None` when it has nothing to do with them.
    pub fn looks_op(&mut self, ent: usize, what: &str, args: &[V]) -> R<Option<V>> {
        let (verb, p) = what.split_once(' ').unwrap_or((what, ""));
        if matches!(verb, "get" | "set" | "change" | "gotoxy" | "gotoent" | "pointxy" | "pointent" | "forward" | "cleareffects") { self.hit("property operations") }
        let l = &self.ents[ent].looks;
        let (x, y, heading) = (l.n["XPos"], l.n["YPos"], l.n["Heading"]);
        match verb {
            "get" => {
                if l.is_rough(p) { return discard("rounding of the pen colour") }
                return Ok(Some(match p { "Visible" => V::T(l.visible), "PenDown" => V::T(l.pen_down), _ => V::N(l.n[p]) }));
            }
            "set" | "change" => {
                let set = verb == "set";
                match p {
                    "Visible" => { let v = self.bool(&args[0])?; let l = &mut self.ents[ent].looks; l.visible = if set { v } else { l.visible ^ v } }
                    "PenDown" => { let v = self.bool(&args[0])?; let l = &mut self.ents[ent].looks; l.pen_down = if set { v } else { l.pen_down ^ v } }
                    "PenColor" => { let v = self.num(&args[0])?; if !set { return fail() } self.ents[ent].looks.pen_color(v as u32) }
                    _ => {
                        let v = self.num(&args[0])?;
                        let v = if set { v } else { self.ents[ent].looks.n[p] + v };
                        // an intermediate result beyond all numbers
                        if !v.is_finite() { if p.starts_with("Size") || p.starts_with("PenSize") || p.contains("Color") { return discard("overflow of a limited property") } return fail() }
                        let v = fin(rule(p, v))?;
                        self.ents[ent].looks.put(p, v, set)
                    }
                }
            }
            "gotoxy" => { let (a, b) = (self.num(&args[0])?, self.num(&args[1])?); self.place(ent, a, b) }
            "gotoent" => { let (a, b) = self.place_of(&args[0]); self.place(ent, a, b) }
            "pointxy" | "pointent" => {
                let (a, b) = if verb == "pointxy" { (self.num(&args[0])?, self.num(&args[1])?) } else { self.place_of(&args[0]) };
                let h = fin(turn(libm::atan2(a - x, b - y).to_degrees()))?;
                self.ents[ent].looks.put("Heading", h, true)
            }
            "forward" => {
                let d = self.num(&args[0])?;
                let r = heading.to_radians();
                let (a, b) = (fin(x + libm::sin(r) * d)?, fin(y + libm::cos(r) * d)?);
                self.place(ent, a, b)
            }
            "cleareffects" => for k in ["ColorH", "ColorS", "ColorV", "ColorT", "Fisheye", "Whirl", "Pixelate", "Mosaic", "Negative"] { self.ents[ent].looks.put(k, 0.0, true) },
            _ => (),
        }
        Ok(None)
    }
    fn place(&mut self, ent: usize, x: f64, y: f64) { let l = &mut self.ents[ent].looks; l.put("XPos", x, true); l.put("YPos", y, true) }
    fn place_of(&self, v: &V) -> (f64, f64) { match v { V::E(e) => (self.ents[*e].looks.n["XPos"], self.ents[*e].looks.n["YPos"]), _ => (0.0, 0.0) } }
}

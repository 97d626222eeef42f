#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
use tiny_spice::analysis::{Configuration, Kind};
use tiny_spice::circuit::*;
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

fn r(c: &mut Circuit, a: usize, b: usize, v: f64) {
    c.elements.push(Element::R(Resistor { ident: "r".to_string(), a, b, value: v }));
}
fn i(c: &mut Circuit, p: usize, n: usize, v: f64) {
    c.add_i(p, n, v);
}
fn v(c: &mut Circuit, p: usize, n: usize, x: f64) {
    c.add_v(p, n, x);
}
fn cap(c: &mut Circuit, a: usize, b: usize, x: f64) {
    c.elements.push(Element::C(Capacitor { ident: "c".to_string(), a, b, value: x }));
}
fn diode(c: &mut Circuit, p: usize, n: usize, is: f64) {
    c.elements.push(Element::D(Diode::new("d", p, n, is, 27.0)));
}
/// a circuit with nodes 0..n
fn ckt(n: usize) -> Circuit {
    let mut c = Circuit::new();
    for k in 1..n {
        c.add_node(&format!("n{}", k));
    }
    c.build_node_id_lut();
    c
}
fn dc(c: &Circuit, cfg: &Configuration) -> Vec<f64> {
    let mut e = Engine::new();
    e.dc_operating_point(c, cfg);
    e.dc().unwrap()
}
/// header and rows of the waveform of a transient analysis
fn tran_with(e: &mut Engine, c: &Circuit, cfg: &Configuration) -> (Vec<String>, Vec<Vec<f64>>, f64) {
    let f = format!("w{}.dat", std::process::id());
    let mut cfg = cfg.clone();
    cfg.set_wavefile(&f);
    let st = e.transient_analysis(c, &cfg);
    let t = std::fs::read_to_string(&f).unwrap_or_default();
    let mut it = t.lines();
    let h = it.next().unwrap_or("").split('\t').map(|x| x.to_string()).collect();
    it.next();
    let rows = it.map(|l| l.split('\t').map(|x| x.parse::<f64>().unwrap()).collect()).collect();
    (h, rows, st.end)
}
fn tran(c: &Circuit, cfg: &Configuration) -> Vec<Vec<f64>> {
    tran_with(&mut Engine::new(), c, cfg).1
}
/// reads a deck: (errors?, reader)
fn deck(text: &str) -> (bool, Reader) {
    std::fs::write("deck.spi", text).unwrap();
    let mut rd = Reader::new();
    let e = rd.read(std::path::Path::new("deck.spi"));
    (e, rd)
}
/// node voltage of an expanded circuit by name
fn at(c: &Circuit, x: &[f64], name: &str) -> f64 {
    x[*c.nodes.get(name).unwrap_or_else(|| panic!("no node {}", name))]
}
fn close(a: f64, b: f64, tol: f64, what: &str) {
    println!("{}: {} (expected {})", what, a, b);
    if !((a - b).abs() <= tol) {
        println!("WRONG {}: {} instead of {}", what, a, b);
        std::process::exit(1);
    }
}
fn yes(b: bool, what: &str) {
    if !b {
        println!("WRONG {}", what);
        std::process::exit(1);
    }
}

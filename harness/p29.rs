// The description of a body: what was put in is what is read back, whatever came after it.
use crate::element::constraint::Constraint;
use crate::element::material::Material;
use crate::element::strain::Condition;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::fem::*;
use crate::matrix::solve::{Solver, System};
use crate::spatial::Point;
use crate::util::*;

fn same(name: &str, p: Point, q: P2) {
    vt::check(name, p.dim() == 2);
    vt::prove(name, vt::eq(p[0], q.0).and(vt::eq(p[1], q.1)));
}
fn set(t: [usize; 3]) -> [usize; 3] {
    let mut t = t;
    t.sort();
    t
}

struct Log {
    nodes: Vec<P2>,
    tris: Vec<[usize; 3]>,
    loads: Vec<(usize, P2)>,
    lines: Vec<((usize, usize), P2)>,
    cons: Vec<Constraint>,
    kind: Cond,
    t: f64,
    m: Material,
}
impl Log {
    fn judge(&self, el: &ElementAssemblage) {
        let n = self.nodes.len();
        vt::check("number of nodes", el.node_count() == n && el.nodes().len() == n);
        vt::check("one id per node", el.node_ids().map(|i| i.into_idx()).collect::<Vec<_>>() == (0..n).collect::<Vec<_>>());
        for (i, p) in el.nodes().into_iter().enumerate() {
            same("nodes in the order given", p, self.nodes[i]);
        }
        for id in el.node_ids() {
            same("node of an id", el.node(id), self.nodes[id.into_idx()]);
        }
        let d: Vec<[usize; 3]> = el.element_descriptors().into_iter().map(|d| d.into_parts()).map(|p| set([p[0].into_idx(), p[1].into_idx(), p[2].into_idx()])).collect();
        vt::check("elements in the order given", d == self.tris.iter().map(|t| set(*t)).collect::<Vec<_>>());
        let d: Vec<[usize; 3]> = el.triangles().into_iter().map(|t| set([t.0, t.1, t.2])).collect();
        vt::check("one triangle per element", d == self.tris.iter().map(|t| set(*t)).collect::<Vec<_>>());
        let mut want: Vec<(usize, usize)> = self.tris.iter().map(|t| set(*t)).flat_map(|t| vec![(t[0], t[1]), (t[1], t[2]), (t[0], t[2])]).collect();
        want.sort();
        want.dedup();
        let mut got: Vec<(usize, usize)> = el.edges().into_iter().map(|e| (e.0.min(e.1), e.0.max(e.1))).collect();
        got.sort();
        vt::check("every side once", got == want);
        let got = el.conc_forces();
        vt::check("number of node loads", got.len() == self.loads.len());
        for (id, f) in self.loads.iter() {
            let l: Vec<_> = got.iter().filter(|x| x.0 == NodeId::new(*id)).collect();
            vt::check("node load at its node", l.len() == 1);
            same("node load", l[0].1, *f);
        }
        let got = el.dist_forces();
        vt::check("number of edge loads", got.len() == self.lines.len());
        for (e, f) in self.lines.iter() {
            let l: Vec<_> = got.iter().filter(|x| ((x.0).0.into_idx(), (x.0).1.into_idx()) == *e || ((x.0).1.into_idx(), (x.0).0.into_idx()) == *e).collect();
            vt::check("edge load at its edge", l.len() == 1);
            same("edge load", l[0].1, *f);
        }
        let got = el.constraints();
        vt::check("one restraint per node, in order", got.iter().map(|c| c.0.into_idx()).collect::<Vec<_>>() == (0..n).collect::<Vec<_>>());
        for i in 0..n {
            alike("restraint", got[i].1, self.cons[i]);
        }
        let m = el.material();
        vt::check("material name", m.name == self.m.name);
        vt::prove("material", vt::eq(m.youngs, self.m.youngs).and(vt::eq(m.poisson, self.m.poisson)).and(vt::eq(m.density, self.m.density)));
        match (el.condition(), self.kind) {
            (Condition::PlaneStress(t), Cond::Stress) | (Condition::PlaneStrain(t), Cond::Strain) => vt::prove("thickness", vt::eq(t, self.t)),
            (Condition::Axisymmetric, Cond::Axi) => {}
            _ => vt::check("condition", false),
        }
    }
}
fn alike(name: &str, a: Constraint, b: Constraint) {
    match (a, b) {
        (Constraint::AngleFixed(x), Constraint::AngleFixed(y)) => vt::prove(name, vt::eq(x, y)),
        (Constraint::Free, Constraint::Free) | (Constraint::XFixed, Constraint::XFixed) => {}
        (Constraint::YFixed, Constraint::YFixed) | (Constraint::XYFixed, Constraint::XYFixed) => {}
        _ => vt::check(name, false),
    }
}

struct Rest;
impl Solver for Rest {
    fn new(_: System) -> Self {
        Rest
    }
    fn solve(self) -> Result<Vec<f64>, ()> {
        Err(())
    }
}

fn start(c: usize) -> (ElementAssemblage, Log) {
    let kind = CONDS[c % 3];
    let m = sym_material();
    let t = sym_thickness();
    let el = ElementAssemblage::new(m, condition(kind, t));
    let log = Log { nodes: vec![], tris: vec![], loads: vec![], lines: vec![], cons: vec![], kind, t, m };
    log.judge(&el);
    (el, log)
}
fn nodes(el: &mut ElementAssemblage, log: &mut Log, ps: &[P2]) {
    let at = log.nodes.len();
    let ids = el.add_nodes(ps);
    vt::check("an id for each node added, in order", ids.iter().map(|i| i.into_idx()).collect::<Vec<_>>() == (at..at + ps.len()).collect::<Vec<_>>());
    log.nodes.extend(ps.iter().cloned());
    log.cons.extend(ps.iter().map(|_| Constraint::Free));
}
fn element(el: &mut ElementAssemblage, log: &mut Log, t: [usize; 3]) {
    el.add_element(ElementDescriptor::new([NodeId::new(t[0]), NodeId::new(t[1]), NodeId::new(t[2])]));
    log.tris.push(t);
}
fn pt(f: P2) -> Point {
    Point::new(&[f.0, f.1])
}
fn pair(s: &str) -> P2 {
    (vt::var(&format!("{}x", s)), vt::var(&format!("{}y", s)))
}

// any order of what a description is made of
fn history(c: usize) {
    vt::set_hash_seed(c);
    let (mut el, mut log) = start(c);
    let ccw = vt::flip("counterclockwise");
    // a rotational body asks for the sign of every radius
    let p = match (log.kind == Cond::Axi, ccw) {
        (true, true) => vec![(1.0, 0.0), (4.0, 0.5), (2.0, 4.0)],
        (true, false) => vec![(1.0, 0.0), (2.0, 4.0), (4.0, 0.5)],
        _ => sym_triangle("", ccw),
    };
    nodes(&mut el, &mut log, &p);
    let mut used: Vec<usize> = vec![];
    for k in 0..3 {
        let what = vt::choose("what", 5);
        let i = (k + c) % 3;
        match what {
            0 => {
                let extra: Vec<P2> = (0..k).map(|j| pair(&format!("n{}_{}", k, j))).collect();
                nodes(&mut el, &mut log, &extra);
            }
            1 => element(&mut el, &mut log, [i, (i + 1) % 3, (i + 2) % 3]),
            2 => {
                let f = pair(&format!("f{}", k));
                el.add_conc_force(NodeId::new(i), pt(f));
                log.loads.push((i, f));
            }
            3 => {
                let f = pair(&format!("q{}", k));
                let (a, b) = if k % 2 == 0 { (i, (i + 1) % 3) } else { ((i + 1) % 3, i) };
                el.add_dist_line_force(NodeId::new(a), NodeId::new(b), pt(f));
                log.lines.push(((a, b), f));
            }
            _ => {
                let r = restraint(&format!("a{}", k), (c + 2 * k + used.len()) % 5);
                el.add_constraint(NodeId::new(i), r);
                log.cons[i] = r;
                used.push(i);
            }
        }
        log.judge(&el);
    }
    // an analysis, with or without an outcome, reads it only
    let _ = vt::catches(|| {
        el.calc_displacements::<Rest>();
    });
    log.judge(&el);
}

// a larger body put together in one go, nodes in several batches
fn big(c: usize) {
    vt::set_hash_seed(c);
    let mut d = Dice::new(c);
    let b = body(c, &mut d);
    let (mut el, mut log) = start(c);
    let n = b.pts.len();
    let mut at = 0;
    while at < n {
        let to = (at + 1 + d.next(4)).min(n);
        nodes(&mut el, &mut log, &b.pts[at..to]);
        at = to;
    }
    for t in b.tris.iter() {
        element(&mut el, &mut log, *t);
    }
    for i in 0..n {
        if d.next(2) == 0 {
            let f = pair(&format!("f{}", i));
            el.add_conc_force(NodeId::new(i), pt(f));
            log.loads.push((i, f));
        }
        let r = restraint(&format!("a{}", i), d.next(5));
        el.add_constraint(NodeId::new(i), r);
        log.cons[i] = r;
    }
    for (i, e) in el.edges().into_iter().enumerate() {
        if d.next(2) == 0 {
            let f = pair(&format!("q{}", i));
            let e = if d.next(2) == 0 { e } else { (e.1, e.0) };
            el.add_dist_line_force(NodeId::new(e.0), NodeId::new(e.1), pt(f));
            log.lines.push((e, f));
        }
    }
    log.judge(&el);
    let _ = vt::catches(|| {
        el.calc_displacements::<Rest>();
    });
    log.judge(&el);
}

// names written to files are understood when read back
fn names(c: usize) {
    let back = |r: Constraint| r.to_string().parse::<Constraint>();
    let r = match c {
        0..=4 => restraint("a", c),
        _ => Constraint::AngleFixed([0.7853981633974483, -2.5, 1.0 / 3.0, 0.0000001, 31415926.5, -0.1][c - 5]),
    };
    let got = back(r);
    vt::check("a restraint's name is understood", got.is_ok());
    alike("restraint of that name", got.unwrap(), r);
    for s in ["", "z", "X", "yx", "xyx", " x", "angle", "angle:", "angle:x", "angle 1", "fixed"].iter() {
        vt::check("other names are refused", s.parse::<Constraint>().is_err());
    }
    for m in [crate::element::material::AL6061, crate::element::material::TEST].iter() {
        let got = m.to_string().parse::<Material>();
        vt::check("a material's name is understood", got.is_ok());
        let got = got.unwrap();
        vt::check("material of that name", got.name == m.name);
        vt::prove("material of that name", vt::eq(got.youngs, m.youngs).and(vt::eq(got.poisson, m.poisson)).and(vt::eq(got.density, m.density)));
    }
    for s in ["", "AL606", "AL60611", "al6061", "STEEL"].iter() {
        vt::check("unknown materials are refused", s.parse::<Material>().is_err());
    }
    let al = crate::element::material::AL6061;
    vt::prove("aluminium", vt::eq(al.youngs, 68.9e9).and(vt::eq(al.poisson, 0.33)).and(vt::eq(al.density, 2700.0)));
}
// written to five decimals
fn thickness(c: usize) {
    let kind = CONDS[c % 3];
    let t = match c / 3 {
        0 => sym_thickness(),
        k => [0.12345, 1.00001, 250.5, 0.00007, 31.0, 12345.67891][k - 1],
    };
    let s = condition(kind, t).to_string();
    let w: Vec<&str> = s.split_whitespace().collect();
    vt::check("name of the condition", w[0] == ["planestress", "planestrain", "axisymmetric"][c % 3]);
    if kind == Cond::Axi {
        vt::check("no thickness", w.len() == 1);
        return;
    }
    vt::check("thickness given", w.len() == 2);
    let got = w[1].parse::<f64>();
    vt::check("thickness is a number", got.is_ok());
    let d = got.unwrap() - t;
    vt::prove("thickness to five decimals", vt::le(d, 0.00000500001).and(vt::ge(d, -0.00000500001)));
}

pub fn list() -> Vec<vt::Harness> {
    vec![("history", 15, history), ("big", tier(12, 60), big), ("names", 11, names), ("thickness", 21, thickness)]
}

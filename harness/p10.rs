// The connection graph and the bandwidth-reducing numbering.
use crate::matrix::graph::Graph;
use crate::util::*;

// adjacency of n vertices, one symbolic flag per pair
fn any_graph(n: usize) -> Vec<Vec<bool>> {
    let mut a = vec![vec![false; n]; n];
    for i in 0..n {
        for j in 0..i {
            let e = vt::flip(&format!("e{}{}", i, j));
            a[i][j] = e;
            a[j][i] = e;
        }
    }
    a
}
fn lists(a: &Vec<Vec<bool>>) -> Vec<Vec<usize>> {
    a.iter().map(|r| (0..r.len()).filter(|&j| r[j]).collect()).collect()
}
// distances from a vertex by repeated relaxation
fn dist(a: &Vec<Vec<bool>>, s: usize) -> Vec<Option<usize>> {
    let n = a.len();
    let mut d = vec![None; n];
    d[s] = Some(0);
    for k in 0..n {
        for i in 0..n {
            if d[i] == Some(k) {
                for j in 0..n {
                    if a[i][j] && d[j].is_none() {
                        d[j] = Some(k + 1);
                    }
                }
            }
        }
    }
    d
}
fn ecc(a: &Vec<Vec<bool>>, s: usize) -> usize {
    dist(a, s).into_iter().filter_map(|x| x).max().unwrap()
}
fn agrees(g: &Graph, a: &Vec<Vec<bool>>) {
    let n = a.len();
    vt::check("vertex count", g.vertex_count() == n);
    for i in 0..n {
        let want: Vec<usize> = (0..n).filter(|&j| a[i][j]).collect();
        let mut have = g.adjacent(i).to_vec();
        have.sort();
        vt::check("neighbours", have == want);
        vt::check("degree", g.degree(i) == want.len());
    }
    let h = g.clone();
    vt::check("a vertex out of range is refused", vt::catches(move || h.adjacent(n).len()).is_none());
}

// k edges given in any direction, repeated, or from a vertex to itself
fn edges(c: usize) {
    let (n, k) = [(1, 1), (2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (3, 4)][c];
    let mut a = vec![vec![false; n]; n];
    let mut e = vec![];
    for i in 0..k {
        let (x, y) = (vt::choose(&format!("x{}", i), n), vt::choose(&format!("y{}", i), n));
        if x != y {
            a[x][y] = true;
            a[y][x] = true;
        }
        e.push((x, y));
    }
    agrees(&Graph::from_edges(n, e), &a);
}
fn out_of_range(_: usize) {
    let n = 1 + vt::choose("n", 3);
    let (x, y) = (vt::choose("x", n + 2), vt::choose("y", n + 2));
    let r = vt::catches(move || Graph::from_edges(n, vec![(0, 0), (x, y)]));
    vt::check("an edge between unknown vertices is refused", r.is_some() == (x < n && y < n));
    agrees(&Graph::from_edges(n, vec![]), &vec![vec![false; n]; n]);
    agrees(&Graph::from_lol(vec![Vec::<usize>::new(); n]), &vec![vec![false; n]; n]);
    vt::check("no vertices", Graph::from_edges(0, vec![]).vertex_count() == 0);
}

// both constructions of every graph agree; masks
fn adjacency(c: usize) {
    let n = c + 1;
    let a = any_graph(n);
    let mut g = Graph::from_lol(lists(&a));
    agrees(&g, &a);
    let mut e = vec![];
    for i in 0..n {
        for j in 0..i {
            if a[i][j] {
                e.push(if (i + j) % 2 == 0 { (i, j) } else { (j, i) });
            }
        }
    }
    let h = Graph::from_edges(n, e);
    agrees(&h, &a);
    vt::check("same graph either way", g == h);
    for m in 0..(1usize << n) {
        let mask: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
        for i in 0..n {
            let want: Vec<usize> = (0..n).filter(|&j| a[i][j] && mask[j]).collect();
            let mut have = g.adjacent_masked(i, &mask).to_vec();
            have.sort();
            vt::check("masked neighbours", have == want);
            vt::check("masked degree", g.degree_masked(i, &mask) == want.len());
        }
    }
    agrees(&g, &a);
}

// the most distant vertex, and a peripheral one
fn far(c: usize) {
    far_of(any_graph(c + 1))
}
fn far_of(a: Vec<Vec<bool>>) {
    let n = a.len();
    let mut g = Graph::from_lol(lists(&a));
    for s in 0..n {
        let d = dist(&a, s);
        let m = ecc(&a, s);
        let (v, len) = g.far_node(s);
        vt::check("distance of the most distant vertex", len == m);
        vt::check("it is that far away", v < n && d[v] == Some(m));
        let deg = |v: usize| a[v].iter().filter(|x| **x).count();
        vt::check("fewest neighbours among those", (0..n).all(|w| d[w] != Some(m) || deg(w) >= deg(v)));
    }
    let p = g.pseudo_peripheral();
    vt::check("peripheral vertex", p < n && dist(&a, 0)[p].is_some() && ecc(&a, p) >= ecc(&a, 0));
    agrees(&g, &a);
}

// the numbering: a bijection, component by component, each level after the one nearer to its root
fn rcm(c: usize) {
    rcm_of(any_graph(c))
}
fn rcm_of(a: Vec<Vec<bool>>) {
    let n = a.len();
    let mut g = Graph::from_lol(lists(&a));
    let p = g.reverse_cuthill_mckee();
    let mut seen = vec![false; n];
    for i in 0..n {
        let q = p.permute(i);
        vt::check("a place for every vertex", q < n && !seen[q] && p.unpermute(q) == i);
        seen[q] = true;
    }
    // in reverse: Cuthill-McKee order
    let ord: Vec<usize> = (0..n).map(|i| p.unpermute(n - 1 - i)).collect();
    let mut done: Vec<usize> = vec![];
    let mut root = 0;
    let mut last_parent = 0;
    for &v in ord.iter() {
        let parent = done.iter().position(|&w| a[w][v]);
        match parent {
            None => {
                // a new component starts only when the earlier ones are complete, from a peripheral vertex
                vt::check("components are numbered one after another", done.iter().all(|&w| (0..n).all(|x| !a[w][x] || done.contains(&x))));
                let first = (0..n).find(|x| !done.contains(x)).unwrap();
                vt::check("a component starts at a peripheral vertex", dist(&a, first)[v].is_some() && ecc(&a, v) >= ecc(&a, first));
                root = v;
                last_parent = 0;
            }
            Some(k) => {
                vt::check("neighbours are numbered in the order of the vertices that reach them", k >= last_parent && dist(&a, root)[v].is_some());
                last_parent = k;
            }
        }
        done.push(v);
    }
    agrees(&g, &a);
}

// a chain is numbered end to end whatever its labels: bandwidth one; two chains as well
fn chains(c: usize) {
    let (n, cut) = [(2, 9), (3, 9), (4, 9), (5, 9), (4, 1), (5, 2), (6, 9), (6, 2)][c];
    let label = choose_perm("l", n);
    let mut e = vec![];
    for i in 1..n {
        if i - 1 != cut {
            e.push((label[i - 1], label[i]));
        }
    }
    let p = Graph::from_edges(n, e.clone()).reverse_cuthill_mckee();
    for (x, y) in e {
        let (i, j) = (p.permute(x), p.permute(y));
        vt::check("neighbours on a chain get adjacent numbers", i + 1 == j || j + 1 == i);
    }
}

// larger graphs: a fixed one, its vertices in any of a few orders, with four more edges each there or not
fn big(c: usize) {
    let mut dice = Dice::new(c);
    let grid = |w: usize, h: usize| -> (usize, Vec<(usize, usize)>) {
        (w * h, (0..w * h).flat_map(|v| vec![(v, v + 1, v % w + 1 < w), (v, v + w, v / w + 1 < h)]).filter(|e| e.2).map(|e| (e.0, e.1)).collect())
    };
    let (n, fixed): (usize, Vec<(usize, usize)>) = match c % 8 {
        0 => grid(3, 4),
        1 => grid(2, 7),
        2 => (15, (1..15).map(|v| (v, (v - 1) / 2)).collect()),
        3 => (11, (0..11).map(|v| (v, (v + 1) % 11)).collect()),
        4 => (10, (1..10).map(|v| (0, v)).collect()),
        5 => (12, (0..12).filter(|v| v % 4 != 3).map(|v| (v, v + 1)).collect()),
        6 => (9, (0..9).flat_map(|i| (0..i).map(move |j| (i, j))).filter(|e| e.0 - e.1 != 4).collect()),
        _ => (14, (0..20).map(|_| (dice.next(14), dice.next(14))).filter(|e| e.0 != e.1).collect()),
    };
    let label = dice.perm(n);
    let mut a = vec![vec![false; n]; n];
    let mut e = vec![];
    let extra: Vec<(usize, usize)> = (0..4).map(|_| (dice.next(n), dice.next(n))).filter(|e| e.0 != e.1).enumerate().filter(|(k, _)| vt::flip(&format!("extra{}", k))).map(|x| x.1).collect();
    for (x, y) in fixed.into_iter().chain(extra) {
        let (x, y) = (label[x], label[y]);
        a[x][y] = true;
        a[y][x] = true;
        e.push((x, y));
    }
    let mut g = Graph::from_edges(n, e);
    agrees(&g, &a);
    vt::check("same graph either way", g == Graph::from_lol(lists(&a)));
    for k in 0..4 {
        let mask: Vec<bool> = (0..n).map(|_| dice.next(2 + k) > 0).collect();
        for i in 0..n {
            let mut have = g.adjacent_masked(i, &mask).to_vec();
            have.sort();
            vt::check("masked neighbours", have == (0..n).filter(|&j| a[i][j] && mask[j]).collect::<Vec<usize>>());
            vt::check("masked degree", g.degree_masked(i, &mask) == have.len());
        }
    }
    far_of(a.clone());
    rcm_of(a);
}

pub fn list() -> Vec<vt::Harness> {
    vec![
        ("edges", 8, edges),
        ("outside", 1, out_of_range),
        ("adjacency", tier(5, 6), adjacency),
        ("far", 6, far),
        ("rcm", tier(7, 8), rcm),
        ("big", tier(24, 200), big),
        ("chains", 8, chains),
    ]
}

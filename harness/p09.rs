// Permutations: a renumbering and its inverse, applied to numbers, slices and matrices.
use crate::matrix::graph::Permutation;
use crate::matrix::*;
use crate::util::*;

// n = 1..=5: every placement
fn bijection(c: usize) {
    let n = c + 1;
    moved(choose_perm("p", n));
}
fn moved(place: Vec<usize>) {
    let n = place.len();
    let p = Permutation::from_placement(place.clone());
    for i in 0..n {
        vt::check("the unknown placed at i moves to i", p.permute(place[i]) == i);
        vt::check("unpermute undoes permute", p.unpermute(p.permute(i)) == i && p.permute(p.unpermute(i)) == i);
    }
    let x = vt::vars("x", n);
    let mut y = x.clone();
    p.permute_slice(&mut y);
    for i in 0..n {
        vt::prove("each value moves with its unknown", vt::eq(y[p.permute(i)], x[i]));
    }
    let inv = p.clone().invert();
    for i in 0..n {
        vt::check("the inverse goes back", inv.permute(p.permute(i)) == i && inv.unpermute(i) == p.permute(i));
    }
    inv.permute_slice(&mut y);
    prove_vec("values return home", &y, &x);
    let back = inv.invert();
    vt::check("inverting twice changes nothing", (0..n).all(|i| back.permute(i) == p.permute(i) && back.unpermute(i) == p.unpermute(i)));
}

fn trivial(_: usize) {
    for n in 0..5 {
        let p = Permutation::identity(n);
        let x = vt::vars(&format!("x{}", n), n);
        let mut y = x.clone();
        p.permute_slice(&mut y);
        prove_vec("identity", &y, &x);
        for i in 0..n {
            vt::check("identity moves nothing", p.permute(i) == i && p.unpermute(i) == i);
        }
        let inv = p.invert();
        vt::check("inverse of the identity", (0..n).all(|i| inv.permute(i) == i));
    }
    let p = Permutation::identity(3);
    for n in [0, 2, 4].iter() {
        let p = p.clone();
        let mut v = vt::vars("y", *n);
        vt::check("a slice of another length is refused", vt::catches(move || p.permute_slice(&mut v)).is_none());
    }
    let q = p.clone();
    vt::check("an unknown out of range is refused", vt::catches(move || p.permute(3)).is_none() && vt::catches(move || q.unpermute(3)).is_none());
}

// lists that are no placement are refused
fn improper(c: usize) {
    let n = c + 1;
    let v: Vec<usize> = (0..n).map(|i| vt::choose(&format!("v{}", i), n + 1)).collect();
    let proper = (0..n).all(|i| v.contains(&i));
    let w = v.clone();
    vt::check("exactly the placements are accepted", vt::catches(move || Permutation::from_placement(w)).is_some() == proper);
}

// (P A P') (P x) = P (A x): vectors and matrices are renumbered alike
fn consistent(c: usize) {
    let n = 2 + c % 2;
    let pattern = vt::choose("rows", 1 << n);
    let place = choose_perm("p", n);
    let p = Permutation::from_placement(place);
    let a = sym_mat("a", n, n);
    // some rows keep only their diagonal and first entry, so that the sparse structure is not full
    let a: M = (0..n).map(|i| (0..n).map(|j| if pattern >> i & 1 == 1 || j == 0 || i == j { a[i][j] } else { 0.0 }).collect()).collect();
    let x = vt::vars("x", n);
    let mut d = Dictionary::zeros(n);
    for i in 0..n {
        for j in 0..n {
            if pattern >> i & 1 == 1 || j == 0 || i == j {
                d[(i, j)] = a[i][j];
            }
        }
    }
    d.permute(&p);
    vt::check("shape kept", d.shape() == (n, n));
    let dm: M = (0..n).map(|i| (0..n).map(|j| d.get((i, j)).cloned().unwrap_or(0.0)).collect()).collect();
    let mut px = x.clone();
    p.permute_slice(&mut px);
    let mut want = mat_vec(&a, &x);
    p.permute_slice(&mut want);
    prove_vec("renumbered product", &mat_vec(&dm, &px), &want);
    for i in 0..n {
        for j in 0..n {
            vt::prove("renumbered entry", vt::eq(dm[p.permute(i)][p.permute(j)], a[i][j]));
        }
    }
    // and back
    d.permute(&p.invert());
    for i in 0..n {
        for j in 0..n {
            vt::prove("entry after renumbering back", vt::eq(d.get((i, j)).cloned().unwrap_or(0.0), a[i][j]));
        }
    }
}

// more unknowns, in a fixed shuffled order
fn big(c: usize) {
    vt::set_hash_seed(c);
    let mut dice = Dice::new(c);
    let n = 7 + c % 8;
    let place = dice.perm(n);
    moved(place.clone());
    let p = Permutation::from_placement(place);
    let mut a: M = (0..n).map(|_| vec![0.0; n]).collect();
    let mut d = Dictionary::zeros(n);
    for i in 0..n {
        for j in 0..n {
            if i == j || dice.next(3) == 0 {
                a[i][j] = vt::var(&format!("a{}_{}", i, j));
                d[(i, j)] = a[i][j];
            }
        }
    }
    let x = vt::vars("x", n);
    d.permute(&p);
    let read = |d: &Dictionary| -> M { (0..n).map(|i| (0..n).map(|j| d.get((i, j)).cloned().unwrap_or(0.0)).collect()).collect() };
    let dm = read(&d);
    let (mut px, mut want) = (x.clone(), mat_vec(&a, &x));
    p.permute_slice(&mut px);
    p.permute_slice(&mut want);
    prove_vec("renumbered product", &mat_vec(&dm, &px), &want);
    for i in 0..n {
        for j in 0..n {
            vt::prove("renumbered entry", vt::eq(dm[p.permute(i)][p.permute(j)], a[i][j]));
        }
    }
    d.permute(&p.invert());
    prove_mat("entries after renumbering back", &read(&d), &a);
}

pub fn list() -> Vec<vt::Harness> {
    vec![("bijection", tier(6, 7), bijection), ("trivial", 1, trivial), ("improper", tier(4, 5), improper), ("big", tier(16, 80), big), ("consistent", 2, consistent)]
}

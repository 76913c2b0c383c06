use crate::ctx::*;
use crate::ensure;
use rust_systre::partitions::Partition;

fn naive_unite(cls: &mut Vec<usize>, a: usize, b: usize) {
    let (x, y) = (cls[a], cls[b]);
    for c in cls.iter_mut() { if *c == x { *c = y } }
}

pub fn p01(ctx: &mut Ctx) {
    let n = ctx.n(1500, 30);
    for k in 0..n {
        let m = ctx.rng.us(1, if k % 10 == 0 { 40 } else { 10 });
        let ops: Vec<(u8, usize, usize)> = (0..ctx.rng.us(1, 2 * m + 4)).map(|_| {
            let t = if ctx.rng.chance(1, 2) { 1 } else if ctx.rng.chance(1, 2) { 0 } else { 2 };
            (t, ctx.rng.us(0, m - 1), ctx.rng.us(0, m - 1))
        }).collect();
        let elms: Vec<usize> = (0..ctx.rng.us(0, 2 * m)).map(|_| ctx.rng.us(0, m - 1)).collect();
        ctx.case("history", format!("{} elements, history {:?} (0 find, 1 unite, 2 compare), classes of {:?}", m, ops, elms), || {
            let mut p = Partition::<u32>::new();
            let mut ps = Partition::<String>::new();
            let name = |x: usize| format!("e{}", x);
            let mut cls: Vec<usize> = (0..m).collect();
            for &(t, a, b) in &ops {
                match t {
                    0 => {
                        let r = p.find(&(a as u32));
                        ensure!(p.find(&r) == r, "representative of {} is not its own representative", a);
                        ensure!(cls[r as usize] == cls[a], "find({}) = {} is in another class", a, r);
                    },
                    1 => { p.unite(&(a as u32), &(b as u32)); ps.unite(&name(a), &name(b)); naive_unite(&mut cls, a, b); },
                    _ => {
                        let e = p.find(&(a as u32)) == p.find(&(b as u32));
                        ensure!(e == (cls[a] == cls[b]), "{} and {} {}", a, b, if e { "joined" } else { "separate" });
                    }
                }
            }
            for a in 0..m { for b in 0..m {
                ensure!((p.find(&(a as u32)) == p.find(&(b as u32))) == (cls[a] == cls[b]), "{} and {}", a, b);
                ensure!((ps.find(&name(a)) == ps.find(&name(b))) == (cls[a] == cls[b]), "strings {} and {}", a, b);
            } }
            let mut e: Vec<Vec<u32>> = vec![];
            for &x in &elms {
                match e.iter_mut().find(|c| cls[c[0] as usize] == cls[x]) { Some(c) => c.push(x as u32), None => e.push(vec![x as u32]) }
            }
            let got = p.classes(&elms.iter().map(|x| *x as u32).collect::<Vec<_>>());
            ensure!(got == e, "classes {:?} instead of {:?}", got, e);
            Ok(())
        });
    }
}

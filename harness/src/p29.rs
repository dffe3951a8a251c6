//! Every coordinate pair of 16 bits, every index, every pair of positions of the types made for (0,0) (5,0) (0,5) (3,1) (1,3) (7,3)
//! (3,7) (31,0) (6,9) (255,0) (0,256) (299,2), with and without diagonals, from numbers and from a position type; every content
//! of the gridbools and one written cell of the grids; ways between every pair of positions in those of up to 9 cells.
use crate::v;
use sqrid::*;

fn pos<P: PosT, const X: u16, const Y: u16>() -> P
where
    P: PosT + TryFrom<(u16, u16)> + Into<(u16, u16)>,
{
    let (x, y) = (v::any(16) as u16, v::any(16) as u16);
    let fits = x <= X && y <= Y;
    let r = P::try_from((x, y));
    check!(r.is_ok() == fits);
    let i = v::any(64) as usize;
    check!(P::tryfrom_usize(i).is_ok() == (i < (X as usize + 1) * (Y as usize + 1)));
    v::assume(fits);
    let Ok(p) = r else { unreachable!() };
    let t: (u16, u16) = p.into();
    check!(t == (x, y));
    p
}

/// the position of another type with the same coordinates
fn cast<P: PosT + Into<(u16, u16)>, Q: PosT + TryFrom<(u16, u16)>>(p: P) -> Q {
    let t: (u16, u16) = p.into();
    let q = Q::try_from(t);
    check!(q.is_ok());
    match q {
        Ok(q) => q,
        Err(_) => unreachable!(),
    }
}

/// the maxima and the setting that are advertised
fn params<const A: u16, const B: u16, const D: bool, const W: usize, const S: usize>(_: Sqrid<A, B, D, W, S>) -> (u16, u16, bool, usize) {
    (Sqrid::<A, B, D, W, S>::XMAX, Sqrid::<A, B, D, W, S>::YMAX, D, S)
}

fn ways<const A: u16, const B: u16, const D: bool, const W: usize, const S: usize, P: PosT + Into<(u16, u16)>>(_: Sqrid<A, B, D, W, S>, o: P, d: P) {
    let (o, d) = (cast::<P, Pos<A, B>>(o), cast::<P, Pos<A, B>>(d));
    let (dx, dy) = (o.x().abs_diff(d.x()) as usize, o.y().abs_diff(d.y()) as usize);
    let want = if D { dx.max(dy) } else { dx + dy };
    let r = Sqrid::<A, B, D, W, S>::bfs_path(pos_dir_add_ok, &o, |p| p == d);
    check!(matches!(r, Ok((g, ref w)) if g == d && w.len() == want));
    let r = Sqrid::<A, B, D, W, S>::astar_path(pos_dir_add_ok, &o, &d);
    check!(matches!(r, Ok(ref w) if w.len() == want));
    let r = Sqrid::<A, B, D, W, S>::ucs_path(|p, d| Some((pos_dir_add_ok(p, d)?, 1)), &o, &d);
    check!(matches!(r, Ok(ref w) if w.len() == want));
    v::cover(0);
}

macro_rules! factory {
    ($($x:literal $y:literal $d:literal $w:literal),* $(,)?) => {
        $(const _: () = {
            type S = sqrid_create!($x, $y, $d);
            type P = pos_create!(S);
            type S2 = sqrid_create!(P, $d);
            type P2 = pos_create!(S2);
            #[export_name = concat!("h_p29_types_", $x, "x", $y, "_", $d)]
            pub extern "C" fn f() {
                v::covers(1);
                check!(params(S::default()) == ($x, $y, $d, ($x + 1) * ($y + 1)));
                check!(params(S2::default()) == ($x, $y, $d, ($x + 1) * ($y + 1)));
                check!(S::XMAX == $x && S::YMAX == $y);
                let p = pos::<P, $x, $y>();
                let p2 = pos::<P2, $x, $y>();
                v::observe(cast::<P2, P>(p2).to_usize() as u64);
                check!(P::SIZE == ($x + 1) * ($y + 1));
                v::cover(0);
            }
            #[export_name = concat!("h_p29_grid_", $x, "x", $y, "_", $d)]
            pub extern "C" fn grid() {
                v::covers(2);
                let mut g = <grid_create!(S, u8)>::repeat(7);
                let (p, q) = (pos::<P, $x, $y>(), pos::<P, $x, $y>());
                check!(g.as_array().len() == ($x + 1) * ($y + 1));
                let n = v::any(8) as u8;
                g[p] = n;
                check!(*g.get(&q) == if p == q { n } else { 7 });
                check!(g.as_array()[q.y() as usize * ($x + 1) + q.x() as usize] == g[q]);
                v::cover((p == q) as u32);
                if $x == 0 && $y == 0 {
                    v::cover(0);
                }
            }
            #[export_name = concat!("h_p29_bool_", $x, "x", $y, "_", $d)]
            pub extern "C" fn gridbool() {
                v::covers(2);
                let (p, q) = (pos::<P, $x, $y>(), pos::<P2, $x, $y>());
                let b = v::conc(v::any(1)) != 0;
                let mut g = <gridbool_create!(S)>::repeat(b);
                check!(g[p] == b);
                g.set(&p, !b);
                let mut g2 = <gridbool_create!(S2)>::repeat(b);
                g2.set(&q, !b);
                let q2: P = cast(q);
                let p2 = cast(p);
                check!(g.get(&q2) == (b ^ (p == q2)));
                check!(g2.get(&p2) == (b ^ (p == q2)));
                check!(g.as_inner().len() == (($x + 1) * ($y + 1) + 31) / 32);
                v::cover((p == q2) as u32);
                if $x == 0 && $y == 0 {
                    v::cover(0);
                }
            }
            #[export_name = concat!("h_p29_ways_", $x, "x", $y, "_", $d)]
            pub extern "C" fn way() {
                v::covers(1);
                if $w {
                    let n = ($x + 1) * ($y + 1);
                    let (o, d) = (v::conc(v::below(n)) as usize, v::conc(v::below(n)) as usize);
                    let (o, d) = (P::tryfrom_usize(o).unwrap(), P::tryfrom_usize(d).unwrap());
                    ways(S::default(), o, d);
                    ways(S2::default(), cast::<P, P2>(o), cast::<P, P2>(d));
                } else {
                    v::cover(0);
                }
            }
        };)*
    };
}
factory! { 0 0 false true, 5 0 true true, 0 5 false true, 3 1 false true, 3 1 true true, 1 3 false true, 1 3 true true,
    7 3 false false, 3 7 true false, 31 0 true false, 6 9 false false, 255 0 false false, 0 256 true false, 299 2 false false }

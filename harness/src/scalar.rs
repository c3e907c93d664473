//! Checks shared by the two properties about operations with a scalar operand.

/// One check function per scalar type: `$pn` for everything that does not panic, and the plain
/// forms, whose panics are explored on a smaller space, in `$pp`.
#[macro_export]
macro_rules! scalar_type {
    ($pn:ident, $pp:ident, $t:ty, $z:ident $w:ty, [$($B:ident $b:literal $s:literal)*],
     $add:ident $sub:ident $mul:ident, $wadd:ident $wsub:ident $wmul:ident,
     $oadd:ident $osub:ident $omul:ident, $cadd:ident $csub:ident $cmul:ident,
     $dr:ident $d:ident $r:ident, $wdr:ident $wd:ident $wr:ident,
     $odr:ident $od:ident $or:ident, $cdr:ident $cd:ident $cr:ident) => {
        fn $pn(c: &mut Ctx, a: &Args) {
            let xr: R = a.z(0);
            let n = a.n[0] as $t;
            let zn = Z::$z(n as $w);
            $({
                const SIGNED: bool = $s;
                let x = $B::new(&xr);
                let zx = if SIGNED { Z::from_s(&xr) } else { Z::from_u(&xr) };
                let fits = |z: &Z| if SIGNED { fit_s(z) } else { fit_u(z) };
                macro_rules! lin {
                    ($e:expr, $p:ident $wr_:ident $ov:ident $ch:ident) => {{
                        let e: Z = $e;
                        let f: Option<R> = fits(&e);
                        let lo: R = e.lo();
                        c.hit(f.is_none() as usize);
                        ck!(c, concat!($b, ".", stringify!($wr_)), x.$wr_(n).raw(), lo);
                        ck!(c, concat!($b, ".", stringify!($ov)), { let p = x.$ov(n); (p.0.raw(), p.1) }, (lo, f.is_none()));
                        ck!(c, concat!($b, ".", stringify!($ch)), x.$ch(n).map(Big::raw), f);
                        if f.is_some() || !checks_on() {
                            ck!(c, concat!($b, ".", stringify!($p)), x.$p(n).raw(), lo);
                        }
                    }};
                }
                lin!(zx.add(&zn), $add $wadd $oadd $cadd);
                lin!(zx.sub(&zn), $sub $wsub $osub $csub);
                lin!(zx.mul(&zn), $mul $wmul $omul $cmul);
                if n != 0 {
                    let over = SIGNED && zx == smin() && zn == Z::i(-1);
                    c.begin(concat!($b, ".", stringify!($wdr)));
                    let (q, r) = { let p = x.$wdr(n); (p.0.raw(), p.1) };
                    if over {
                        c.check((q, r as i128), (smin().lo(), 0));
                    } else {
                        // x = q n + r with 0 <= |r| < |n|; r has the sign of x for signed scalars
                        // and is never negative for unsigned ones
                        let zq = if SIGNED { Z::from_s(&q) } else { Z::from_u(&q) };
                        let zr = Z::$z(r as $w);
                        let sign = zr.is_zero() || zr.is_neg() == (zx.is_neg() && <$t>::MIN != 0);
                        let ok = sign && zr.abs().lt(&zn.abs()) && zq.mul(&zn).add(&zr) == zx;
                        let e: (R, i128) = if ok {
                            (q, r as i128)
                        } else {
                            let (mut eq, mut er) = zx.divrem(&zn);
                            if er.is_neg() && <$t>::MIN == 0 {
                                eq = eq.sub(&Z::u(1));
                                er = er.add(&zn);
                            }
                            let er: [u64; 2] = er.lo();
                            (eq.lo(), (er[0] as u128 | (er[1] as u128) << 64) as i128)
                        };
                        c.check((q, r as i128), e);
                    }
                    c.hit(if over { 4 } else if zx.is_neg() || zn.is_neg() { 3 } else { 2 });
                    ck!(c, concat!($b, ".", stringify!($wd)), x.$wd(n).raw(), q);
                    ck!(c, concat!($b, ".", stringify!($wr)), x.$wr(n), r);
                    ck!(c, concat!($b, ".", stringify!($odr)), { let p = x.$odr(n); ((p.0.0.raw(), p.0.1), p.1) }, ((q, r), over));
                    ck!(c, concat!($b, ".", stringify!($od)), { let p = x.$od(n); (p.0.raw(), p.1) }, (q, over));
                    ck!(c, concat!($b, ".", stringify!($or)), x.$or(n), (r, over));
                    ck!(c, concat!($b, ".", stringify!($cdr)), x.$cdr(n).map(|p| (p.0.raw(), p.1)), if over { None } else { Some((q, r)) });
                    ck!(c, concat!($b, ".", stringify!($cd)), x.$cd(n).map(Big::raw), if over { None } else { Some(q) });
                    ck!(c, concat!($b, ".", stringify!($cr)), x.$cr(n), if over { None } else { Some(r) });
                    let out = over && checks_on();
                    ckp!(c, concat!($b, ".", stringify!($dr)), { let p = x.$dr(n); (p.0.raw(), p.1) }, if out { None } else { Some((q, r)) });
                    ckp!(c, concat!($b, ".", stringify!($d)), x.$d(n).raw(), if out { None } else { Some(q) });
                    ckp!(c, concat!($b, ".", stringify!($r)), x.$r(n), if out { None } else { Some(r) });
                }
            })*
        }
        fn $pp(c: &mut Ctx, a: &Args) {
            let xr: R = a.z(0);
            let n = a.n[0] as $t;
            let zn = Z::$z(n as $w);
            $({
                let x = $B::new(&xr);
                let zx = if $s { Z::from_s(&xr) } else { Z::from_u(&xr) };
                let op = |z: &Z| if $s { op_s(z) } else { op_u(z) };
                ckp!(c, concat!($b, ".", stringify!($add)), x.$add(n).raw(), op(&zx.add(&zn)));
                ckp!(c, concat!($b, ".", stringify!($sub)), x.$sub(n).raw(), op(&zx.sub(&zn)));
                ckp!(c, concat!($b, ".", stringify!($mul)), x.$mul(n).raw(), op(&zx.mul(&zn)));
            })*
        }
    };
}

/// The spaces for one scalar type of the given width in bits.
#[macro_export]
macro_rules! scalar_suites {
    ($out:ident, $t:ident, $prop:literal, $name:literal, $bits:expr, $signed:literal, $pn:ident, $pp:ident, $dep:literal) => {{
        let bits: u32 = $bits;
        let n = space::scalars(bits, $t.min(Tier::Quick));
        let cl = &["fits", "overflow", "divided, not negative", "divided, negative", "minimum / -1"];
        let vals = match $t {
            Tier::Tiny => space::lean(L, $t),
            Tier::Mid | Tier::Quick => space::core(L, $t),
            Tier::Thorough => space::wide(L, Tier::Quick),
        };
        let mut ss = vec![suite(format!(concat!($prop, "/{}/", $name, "-values"), UN), space::with_scalar(vals, n.clone()), $pn, cl)];
        // operands whose result is at a bound of the type
        let zs: Vec<Z> = n.iter().map(|n| if $signed { Z::i(((*n as i128) << (128 - bits)) >> (128 - bits)) } else { Z::u(*n) }).collect();
        let bound = move |k: usize| {
            let zn = zs[k];
            let mut v = Vec::new();
            for b in [umax(), smax(), smin(), Z::u(0)] {
                v.extend([b.sub(&zn), b.add(&zn)]);
                if !zn.is_zero() {
                    v.push(b.divrem(&zn).0);
                }
            }
            let mut o = Vec::new();
            for x in v {
                for e in -2..=2 {
                    o.push(raw(&x.add(&Z::i(e)).lo()));
                }
            }
            space::norm(o)
        };
        let d = format!("{} scalars with the operands around each bound", n.len());
        let m = n.clone();
        let b2 = bound.clone();
        let g: (usize, Gen, String) = (n.len(), Box::new(move |i, f| {
            let mut x = Args::new();
            x.n[0] = m[i];
            for v in bound(i) {
                x.z[0] = v;
                f(&x);
            }
        }), d.clone());
        ss.push(suite(format!(concat!($prop, "/{}/", $name, "-bounds"), UN), g, $pn, cl));
        let m = n.clone();
        let g: (usize, Gen, String) = (n.len(), Box::new(move |i, f| {
            let mut x = Args::new();
            x.n[0] = m[i];
            for v in b2(i) {
                x.z[0] = v;
                f(&x);
            }
        }), d);
        ss.push(suite(format!(concat!($prop, "/{}/", $name, "-plain"), UN), g, $pp, &[]));
        // dividends at and next to multiples of the scalar
        if $t != Tier::Tiny {
            let qs = space::lean(L, $t);
            let abs: Vec<(u128, Raw)> = n.iter().map(|n| {
                let z = if $signed { Z::i(((*n as i128) << (128 - bits)) >> (128 - bits)) } else { Z::u(*n) };
                let mut r = [0; MAXL];
                r[..2].copy_from_slice(&z.abs().lo::<2>());
                (*n, r)
            }).collect();
            let d = format!("{} quotients x {} scalars, dividends at and next to each multiple", qs.len(), n.len());
            let g: (usize, Gen, String) = (abs.len(), Box::new(move |i, f| {
                let mut x = Args::new();
                let (n, r) = &abs[i];
                x.n[0] = *n;
                for q in &qs {
                    let Some(p) = space::mul_fit(q, r, L) else { continue };
                    for e in -1..=1 {
                        x.z[0] = space::add_small(L, &p, e);
                        f(&x);
                        if $signed {
                            x.z[0] = space::neg(L, &x.z[0]);
                            f(&x);
                        }
                    }
                }
            }), d);
            ss.push(suite(format!(concat!($prop, "/{}/", $name, "-multiples"), UN), g, $pn, cl));
        }
        for mut s in ss {
            s.dep = if $dep { $crate::engine::Dep::Limb } else { $crate::engine::Dep::Nothing };
            $out.push(s);
        }
    }};
}

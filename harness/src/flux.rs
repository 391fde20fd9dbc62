use crate::entry;
use crate::stub::*;
use crate::util::*;
use corries::prelude::*;
use ndarray::Array2;

const S: usize = 8;

fn cfg() -> PhysicsConfig {
    PhysicsConfig { adiabatic_index: 1.4, units_mode: UnitsMode::SI }
}

macro_rules! dump {
    ($io:ident, $a:expr, $e:expr, $s:expr) => {
        for j in 0..$e {
            for i in 0..$s {
                $io.put($a[[j, i]]);
            }
        }
    };
}

/// Hll with a free physics: inp = xi_in, xi_out, emin[S], emax[S], flux[2S], stale flux[2S], cons[2S], d0[2S];
/// out = deta_dphi_d_volume[S], dflux[2S], cons[2S]
entry!(vh_hll_free, io, {
    const E: usize = 2;
    let (a, b) = (io.get(), io.get());
    let mesh = mesh::<S>(a, b)?;
    let mut u = State::<Free, E, S>::new(&cfg());
    for j in 0..2 { for i in 0..S { u.cent.eigen_vals[[j, i]] = io.get(); } }
    for k in 0..2 * S { unsafe { FREE_FLUX[k] = io.get(); } }
    for j in 0..E { for i in 0..S { u.cent.flux[[j, i]] = io.get(); } }
    for j in 0..E { for i in 0..S { u.cent.cons[[j, i]] = io.get(); } }
    let mut d = Array2::zeros((E, S));
    for j in 0..E { for i in 0..S { d[[j, i]] = io.get(); } }
    let mut hll: Hll<E, S> = Hll::new(&NumFluxConfig::Hll, &mesh)?;
    // a second evaluation must not depend on what the first one left behind
    let twice = io.par() == 1;
    if twice {
        let mut d2 = Array2::ones((E, S));
        hll.calc_dflux_dxi(&mut d2, &mut u, &mesh)?;
        for j in 0..2 { for i in 0..S { u.cent.eigen_vals[[j, i]] = io.get(); } }
        for k in 0..2 * S { unsafe { FREE_FLUX[k] = io.get(); } }
        for j in 0..E { for i in 0..S { u.cent.cons[[j, i]] = io.get(); } }
    }
    hll.calc_dflux_dxi(&mut d, &mut u, &mesh)?;
    for i in 0..S { io.put(mesh.deta_dphi_d_volume[i]); }
    dump!(io, d, E, S);
    dump!(io, u.cent.cons, E, S);
    Ok(())
});

pub fn numflux_config(k: u64, theta: f64) -> NumFluxConfig {
    if k == 0 { NumFluxConfig::Hll } else { NumFluxConfig::Kt { limiter_mode: limiter(k - 1, theta) } }
}

/// Kt with the affine physics: par = limiter; inp = theta, coefficients[12], cons[2S], d0[2S];
/// out = deta_dphi_d_volume[S], dflux[2S], cent.cons[2S], west.cons[2S], east.cons[2S]
entry!(vh_kt_affine, io, {
    const E: usize = 2;
    let mesh = mesh::<S>(1.0, 2.0)?;
    let nf = NumFluxConfig::Kt { limiter_mode: limiter(io.par(), io.get()) };
    let mut u = State::<Affine, E, S>::new(&cfg());
    for k in 0..12 { unsafe { AFF[k] = io.get(); } }
    for j in 0..E { for i in 0..S { u.cent.cons[[j, i]] = io.get(); } }
    u.update_prim();
    u.update_derived_variables();
    u.init_west_east();
    let mut d = Array2::zeros((E, S));
    for j in 0..E { for i in 0..S { d[[j, i]] = io.get(); } }
    let mut kt: Kt<E, S> = Kt::new(&nf, &mesh)?;
    kt.calc_dflux_dxi(&mut d, &mut u, &mesh)?;
    for i in 0..S { io.put(mesh.deta_dphi_d_volume[i]); }
    dump!(io, d, E, S);
    dump!(io, u.cent.cons, E, S);
    dump!(io, u.west.cons, E, S);
    dump!(io, u.east.cons, E, S);
    Ok(())
});

/// Two evaluations whose states differ in the innermost cells only (S = 10): par = scheme;
/// inp = theta, coefficients[12], cons[2S], inner[2 * 2]; out = deta_dphi_d_volume[S], dflux[2S], dflux'[2S]
entry!(vh_conserve, io, {
    const E: usize = 2;
    const S: usize = 10;
    let mesh = mesh::<S>(1.0, 2.0)?;
    let k = io.par();
    let nf = numflux_config(k, io.get());
    let mut u = State::<Affine, E, S>::new(&cfg());
    for k in 0..12 { unsafe { AFF[k] = io.get(); } }
    for j in 0..E { for i in 0..S { u.cent.cons[[j, i]] = io.get(); } }
    for i in 0..S { io.put(mesh.deta_dphi_d_volume[i]); }
    for run in 0..2 {
        if run == 1 { for j in 0..E { for i in 4..6 { u.cent.cons[[j, i]] = io.get(); } } }
        u.update_prim();
        u.update_derived_variables();
        u.init_west_east();
        let mut d = Array2::zeros((E, S));
        if k == 0 {
            let mut n: Hll<E, S> = Hll::new(&nf, &mesh)?;
            n.calc_dflux_dxi(&mut d, &mut u, &mesh)?;
        } else {
            let mut n: Kt<E, S> = Kt::new(&nf, &mesh)?;
            n.calc_dflux_dxi(&mut d, &mut u, &mesh)?;
        }
        dump!(io, d, E, S);
    }
    Ok(())
});

/// real physics on an arbitrary state: par = scheme; inp = gamma, theta, prim[E*S], c_sound[S]; out = dv[S], dflux[E*S], cons[E*S]
fn flux_real<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let mesh = mesh::<S>(1.0, 2.0)?;
    let k = io.par();
    let c = PhysicsConfig { adiabatic_index: io.get(), units_mode: UnitsMode::SI };
    let nf = numflux_config(k, io.get());
    let mut u = State::<P, E, S>::new(&c);
    for j in 0..E { for i in 0..S { u.cent.prim[[j, i]] = io.get(); } }
    for i in 0..S { u.cent.c_sound[i] = io.get(); }
    u.update_cons();
    u.update_derived_variables();
    u.init_west_east();
    let mut d = Array2::zeros((E, S));
    if k == 0 {
        let mut n: Hll<E, S> = Hll::new(&nf, &mesh)?;
        n.calc_dflux_dxi(&mut d, &mut u, &mesh)?;
    } else {
        let mut n: Kt<E, S> = Kt::new(&nf, &mesh)?;
        n.calc_dflux_dxi(&mut d, &mut u, &mesh)?;
    }
    for i in 0..S { io.put(mesh.deta_dphi_d_volume[i]); }
    dump!(io, d, E, S);
    dump!(io, u.cent.cons, E, S);
    Ok(())
}
entry!(vh_flux_isot, io, { flux_real::<Euler1DIsot<S>, 2, S>(&mut io) });
entry!(vh_flux_adia, io, { flux_real::<Euler1DAdiabatic<S>, 3, S>(&mut io) });

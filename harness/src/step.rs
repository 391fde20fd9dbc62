//! Mesh geometry, boundary conditions, time step widths, state validation and whole steps with real physics.
use crate::entry;
use crate::phys::dump_vars;
use crate::rk::{self, *};
use crate::stub::*;
use crate::util::*;
use corries::prelude::*;
use corries::time::timestep::TimeStep;

fn mesh_dump<const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let m = mesh::<S>(io.get(), io.get())?;
    for x in [m.n_comp, m.n_gc, m.n_all, m.imin, m.imax, m.ixi_in, m.ixi_out] { io.put(x as f64); }
    for x in [m.xi_in, m.xi_out, m.dxi, m.deta, m.dphi] { io.put(x); }
    for a in [
        &m.xi_cent, &m.xi_west, &m.xi_east, &m.xi_cent_inv, &m.xi_west_inv, &m.xi_east_inv,
        &m.h_xi_cent, &m.h_xi_west, &m.h_xi_east, &m.h_eta_cent, &m.h_eta_west, &m.h_eta_east,
        &m.h_phi_cent, &m.h_phi_west, &m.h_phi_east, &m.sqrt_g, &m.line_xi, &m.line_xi_inv,
        &m.d_area_xi_deta_dphi_west, &m.d_area_xi_deta_dphi_east, &m.area_cell, &m.area_west, &m.area_east,
        &m.volume, &m.deta_dphi_d_volume, &m.cell_width, &m.cell_width_inv,
        &m.cexe, &m.cpxp, &m.cxex, &m.cpep, &m.cxpx, &m.cepe,
        &m.minus_cexe, &m.minus_cpxp, &m.minus_cxex, &m.minus_cpep, &m.minus_cxpx, &m.minus_cepe,
    ] {
        for i in 0..S { io.put(a[i]); }
    }
    Ok(())
}
entry!(vh_mesh, io, {
    match io.par() {
        6 => mesh_dump::<6>(&mut io),
        9 => mesh_dump::<9>(&mut io),
        _ => mesh_dump::<14>(&mut io),
    }
});

pub fn bc_mode(k: u64) -> CustomBoundaryMode {
    match k {
        0 => CustomBoundaryMode::Extrapolate,
        1 => CustomBoundaryMode::ExtrapolateDensityKepler,
        2 => CustomBoundaryMode::ExtrapolateEtaVelocityKepler,
        3 => CustomBoundaryMode::NearZero,
        4 => CustomBoundaryMode::NoGradients,
        5 => CustomBoundaryMode::OutflowNoGradients,
        6 => CustomBoundaryMode::OutFlowExtrapolate,
        _ => CustomBoundaryMode::Reflecting,
    }
}

/// par: 100 = NoGradients for all rows, otherwise number of (row, mode) pairs followed by the pairs
pub fn bc_par(io: &mut Io) -> BoundaryMode {
    let n = io.par();
    if n == 100 {
        return BoundaryMode::NoGradients;
    }
    BoundaryMode::Custom((0..n).map(|_| { let j = io.par() as usize; (j, bc_mode(io.par())) }).collect())
}

fn default_rkf() -> RkfConfig {
    RkfConfig { rkf_mode: RKFMode::RK1, asc: false, asc_relative_tolerance: 1.0, asc_absolute_tolerance: 1.0, asc_timestep_friction: 1.0 }
}

/// par = from (0 prim, 1 cons), west modes, east modes; inp = xi_in, xi_out, prim[2S]; out = prim, cons
fn bc<const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let from = io.par();
    let (w, e) = (bc_par(io), bc_par(io));
    let cfg = rk::config(default_rkf(), NumFluxConfig::Hll, w, e);
    let mesh = mesh::<S>(io.get(), io.get())?;
    let mut rhs = Rhs::<Probe, 2, S>::new(&cfg, &mesh)?;
    let mut u = State::<Affine, 2, S>::new(&cfg.physics_config);
    for j in 0..2 { for i in 0..S {
        let x = io.get();
        if from == 0 { u.cent.prim[[j, i]] = x; } else { u.cent.cons[[j, i]] = x; }
    } }
    if from == 0 {
        u.update_vars_from_prim(&mut rhs.boundary_west, &mut rhs.boundary_east, &mesh);
    } else {
        u.update_vars_from_cons(&mut rhs.boundary_west, &mut rhs.boundary_east, &mesh);
    }
    for j in 0..2 { for i in 0..S { io.put(u.cent.prim[[j, i]]); } }
    for j in 0..2 { for i in 0..S { io.put(u.cent.cons[[j, i]]); } }
    Ok(())
}
entry!(vh_bc, io, { bc::<8>(&mut io) });

/// par = cap; inp = gamma, c_cfl, dt_min, dt_max, t, t_next, xi_in, xi_out, prim[ES], c_sound[S]; out = dt, kind, capped dt, t
fn dt<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let mut cfg = rk::config(default_rkf(), NumFluxConfig::Hll, BoundaryMode::Custom(vec![]), BoundaryMode::Custom(vec![]));
    cfg.physics_config.adiabatic_index = io.get();
    cfg.numerics_config.dt_cfl_param = io.get();
    cfg.numerics_config.dt_min = io.get();
    cfg.numerics_config.dt_max = io.get();
    let (t, t_next) = (io.get(), io.get());
    let mesh = mesh::<S>(io.get(), io.get())?;
    let mut u = State::<P, E, S>::new(&cfg.physics_config);
    for j in 0..E { for i in 0..S { u.cent.prim[[j, i]] = io.get(); } }
    for i in 0..S { u.cent.c_sound[i] = io.get(); }
    u.update_cons();
    u.update_derived_variables();
    let mut ts = TimeStep::new(&cfg.numerics_config, 1);
    ts.t = t;
    ts.t_next_output = t_next;
    ts.calc_dt_expl(&mut u, &mesh)?;
    io.put(ts.dt);
    io.put(if ts.dt_kind == DtKind::Cfl { 1.0 } else { 0.0 });
    ts.cap_dt();
    io.put(ts.dt);
    io.put(ts.t);
    for i in 0..S { io.put(u.cent.c_sound[i]); }
    Ok(())
}
entry!(vh_dt_isot, io, { dt::<Euler1DIsot<6>, 2, 6>(&mut io) });
entry!(vh_dt_adia, io, { dt::<Euler1DAdiabatic<6>, 3, 6>(&mut io) });

/// One RK1 step of the real solver over a vanishing right-hand side, from a state of density 1 on the mesh [10, 12].
/// inp = c_cfl, dt_min, dt_max, t, t_next, velocity[S], c_sound[S]; out = velocity[S] once the ghost cells are set, t, dt
entry!(vh_taken, io, {
    const S: usize = 6;
    let mut cfg = rk::config(default_rkf(), NumFluxConfig::Hll, BoundaryMode::NoGradients, BoundaryMode::NoGradients);
    cfg.numerics_config.dt_cfl_param = io.get();
    cfg.numerics_config.dt_min = io.get();
    cfg.numerics_config.dt_max = io.get();
    let (t, t_next) = (io.get(), io.get());
    let mesh = mesh::<S>(10.0, 12.0)?;
    unsafe {
        PROBE_N = 0;
        PROBE_K = [0.0; NK * 64];
    }
    type P = Euler1DIsot<6>;
    let mut solver = Solver::<P, Probe, RungeKuttaFehlberg<P, 2, S>, 2, S>::new(&cfg, &mesh)?;
    solver.timestep.t = t;
    solver.timestep.t_next_output = t_next;
    let mut u = State::<P, 2, S>::new(&cfg.physics_config);
    u.cent.prim.fill(1.0);
    for i in 0..S { u.cent.prim[[1, i]] = io.get(); }
    for i in 0..S { u.cent.c_sound[i] = io.get(); }
    u.update_vars_from_prim(&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east, &mesh);
    for i in 0..S { io.put(u.cent.prim[[1, i]]); }
    solver.next_solution(&mut u, &mesh)?;
    io.put(solver.timestep.t);
    io.put(solver.timestep.dt);
    Ok(())
});

/// inp = dt, dt_max, t, t_next; out = capped dt
entry!(vh_cap, io, {
    let mut cfg = rk::config(default_rkf(), NumFluxConfig::Hll, BoundaryMode::Custom(vec![]), BoundaryMode::Custom(vec![]));
    let dt = io.get();
    cfg.numerics_config.dt_max = io.get();
    let mut ts = TimeStep::new(&cfg.numerics_config, 1);
    ts.dt = dt;
    ts.t = io.get();
    ts.t_next_output = io.get();
    ts.cap_dt();
    io.put(ts.dt);
    io.put(ts.t);
    io.put(ts.t_next_output);
    Ok(())
});

/// One step of the real integrator with real physics and a prescribed right-hand side.
/// par = scheme, west modes, east modes, number of stages; inp = gamma, t, dt (as CFL parameter, see below), cons[ES], c_sound[S], K[nk][E(S-4)]
/// out = t, dt, Variables of the centre
fn step<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let rkf = RkfConfig { rkf_mode: rkf_mode(io.par()), ..default_rkf() };
    let (w, e) = (bc_par(io), bc_par(io));
    let nk = io.par() as usize;
    let mut cfg = rk::config(rkf, NumFluxConfig::Hll, w, e);
    cfg.physics_config.adiabatic_index = io.get();
    let t = io.get();
    cfg.numerics_config.dt_max = io.get();
    let mesh = mesh::<S>(10.0, 12.0)?;
    cfg.numerics_config.dt_cfl_param = 1.0e3;
    unsafe { PROBE_N = 0; }
    let mut solver = Solver::<P, Probe, RungeKuttaFehlberg<P, E, S>, E, S>::new(&cfg, &mesh)?;
    solver.timestep.t = t;
    solver.timestep.t_next_output = 1.0e6;
    let mut u = State::<P, E, S>::new(&cfg.physics_config);
    for j in 0..E { for i in 0..S { u.cent.prim[[j, i]] = io.get(); } }
    for i in 0..S { u.cent.c_sound[i] = io.get(); }
    u.update_vars_from_prim(&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east, &mesh);
    for q in 0..nk {
        for j in 0..E { for i in 2..S - 2 { unsafe { PROBE_K[q * 64 + j * S + i] = io.get(); } } }
    }
    solver.next_solution(&mut u, &mesh)?;
    io.put(solver.timestep.t);
    io.put(solver.timestep.dt);
    dump_vars(io, &u.cent);
    Ok(())
}
entry!(vh_step_isot, io, { step::<Euler1DIsot<6>, 2, 6>(&mut io) });
entry!(vh_step_adia, io, { step::<Euler1DAdiabatic<6>, 3, 6>(&mut io) });

/// One RK1 step with a vanishing right-hand side from a state whose interior conservative variables were overwritten.
/// inp = gamma, cons[E(S-4)]; out = Variables of the centre
fn revalidate<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let mut cfg = rk::config(default_rkf(), NumFluxConfig::Hll, BoundaryMode::NoGradients, BoundaryMode::NoGradients);
    cfg.physics_config.adiabatic_index = io.get();
    let mesh = mesh::<S>(10.0, 12.0)?;
    unsafe {
        PROBE_N = 0;
        PROBE_K = [0.0; NK * 64];
    }
    let mut solver = Solver::<P, Probe, RungeKuttaFehlberg<P, E, S>, E, S>::new(&cfg, &mesh)?;
    solver.timestep.t_next_output = 1.0e6;
    let mut u = State::<P, E, S>::new(&cfg.physics_config);
    u.cent.prim.fill(1.0);
    u.cent.c_sound.fill(1.0);
    u.update_vars_from_prim(&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east, &mesh);
    for j in 0..E { for i in 2..S - 2 { u.cent.cons[[j, i]] = io.get(); } }
    solver.next_solution(&mut u, &mesh)?;
    dump_vars(io, &u.cent);
    Ok(())
}
entry!(vh_reval_isot, io, { revalidate::<Euler1DIsot<6>, 2, 6>(&mut io) });
entry!(vh_reval_adia, io, { revalidate::<Euler1DAdiabatic<6>, 3, 6>(&mut io) });

/// par = scheme, number of stages; the primitive variables are 1; inp = K[stages][E][2..S-2]; out = dt, state after one step
fn result<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let rkf = RkfConfig { rkf_mode: rk::rkf_mode(io.par()), ..default_rkf() };
    let ns = io.par() as usize;
    let mut cfg = rk::config(rkf, NumFluxConfig::Hll, BoundaryMode::NoGradients, BoundaryMode::NoGradients);
    cfg.physics_config.adiabatic_index = 1.5;
    cfg.numerics_config.dt_max = 1.0 / 16.0;
    let mesh = mesh::<S>(10.0, 12.0)?;
    unsafe {
        PROBE_N = 0;
        PROBE_K = [0.0; NK * 64];
    }
    let mut solver = Solver::<P, Probe, RungeKuttaFehlberg<P, E, S>, E, S>::new(&cfg, &mesh)?;
    solver.timestep.t_next_output = 1.0e6;
    let mut u = State::<P, E, S>::new(&cfg.physics_config);
    u.cent.prim.fill(1.0);
    u.cent.c_sound.fill(1.0);
    u.update_vars_from_prim(&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east, &mesh);
    for q in 0..ns {
        for j in 0..E { for i in 2..S - 2 { unsafe { PROBE_K[q * 64 + j * S + i] = io.get(); } } }
    }
    solver.next_solution(&mut u, &mesh)?;
    io.put(solver.timestep.dt);
    dump_vars(io, &u.cent);
    Ok(())
}
entry!(vh_result_isot, io, { result::<Euler1DIsot<6>, 2, 6>(&mut io) });
entry!(vh_result_adia, io, { result::<Euler1DAdiabatic<6>, 3, 6>(&mut io) });

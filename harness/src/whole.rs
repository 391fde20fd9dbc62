//! Whole steps of the real solver with the real physics, boundaries and fluxes.
use crate::entry;
use crate::phys::dump_vars;
use crate::rk;
use crate::step::bc_par;
use crate::util::*;
use corries::prelude::*;

/// One step of the first order scheme with Hll, the step width free below the CFL limit: par = west modes, east modes;
/// inp = gamma, c_cfl, t_next, prim[ES], c_sound[S];
/// out = deta_dphi_d_volume[S], cell_width_inv[S], then before the step: all variables of the cell centres, primitive variables converted back and forth; then t, dt, right-hand side, prim, cons after the step
fn godunov<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let rkf = RkfConfig { rkf_mode: RKFMode::RK1, asc: false, asc_relative_tolerance: 1.0, asc_absolute_tolerance: 1.0, asc_timestep_friction: 1.0 };
    let (w, e) = (bc_par(io), bc_par(io));
    let mut cfg = rk::config(rkf, NumFluxConfig::Hll, w, e);
    cfg.physics_config.adiabatic_index = io.get();
    cfg.numerics_config.dt_cfl_param = io.get();
    let t_next = io.get();
    let mesh = mesh::<S>(1.0, 2.0)?;
    let mut solver = Solver::<P, Hll<E, S>, RungeKuttaFehlberg<P, E, S>, E, S>::new(&cfg, &mesh)?;
    solver.timestep.t_next_output = t_next;
    let mut u = State::<P, E, S>::new(&cfg.physics_config);
    for j in 0..E { for i in 0..S { u.cent.prim[[j, i]] = io.get(); } }
    for i in 0..S { u.cent.c_sound[i] = io.get(); }
    u.update_vars_from_prim(&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east, &mesh);
    u.init_west_east();
    for i in 0..S { io.put(mesh.deta_dphi_d_volume[i]); }
    for i in 0..S { io.put(mesh.cell_width_inv[i]); }
    dump_vars(io, &u.cent);
    let mut v = State::<P, E, S>::new(&cfg.physics_config);
    v.assign(&u);
    v.update_vars_from_cons(&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east, &mesh);
    for j in 0..E { for i in 0..S { io.put(v.cent.prim[[j, i]]); } }
    let r = solver.next_solution(&mut u, &mesh);
    io.put(solver.timestep.t);
    io.put(solver.timestep.dt);
    for j in 0..E { for i in 0..S { io.put(solver.rhs.full_rhs[[j, i]]); } }
    for j in 0..E { for i in 0..S { io.put(u.cent.prim[[j, i]]); } }
    for j in 0..E { for i in 0..S { io.put(u.cent.cons[[j, i]]); } }
    r
}
entry!(vh_godunov_isot, io, { godunov::<Euler1DIsot<7>, 2, 7>(&mut io) });
entry!(vh_godunov_adia, io, { godunov::<Euler1DAdiabatic<7>, 3, 7>(&mut io) });

//! Outputs: what is written where.
use crate::cfg::output;
use crate::entry;
use crate::rk::{self, *};
use crate::run::reset;
use crate::stub::*;
use crate::util::*;
use corries::prelude::*;

fn base(io: &mut Io) -> CorriesConfig {
    reset();
    let mut cfg = rk::config(
        RkfConfig { rkf_mode: RKFMode::RK1, asc: false, asc_relative_tolerance: 1.0, asc_absolute_tolerance: 1.0, asc_timestep_friction: 1.0 },
        NumFluxConfig::Hll,
        BoundaryMode::Custom(vec![]),
        BoundaryMode::Custom(vec![]),
    );
    cfg.mesh_config.xi_in = 10.0;
    cfg.mesh_config.xi_out = 12.0;
    cfg.output_counter_max = io.par() as usize;
    let n = io.par();
    cfg.writer_config = (0..n).map(|_| output(io)).collect();
    cfg
}

/// par = number of outputs, outputs, metadata, first output counter, rounds, then per round: iteration, kind of step;
/// inp = per round: t, dt, prim[ES], cons[ES], c_sound[S]; out = 3S mesh coordinates (centre, west, east), output counter
fn writer<const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    const E: usize = 2;
    let cfg = base(io);
    let mesh = mesh::<S>(10.0, 12.0)?;
    // used before any parallel part
    drop(std::io::stdout().lock());
    let mut w = Writer::new::<S>(&cfg, &mesh)?;
    if io.par() == 1 { w.write_metadata::<S>()?; }
    w.output_counter = io.par() as usize;
    let mut solver = Solver::<Affine, Probe, RungeKuttaFehlberg<Affine, E, S>, E, S>::new(&cfg, &mesh)?;
    let mut u = State::<Affine, E, S>::new(&cfg.physics_config);
    for i in 0..S {
        io.put(mesh.xi_cent[i]);
        io.put(mesh.xi_west[i]);
        io.put(mesh.xi_east[i]);
    }
    for _ in 0..io.par() {
        solver.timestep.iter = io.par() as usize;
        solver.timestep.dt_kind = match io.par() { 0 => DtKind::Init, 1 => DtKind::Cfl, _ => DtKind::ErrorDump };
        solver.timestep.t = io.get();
        solver.timestep.dt = io.get();
        for j in 0..E { for i in 0..S { u.cent.prim[[j, i]] = io.get(); } }
        for j in 0..E { for i in 0..S { u.cent.cons[[j, i]] = io.get(); } }
        for i in 0..S { u.cent.c_sound[i] = io.get(); }
        w.update_data(&u.cent, &solver.timestep, &mesh)?;
        w.write_output()?;
    }
    io.put(w.output_counter as f64);
    std::mem::forget((cfg, mesh, w, solver, u));
    Ok(())
}
entry!(vh_writer, io, { writer::<6>(&mut io) });
entry!(vh_writer7, io, { writer::<7>(&mut io) });

fn nothing<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    _: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> color_eyre::Result<()> {
    Ok(())
}

/// a whole simulation; par = number of outputs in time, outputs, banner, failing evaluation; inp = t_end; out = t, iter
entry!(vh_full, io, {
    const E: usize = 2;
    const S: usize = 6;
    let mut cfg = base(&mut io);
    cfg.print_banner = io.par() == 1;
    let fail = io.par() as usize;
    cfg.numerics_config.t_end = io.get();
    unsafe {
        PROBE_FAIL = fail;
        AFF[31] = 1.0e30;
    }
    let mut comp = cfg.init_corries::<Affine, Probe, RungeKuttaFehlberg<Affine, E, S>, E, S>(nothing)?;
    let r = comp.run_corries();
    io.put(comp.1.timestep.t);
    io.put(comp.1.timestep.iter as f64);
    std::mem::forget((cfg, comp));
    r
});

/// the configuration as written to metadata files; par = flux (0 HLL, 1 KT), limiter, iter_max, outputs in time, banner, asc, outputs;
/// inp = gamma, t0, t_end, dt_min, dt_max, cfl, atol, rtol, friction, theta
entry!(vh_meta, io, {
    const S: usize = 6;
    let (flux, lim) = (io.par(), io.par());
    let imax = io.par() as usize;
    let n = io.par() as usize;
    let banner = io.par() == 1;
    let asc = io.par() == 1;
    let mut cfg = base(&mut io);
    cfg.print_banner = banner;
    cfg.output_counter_max = n;
    cfg.numerics_config.iter_max = imax;
    cfg.physics_config.adiabatic_index = io.get();
    cfg.numerics_config.t0 = io.get();
    cfg.numerics_config.t_end = io.get();
    cfg.numerics_config.dt_min = io.get();
    cfg.numerics_config.dt_max = io.get();
    cfg.numerics_config.dt_cfl_param = io.get();
    cfg.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: RKFMode::SSPRK3,
        asc,
        asc_absolute_tolerance: io.get(),
        asc_relative_tolerance: io.get(),
        asc_timestep_friction: io.get(),
    });
    let theta = io.get();
    if flux == 1 {
        cfg.numerics_config.numflux_config = NumFluxConfig::Kt { limiter_mode: limiter(lim, theta) };
    }
    let mesh = mesh::<S>(10.0, 12.0)?;
    drop(std::io::stdout().lock());
    let mut w = Writer::new::<S>(&cfg, &mesh)?;
    w.write_metadata::<S>()?;
    std::mem::forget((cfg, mesh, w));
    Ok(())
});

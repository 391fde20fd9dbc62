//! Configurations and the construction of all objects from them.
use crate::entry;
use crate::phys::dump_vars;
use crate::rk::{self, *};
use crate::run::reset;
use crate::stub::*;
use crate::util::*;
use corries::prelude::*;

pub static mut INIT_CALLS: usize = 0;
pub static mut INIT: [f64; 64] = [0.0; 64];

fn count<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    _: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> color_eyre::Result<()> {
    unsafe { INIT_CALLS += 1; }
    Ok(())
}

pub fn data_name(k: u64) -> DataName {
    match k {
        0 => DataName::XiCent,
        1 => DataName::XiWest,
        2 => DataName::XiEast,
        3 => DataName::CSound,
        4 => DataName::T,
        5 => DataName::Iter,
        6 => DataName::Dt,
        7 => DataName::DtKind,
        k if k < 20 => DataName::Prim(k as usize - 10),
        k => DataName::Cons(k as usize - 20),
    }
}

/// par: stream (0 stdout), format (0 CSV), conversion (0 scalar), folder (0 empty, 1 "out", 2 "out/", 3 "out/a/b"), name (0 empty, 1 "f"),
/// clear, metadata, ghost cells, precision, number of data names, data names
pub fn output(io: &mut Io) -> OutputConfig {
    OutputConfig {
        stream_mode: if io.par() == 0 { StreamMode::Stdout } else { StreamMode::File },
        formatting_mode: if io.par() == 0 { FormattingMode::CSV } else { FormattingMode::TSV },
        string_conversion_mode: if io.par() == 0 { ToStringConversionMode::Scalar } else { ToStringConversionMode::Vector },
        folder_name: ["", "out", "out/", "out/a/b", "other"][io.par() as usize].to_string(),
        file_name: ["", "f", "g"][io.par() as usize].to_string(),
        should_clear_out_folder: io.par() == 1,
        should_print_metadata: io.par() == 1,
        should_print_ghostcells: io.par() == 1,
        precision: io.par() as usize,
        data_names: { let n = io.par(); (0..n).map(|_| data_name(io.par())).collect() },
    }
}

/// par = flux (0 HLL, 1 KT), limiter, iter_max, n outputs, outputs...; inp = gamma, t0, t_end, dt_min, dt_max, cfl, atol, rtol, friction, theta, xi_in, xi_out
/// out = number of calls of the initial condition
entry!(vh_config, io, {
    const E: usize = 2;
    const S: usize = 6;
    reset();
    unsafe { INIT_CALLS = 0; }
    let flux = io.par();
    let lim = io.par();
    let mut cfg = rk::config(
        RkfConfig { rkf_mode: RKFMode::RK1, asc: false, asc_relative_tolerance: 1.0, asc_absolute_tolerance: 1.0, asc_timestep_friction: 1.0 },
        NumFluxConfig::Hll,
        BoundaryMode::Custom(vec![]),
        BoundaryMode::Custom(vec![]),
    );
    cfg.numerics_config.iter_max = io.par() as usize;
    let n = io.par();
    cfg.writer_config = (0..n).map(|_| output(&mut io)).collect();
    cfg.physics_config.adiabatic_index = io.get();
    cfg.numerics_config.t0 = io.get();
    cfg.numerics_config.t_end = io.get();
    cfg.numerics_config.dt_min = io.get();
    cfg.numerics_config.dt_max = io.get();
    cfg.numerics_config.dt_cfl_param = io.get();
    cfg.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: RKFMode::RK1,
        asc: false,
        asc_absolute_tolerance: io.get(),
        asc_relative_tolerance: io.get(),
        asc_timestep_friction: io.get(),
    });
    let theta = io.get();
    if flux == 1 {
        cfg.numerics_config.numflux_config = NumFluxConfig::Kt { limiter_mode: limiter(lim, theta) };
    }
    cfg.mesh_config.xi_in = io.get();
    cfg.mesh_config.xi_out = io.get();
    let r = cfg.init_corries::<Affine, Probe, RungeKuttaFehlberg<Affine, E, S>, E, S>(count);
    unsafe { io.put(INIT_CALLS as f64); }
    match r {
        Ok(c) => { std::mem::forget(c); Ok(()) },
        Err(e) => Err(e),
    }
});

fn set<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> color_eyre::Result<()> {
    unsafe {
        for j in 0..E { for i in 0..S { u.cent.prim[[j, i]] = INIT[j * S + i]; } }
        for i in 0..S { u.cent.c_sound[i] = INIT[E * S + i]; }
    }
    Ok(())
}

/// par = initial condition (0 prescribed, 1 noh, 2 sod), west, east; inp = gamma, t0, prim[ES], c_sound[S];
/// out = t, iter, dt kind, t_next_output, cent, west, east
fn init<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    reset();
    let which = io.par();
    let (w, e) = (crate::step::bc_par(io), crate::step::bc_par(io));
    let mut cfg = rk::config(
        RkfConfig { rkf_mode: RKFMode::RK1, asc: false, asc_relative_tolerance: 1.0, asc_absolute_tolerance: 1.0, asc_timestep_friction: 1.0 },
        NumFluxConfig::Hll, w, e,
    );
    cfg.physics_config.adiabatic_index = io.get();
    cfg.numerics_config.t0 = io.get();
    cfg.mesh_config.xi_in = 10.0;
    cfg.mesh_config.xi_out = 12.0;
    unsafe { for k in 0..E * S + S { INIT[k] = io.get(); } }
    let f: corries::initfuncs::InitFn<P, Probe, RungeKuttaFehlberg<P, E, S>, E, S> = match which {
        0 => set,
        1 => corries::initfuncs::init_noh,
        _ => corries::initfuncs::init_sod,
    };
    let r = cfg.init_corries::<P, Probe, RungeKuttaFehlberg<P, E, S>, E, S>(f);
    match r {
        Ok(c) => {
            io.put(c.1.timestep.t);
            io.put(c.1.timestep.iter as f64);
            io.put(if c.1.timestep.dt_kind == DtKind::Init { 1.0 } else { 0.0 });
            io.put(c.1.timestep.t_next_output);
            dump_vars(io, &c.0.cent);
            dump_vars(io, &c.0.west);
            dump_vars(io, &c.0.east);
            std::mem::forget(c);
            Ok(())
        },
        Err(e) => Err(e),
    }
}
entry!(vh_init_isot, io, { init::<Euler1DIsot<6>, 2, 6>(&mut io) });
entry!(vh_init_adia, io, { init::<Euler1DAdiabatic<6>, 3, 6>(&mut io) });
entry!(vh_init_isot7, io, { init::<Euler1DIsot<7>, 2, 7>(&mut io) });
entry!(vh_init_adia7, io, { init::<Euler1DAdiabatic<7>, 3, 7>(&mut io) });

/// par = mode (0 SI, 1 CGS); inp = x; out = length, mass, time to SI; length, mass, time to CGS
entry!(vh_units, io, {
    let m = if io.par() == 0 { UnitsMode::SI } else { UnitsMode::CGS };
    let u = Units::new(m);
    let x = io.get();
    io.put(u.convert_length_to_si(x));
    io.put(u.convert_mass_to_si(x));
    io.put(u.convert_time_to_si(x));
    io.put(u.convert_length_to_cgs(x));
    io.put(u.convert_mass_to_cgs(x));
    io.put(u.convert_time_to_cgs(x));
    Ok(())
});

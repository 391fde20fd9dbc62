//! Time integration with a right-hand side that is prescribed by the scenario.
use crate::entry;
use crate::stub::*;
use crate::util::*;
use color_eyre::Result;
use corries::prelude::*;
use ndarray::Array2;

pub const NK: usize = 32;
pub static mut PROBE_K: [f64; NK * 64] = [0.0; NK * 64];
pub static mut PROBE_U: [f64; NK * 64] = [0.0; NK * 64];
pub static mut PROBE_N: usize = 0;
/// the evaluation (counted from 1) that fails, 0 = none
pub static mut PROBE_FAIL: usize = 0;

/// The q-th evaluation returns the q-th prescribed right-hand side and records the state it was asked for.
pub struct Probe;

impl<const E: usize, const S: usize> NumFlux<E, S> for Probe {
    fn new(_: &NumFluxConfig, _: &Mesh<S>) -> Result<Self> {
        Ok(Probe)
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(&mut self, d: &mut Array2<f64>, u: &mut State<P, E, S>, _: &Mesh<S>) -> Result<()> {
        unsafe {
            let q = PROBE_N;
            PROBE_N += 1;
            if PROBE_N == PROBE_FAIL {
                color_eyre::eyre::bail!("prescribed failure");
            }
            if q < NK {
                for j in 0..E {
                    for i in 0..S {
                        PROBE_U[q * 64 + j * S + i] = u.cent.cons[[j, i]];
                        if i >= 2 && i < S - 2 {
                            d[[j, i]] = PROBE_K[q * 64 + j * S + i];
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn rkf_mode(k: u64) -> RKFMode {
    match k {
        0 => RKFMode::RK1,
        1 => RKFMode::RK2,
        2 => RKFMode::RK3,
        3 => RKFMode::RK4,
        4 => RKFMode::Heun2,
        5 => RKFMode::RKF12,
        6 => RKFMode::RKF45,
        7 => RKFMode::SSPRK3,
        _ => RKFMode::SSPRK5,
    }
}

pub fn config(rkf: RkfConfig, num: NumFluxConfig, bcw: BoundaryMode, bce: BoundaryMode) -> CorriesConfig {
    CorriesConfig {
        print_banner: false,
        mesh_config: MeshConfig { mode: MeshMode::Cartesian, xi_in: 1.0, xi_out: 2.0 },
        physics_config: PhysicsConfig { adiabatic_index: 1.4, units_mode: UnitsMode::SI },
        boundary_condition_west: bcw,
        boundary_condition_east: bce,
        numerics_config: NumericsConfig {
            numflux_config: num,
            time_integration_config: TimeIntegrationConfig::Rkf(rkf),
            iter_max: 1000,
            t0: 0.0,
            t_end: 10.0,
            dt_min: 1.0e-12,
            dt_max: 1.0e10,
            dt_cfl_param: 0.5,
        },
        output_counter_max: 1,
        writer_config: vec![],
    }
}

/// par = scheme, asc; inp = t, dt_cfl, t_next_output, dt_max, dt_min, rtol, atol, friction, u0[2S], K[nk][2 * (S-4)] with nk = par[2];
/// out = n, t, dt, iter, cons[2S], prim[2S], stage states [par[3]][2S]
entry!(vh_rk, io, {
    const E: usize = 2;
    const S: usize = 6;
    let rkf = RkfConfig {
        rkf_mode: rkf_mode(io.par()),
        asc: io.par() == 1,
        asc_relative_tolerance: 1.0,
        asc_absolute_tolerance: 1.0,
        asc_timestep_friction: 1.0,
    };
    let (nk, nrec) = (io.par() as usize, io.par() as usize);
    let (t, dt, t_next, dt_max, dt_min) = (io.get(), io.get(), io.get(), io.get(), io.get());
    let rkf = RkfConfig {
        asc_relative_tolerance: io.get(),
        asc_absolute_tolerance: io.get(),
        asc_timestep_friction: io.get(),
        ..rkf
    };
    let mut cfg = config(rkf, NumFluxConfig::Hll, BoundaryMode::Custom(vec![]), BoundaryMode::Custom(vec![]));
    cfg.numerics_config.dt_max = dt_max;
    cfg.numerics_config.dt_min = dt_min;
    let mesh = mesh::<S>(10.0, 12.0)?;
    unsafe {
        PROBE_N = 0;
        AFF = [0.0; 32];
        AFF[31] = dt;
        DTQ_LEN = 0;
    }
    let mut solver = Solver::<Affine, Probe, RungeKuttaFehlberg<Affine, E, S>, E, S>::new(&cfg, &mesh)?;
    solver.timestep.t = t;
    solver.timestep.t_next_output = t_next;
    let mut u = State::<Affine, E, S>::new(&cfg.physics_config);
    for j in 0..E { for i in 0..S { u.cent.cons[[j, i]] = io.get(); } }
    for q in 0..nk {
        for j in 0..E { for i in 2..S - 2 { unsafe { PROBE_K[q * 64 + j * S + i] = io.get(); } } }
    }
    solver.next_solution(&mut u, &mesh)?;
    unsafe { io.put(PROBE_N as f64); }
    io.put(solver.timestep.t);
    io.put(solver.timestep.dt);
    io.put(solver.timestep.iter as f64);
    for j in 0..E { for i in 0..S { io.put(u.cent.cons[[j, i]]); } }
    for j in 0..E { for i in 0..S { io.put(u.cent.prim[[j, i]]); } }
    for q in 0..nrec {
        for j in 0..E { for i in 0..S { unsafe { io.put(PROBE_U[q * 64 + j * S + i]); } } }
    }
    Ok(())
});

/// par = scheme, step control, evaluations per step, steps; inp = t, dt_cfl of each step, u0[2S], K[steps * stages][2 * (S-4)];
/// out = n, t, iter, cons[2S] of the last step, states of all stages [steps * stages][2S]
entry!(vh_rk_steps, io, {
    const E: usize = 2;
    const S: usize = 6;
    let rkf = RkfConfig {
        rkf_mode: rkf_mode(io.par()),
        asc: io.par() == 1,
        asc_relative_tolerance: 0.001,
        asc_absolute_tolerance: 0.001,
        asc_timestep_friction: 0.08,
    };
    let (ns, steps) = (io.par() as usize, io.par() as usize);
    let cfg = config(rkf, NumFluxConfig::Hll, BoundaryMode::Custom(vec![]), BoundaryMode::Custom(vec![]));
    let mesh = mesh::<S>(10.0, 12.0)?;
    let mut solver = Solver::<Affine, Probe, RungeKuttaFehlberg<Affine, E, S>, E, S>::new(&cfg, &mesh)?;
    solver.timestep.t = io.get();
    solver.timestep.t_next_output = 1.0e6;
    unsafe {
        PROBE_N = 0;
        AFF = [0.0; 32];
        DTN = 0;
        DTQ_LEN = steps;
    }
    for k in 0..steps { unsafe { DTQ[k] = io.get(); } }
    let mut u = State::<Affine, E, S>::new(&cfg.physics_config);
    for j in 0..E { for i in 0..S { u.cent.cons[[j, i]] = io.get(); } }
    for q in 0..ns * steps {
        for j in 0..E { for i in 2..S - 2 { unsafe { PROBE_K[q * 64 + j * S + i] = io.get(); } } }
    }
    for _ in 0..steps { solver.next_solution(&mut u, &mesh)?; }
    unsafe { io.put(PROBE_N as f64); DTQ_LEN = 0; }
    io.put(solver.timestep.t);
    io.put(solver.timestep.iter as f64);
    for j in 0..E { for i in 0..S { io.put(u.cent.cons[[j, i]]); } }
    for q in 0..ns * steps {
        for j in 0..E { for i in 0..S { unsafe { io.put(PROBE_U[q * 64 + j * S + i]); } } }
    }
    Ok(())
});

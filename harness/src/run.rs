//! Whole runs: run_corries with a writer.
use crate::entry;
use crate::rk::{self, *};
use crate::stub::*;
use crate::util::*;
use corries::prelude::*;

pub fn out_scalar(names: Vec<DataName>) -> OutputConfig {
    OutputConfig {
        stream_mode: StreamMode::Stdout,
        formatting_mode: FormattingMode::CSV,
        string_conversion_mode: ToStringConversionMode::Scalar,
        folder_name: "".to_string(),
        should_clear_out_folder: false,
        file_name: "".to_string(),
        precision: 17,
        should_print_ghostcells: false,
        should_print_metadata: false,
        data_names: names,
    }
}

pub fn reset() {
    unsafe {
        PROBE_N = 0;
        PROBE_FAIL = 0;
        PROBE_K = [0.0; NK * 64];
        AFF = [0.0; 32];
        DTN = 0;
        DTQ_LEN = 0;
        STRICT = false;
    }
}

/// par = number of outputs, number of prescribed steps, failing evaluation (100 + k: the k-th step results in an invalid state), iter_max; inp = t0, t_end, dt_min, dt_max, steps
/// out = t, t_next_output, iter; stdout = T, Iter, Dt, DtKind, one row per output
entry!(vh_run, io, {
    const E: usize = 2;
    const S: usize = 6;
    let mut cfg = rk::config(
        RkfConfig { rkf_mode: RKFMode::RK1, asc: false, asc_relative_tolerance: 1.0, asc_absolute_tolerance: 1.0, asc_timestep_friction: 1.0 },
        NumFluxConfig::Hll,
        BoundaryMode::Custom(vec![]),
        BoundaryMode::Custom(vec![]),
    );
    cfg.output_counter_max = io.par() as usize;
    cfg.writer_config = vec![out_scalar(vec![DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind])];
    let mesh = mesh::<S>(10.0, 12.0)?;
    let w = Writer::new::<S>(&cfg, &mesh)?;
    let nq = io.par() as usize;
    let fail = io.par() as usize;
    cfg.numerics_config.iter_max = io.par() as usize;
    cfg.numerics_config.t0 = io.get();
    cfg.numerics_config.t_end = io.get();
    cfg.numerics_config.dt_min = io.get();
    cfg.numerics_config.dt_max = io.get();
    reset();
    unsafe {
        if fail > 100 {
            STRICT = true;
            PROBE_K[(fail - 101) * 64 + 2] = 1.0e12;
        } else {
            PROBE_FAIL = fail;
        }
        AFF[31] = 1.0e30;
        DTQ_LEN = nq;
    }
    for q in 0..nq { unsafe { DTQ[q] = io.get(); } }
    let solver = Solver::<Affine, Probe, RungeKuttaFehlberg<Affine, E, S>, E, S>::new(&cfg, &mesh)?;
    let u = State::<Affine, E, S>::new(&cfg.physics_config);
    let mut comp = (u, solver, mesh, w);
    let r = comp.run_corries();
    io.put(comp.1.timestep.t);
    io.put(comp.1.timestep.t_next_output);
    io.put(comp.1.timestep.iter as f64);
    std::mem::forget(comp);
    r
});

//! Conversions, derived quantities, validation and the CFL step width of the real physics systems.
use crate::entry;
use crate::util::*;
use corries::prelude::*;
use corries::variables::Variables;

pub fn load_vars<const E: usize, const S: usize>(io: &mut Io, v: &mut Variables<E, S>) {
    for j in 0..E { for i in 0..S { v.prim[[j, i]] = io.get(); } }
    for j in 0..E { for i in 0..S { v.cons[[j, i]] = io.get(); } }
    for i in 0..S { v.c_sound[i] = io.get(); }
    for j in 0..E { for i in 0..S { v.eigen_vals[[j, i]] = io.get(); } }
    for j in 0..E { for i in 0..S { v.flux[[j, i]] = io.get(); } }
}

pub fn dump_vars<const E: usize, const S: usize>(io: &mut Io, v: &Variables<E, S>) {
    for j in 0..E { for i in 0..S { io.put(v.prim[[j, i]]); } }
    for j in 0..E { for i in 0..S { io.put(v.cons[[j, i]]); } }
    for i in 0..S { io.put(v.c_sound[i]); }
    for j in 0..E { for i in 0..S { io.put(v.eigen_vals[[j, i]]); } }
    for j in 0..E { for i in 0..S { io.put(v.flux[[j, i]]); } }
    io.put(v.gamma);
}

fn op<P: Physics<E, S> + 'static, const E: usize, const S: usize, const D: u8>(u: &mut State<P, E, S>, k: u64) {
    match k {
        0 => u.update_prim_d::<D>(),
        1 => u.update_cons_d::<D>(),
        2 => u.update_c_sound_d::<D>(),
        3 => u.update_eigen_vals_d::<D>(),
        4 => u.update_eigen_vals_min_d::<D>(),
        5 => u.update_eigen_vals_max_d::<D>(),
        6 => u.update_flux_d::<D>(),
        7 => u.update_derived_variables_d::<D>(),
        8 => u.init_west_east(),
        9 => { u.update_cons_d::<D>(); u.update_prim_d::<D>(); }
        _ => { u.update_prim_d::<D>(); u.update_cons_d::<D>(); }
    }
}

fn cent_op<P: Physics<E, S> + 'static, const E: usize, const S: usize>(u: &mut State<P, E, S>, k: u64) {
    match k {
        0 => u.update_prim(),
        1 => u.update_cons(),
        2 => u.update_c_sound(),
        3 => u.update_eigen_vals(),
        4 => u.update_eigen_vals_min(),
        5 => u.update_eigen_vals_max(),
        6 => u.update_flux(),
        7 => u.update_derived_variables(),
        8 => u.init_west_east(),
        9 => { u.update_cons(); u.update_prim(); }
        _ => { u.update_prim(); u.update_cons(); }
    }
}

/// par = op, direction (0 west, 1 cent, 2 east, 3 cent through the short names);
/// inp = gamma, west, cent, east; out = west, cent, east
fn phys<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let cfg = PhysicsConfig { adiabatic_index: io.get(), units_mode: UnitsMode::SI };
    let mut u = State::<P, E, S>::new(&cfg);
    load_vars(io, &mut u.west);
    load_vars(io, &mut u.cent);
    load_vars(io, &mut u.east);
    let (k, d) = (io.par(), io.par());
    match d {
        0 => op::<P, E, S, { Direction::West as u8 }>(&mut u, k),
        1 => op::<P, E, S, { Direction::Cent as u8 }>(&mut u, k),
        2 => op::<P, E, S, { Direction::East as u8 }>(&mut u, k),
        _ => cent_op::<P, E, S>(&mut u, k),
    }
    dump_vars(io, &u.west);
    dump_vars(io, &u.cent);
    dump_vars(io, &u.east);
    Ok(())
}
entry!(vh_phys_isot, io, { phys::<Euler1DIsot<3>, 2, 3>(&mut io) });
entry!(vh_phys_adia, io, { phys::<Euler1DAdiabatic<3>, 3, 3>(&mut io) });

/// par = kind (0 assign, 1 assign_vars, 2 west only); inp = a (3 Variables), b (3 Variables); out = a after a.assign(b), b
fn assign<P: Physics<E, S> + 'static, const E: usize, const S: usize>(io: &mut Io) -> color_eyre::Result<()> {
    let cfg = PhysicsConfig { adiabatic_index: 1.4, units_mode: UnitsMode::SI };
    let mut a = State::<P, E, S>::new(&cfg);
    let mut b = State::<P, E, S>::new(&cfg);
    for u in [&mut a, &mut b] {
        load_vars(io, &mut u.west);
        load_vars(io, &mut u.cent);
        load_vars(io, &mut u.east);
    }
    match io.par() {
        0 => a.assign(&b),
        1 => a.assign_vars(&b),
        2 => a.assign_vars_d::<{ Direction::West as u8 }>(&b),
        _ => a.assign_vars_d::<{ Direction::East as u8 }>(&b),
    }
    for u in [&a, &b] {
        dump_vars(io, &u.west);
        dump_vars(io, &u.cent);
        dump_vars(io, &u.east);
    }
    Ok(())
}
entry!(vh_assign_adia, io, { assign::<Euler1DAdiabatic<3>, 3, 3>(&mut io) });

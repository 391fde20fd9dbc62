//! Implementers of the public traits used to drive the generic code.
use crate::util::*;
use color_eyre::Result;
use corries::prelude::*;
use corries::variables::Variables;
use ndarray::{Array2, ArrayView1};

/// Parameters of the affine physics (set by the entry points).
pub static mut AFF: [f64; 32] = [0.0; 32];

/// CFL steps of the affine physics: the first DTQ_LEN are prescribed, AFF[31] afterwards
pub static mut DTQ: [f64; 8] = [0.0; 8];
pub static mut DTQ_LEN: usize = 0;
pub static mut DTN: usize = 0;
/// whether states with a large negative value are invalid
pub static mut STRICT: bool = false;

/// Physics whose flux, eigen values and conversions are affine maps with free coefficients (E = 2):
/// prim = cons; eigen_min = a0 + a1*prim0 + a2*prim1; eigen_max = a3 + a4*prim0 + a5*prim1;
/// flux_0 = a6 + a7*prim0 + a8*prim1 ; flux_1 = a9 + a10*cons0 + a11*cons1
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Affine;

impl<const S: usize> Physics<2, S> for Affine {
    const NUM_EQ: usize = 2;
    const IS_ADIABATIC: bool = false;
    const JRHO: usize = 0;
    const JXI: usize = 1;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = usize::MAX;
    fn new() -> Self {
        Affine
    }
    fn name() -> String {
        String::new()
    }
    fn update_prim(vars: &mut Variables<2, S>) {
        for j in 0..2 {
            for i in 0..S {
                vars.prim[[j, i]] = vars.cons[[j, i]];
            }
        }
    }
    fn update_cons(vars: &mut Variables<2, S>) {
        for j in 0..2 {
            for i in 0..S {
                vars.cons[[j, i]] = vars.prim[[j, i]];
            }
        }
    }
    fn update_eigen_vals_min(vars: &mut Variables<2, S>) {
        for i in 0..S {
            unsafe {
                vars.eigen_vals[[0, i]] = AFF[0] + AFF[1] * vars.prim[[0, i]] + AFF[2] * vars.prim[[1, i]];
            }
        }
    }
    fn update_eigen_vals_max(vars: &mut Variables<2, S>) {
        for i in 0..S {
            unsafe {
                vars.eigen_vals[[1, i]] = AFF[3] + AFF[4] * vars.prim[[0, i]] + AFF[5] * vars.prim[[1, i]];
            }
        }
    }
    fn update_flux(vars: &mut Variables<2, S>) {
        for i in 0..S {
            unsafe {
                vars.flux[[0, i]] = AFF[6] + AFF[7] * vars.prim[[0, i]] + AFF[8] * vars.prim[[1, i]];
                vars.flux[[1, i]] = AFF[9] + AFF[10] * vars.cons[[0, i]] + AFF[11] * vars.cons[[1, i]];
            }
        }
    }
    fn calc_dt_cfl(_: &ArrayView1<f64>, _: f64, _: &Mesh<S>) -> Result<f64> {
        unsafe {
            let k = DTN;
            DTN += 1;
            Ok(if k < DTQ_LEN { DTQ[k] } else { AFF[31] })
        }
    }
    fn validate(vars: &Variables<2, S>) -> Result<()> {
        if unsafe { STRICT } && vars.prim[[0, 2]] < -1.0 {
            color_eyre::eyre::bail!("invalid state");
        }
        Ok(())
    }
}

/// Physics with free fluxes and eigen values per cell (centre only).
pub static mut FREE_FLUX: [f64; 64] = [0.0; 64];

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Free;

impl<const S: usize> Physics<2, S> for Free {
    const NUM_EQ: usize = 2;
    const IS_ADIABATIC: bool = false;
    const JRHO: usize = 0;
    const JXI: usize = 1;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = usize::MAX;
    fn new() -> Self {
        Free
    }
    fn name() -> String {
        String::new()
    }
    fn update_prim(_: &mut Variables<2, S>) {}
    fn update_cons(_: &mut Variables<2, S>) {}
    fn update_eigen_vals(_: &mut Variables<2, S>) {}
    fn update_eigen_vals_min(_: &mut Variables<2, S>) {}
    fn update_eigen_vals_max(_: &mut Variables<2, S>) {}
    fn update_flux(vars: &mut Variables<2, S>) {
        for j in 0..2 {
            for i in 0..S {
                unsafe {
                    vars.flux[[j, i]] = FREE_FLUX[j * S + i];
                }
            }
        }
    }
    fn calc_dt_cfl(_: &ArrayView1<f64>, _: f64, _: &Mesh<S>) -> Result<f64> {
        unsafe { Ok(AFF[31]) }
    }
    fn validate(_: &Variables<2, S>) -> Result<()> {
        Ok(())
    }
}

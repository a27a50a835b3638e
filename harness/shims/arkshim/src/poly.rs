use crate::ff::*;
pub trait EvaluationDomain<F: PrimeField>: Sized + Copy {
    fn new(num_coeffs: usize) -> Option<Self>;
    fn size(&self) -> usize;
    fn group_gen(&self) -> F;
    fn element(&self, i: usize) -> F { self.group_gen().pow([i as u64]) }
    fn elements(&self) -> Vec<F> { (0..self.size()).map(|i| self.element(i)).collect() }
    fn evaluate_vanishing_polynomial(&self, tau: F) -> F { tau.pow([self.size() as u64]) - F::one() }
    fn evaluate_all_lagrange_coefficients(&self, tau: F) -> Vec<F>;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Radix2EvaluationDomain<F> { n: usize, g: F }
impl<F: PrimeField> EvaluationDomain<F> for Radix2EvaluationDomain<F> {
    fn new(num_coeffs: usize) -> Option<Self> { let n = num_coeffs.checked_next_power_of_two()?; let g = F::root_of_unity(n.trailing_zeros())?; crate::tap::push_domain(num_coeffs, n); Some(Self { n, g }) }
    fn size(&self) -> usize { self.n }
    fn group_gen(&self) -> F { self.g }
    fn evaluate_all_lagrange_coefficients(&self, tau: F) -> Vec<F> {
        // L_j(tau) = prod_{k != j} (tau - w^k) / (w^j - w^k), directly
        let e = self.elements();
        (0..self.n).map(|j| { let (mut a, mut b) = (F::one(), F::one()); for k in 0..self.n { if k != j { a *= tau - e[k]; b *= e[j] - e[k]; } } a * b.inverse().unwrap() }).collect()
    }
}
pub type GeneralEvaluationDomain<F> = Radix2EvaluationDomain<F>;

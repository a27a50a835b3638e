use crate::ff::*;
use std::cell::{Ref, RefCell, RefMut};
use std::collections::BTreeMap;
use std::ops::*;
use std::rc::Rc;
pub const R1CS_PREDICATE_LABEL: &str = "R1CS";
pub type Label = String;
pub type Matrix<F> = Vec<Vec<(F, usize)>>;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SynthesisError { MissingCS, AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable, PredicateNotFound, ArityMismatch }
impl std::fmt::Display for SynthesisError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for SynthesisError {}
pub type Result<T> = std::result::Result<T, SynthesisError>;
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(usize) }
impl Variable {
    pub fn one() -> Variable { Variable::One }
    pub fn zero() -> Variable { Variable::Zero }
    pub fn get_variable_index(&self, ni: usize) -> Option<usize> { match self { Variable::One => Some(0), Variable::Instance(i) => Some(*i), Variable::Witness(i) => Some(ni + i), _ => None } }
    pub fn is_witness(&self) -> bool { matches!(self, Variable::Witness(_)) }
    pub fn is_instance(&self) -> bool { matches!(self, Variable::Instance(_)) }
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct LinearCombination<F>(pub Vec<(F, Variable)>);
impl<F: Field> LinearCombination<F> {
    pub fn zero() -> Self { Self(vec![]) }
    pub fn new() -> Self { Self(vec![]) }
    fn put(&mut self, c: F, v: Variable) { match self.0.binary_search_by_key(&v, |x| x.1) { Ok(i) => self.0[i].0 += c, Err(i) => self.0.insert(i, (c, v)) } }
    pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> { self.0.iter() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
impl<F: Field> Add<(F, Variable)> for LinearCombination<F> { type Output = Self; fn add(mut self, o: (F, Variable)) -> Self { self.put(o.0, o.1); self } }
impl<F: Field> Sub<(F, Variable)> for LinearCombination<F> { type Output = Self; fn sub(mut self, o: (F, Variable)) -> Self { self.put(-o.0, o.1); self } }
impl<F: Field> Add<Variable> for LinearCombination<F> { type Output = Self; fn add(mut self, o: Variable) -> Self { self.put(F::one(), o); self } }
impl<F: Field> Sub<Variable> for LinearCombination<F> { type Output = Self; fn sub(mut self, o: Variable) -> Self { self.put(-F::one(), o); self } }
impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> { fn add_assign(&mut self, o: (F, Variable)) { self.put(o.0, o.1) } }
impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> { fn sub_assign(&mut self, o: (F, Variable)) { self.put(-o.0, o.1) } }
impl<F: Field> AddAssign<Variable> for LinearCombination<F> { fn add_assign(&mut self, o: Variable) { self.put(F::one(), o) } }
impl<F: Field> Add<LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(mut self, o: Self) -> Self { for (c, v) in o.0 { self.put(c, v); } self } }
impl<F: Field> Mul<F> for LinearCombination<F> { type Output = Self; fn mul(mut self, o: F) -> Self { for x in self.0.iter_mut() { x.0 *= o; } self } }
impl<F: Field> From<Variable> for LinearCombination<F> { fn from(v: Variable) -> Self { Self(vec![(F::one(), v)]) } }
impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from(v: (F, Variable)) -> Self { Self(vec![v]) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum OptimizationGoal { None, Constraints, Weight }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SynthesisMode { Setup, Prove { construct_matrices: bool, generate_lc_assignments: bool } }
#[derive(Debug, Clone)]
pub struct ConstraintSystem<F: Field> { mode: SynthesisMode, goal: OptimizationGoal, pub n_instance: usize, pub n_witness: usize, pub instance: Vec<F>, pub witness: Vec<F>, pub rows: Vec<[LinearCombination<F>; 3]> }
impl<F: Field> Default for ConstraintSystem<F> { fn default() -> Self { Self::new() } }
impl<F: Field> ConstraintSystem<F> {
    pub fn new() -> Self { Self { mode: SynthesisMode::Prove { construct_matrices: true, generate_lc_assignments: true }, goal: OptimizationGoal::None, n_instance: 1, n_witness: 0, instance: vec![F::one()], witness: vec![], rows: vec![] } }
    pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::new(Self::new()) }
    pub fn set_mode(&mut self, m: SynthesisMode) { self.mode = m }
    pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
    pub fn set_optimization_goal(&mut self, g: OptimizationGoal) { self.goal = g }
    pub fn num_constraints(&self) -> usize { self.rows.len() }
    pub fn num_instance_variables(&self) -> usize { self.n_instance }
    pub fn num_witness_variables(&self) -> usize { self.n_witness }
    pub fn num_variables(&self) -> usize { self.n_instance + self.n_witness }
    pub fn instance_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.instance) } }
    pub fn witness_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.witness) } }
    pub fn new_input_variable<X: FnOnce() -> Result<F>>(&mut self, f: X) -> Result<Variable> { let i = self.n_instance; self.n_instance += 1; if !self.is_in_setup_mode() { self.instance.push(f()?); } Ok(Variable::Instance(i)) }
    pub fn new_witness_variable<X: FnOnce() -> Result<F>>(&mut self, f: X) -> Result<Variable> { let i = self.n_witness; self.n_witness += 1; if !self.is_in_setup_mode() { self.witness.push(f()?); } Ok(Variable::Witness(i)) }
    pub fn enforce_constraint<'a>(&mut self, label: &str, lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F> + 'a>>) -> Result<()> { if label != R1CS_PREDICATE_LABEL { return Err(SynthesisError::PredicateNotFound); } let v: Vec<_> = lcs.into_iter().map(|f| f()).collect(); let r: [LinearCombination<F>; 3] = v.try_into().map_err(|_| SynthesisError::ArityMismatch)?; self.rows.push(r); Ok(()) }
    fn value(&self, v: Variable) -> Option<F> { match v { Variable::Zero => Some(F::zero()), Variable::One => Some(F::one()), Variable::Instance(i) => self.instance.get(i).copied(), Variable::Witness(i) => self.witness.get(i).copied(), _ => None } }
    pub fn eval(&self, l: &LinearCombination<F>) -> Option<F> { let mut s = F::zero(); for (c, v) in &l.0 { s += *c * self.value(*v)?; } Some(s) }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { if self.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); } for (i, r) in self.rows.iter().enumerate() { let e = |k: usize| self.eval(&r[k]).ok_or(SynthesisError::AssignmentMissing); if e(0)? * e(1)? != e(2)? { return Ok(Some(format!("constraint {}", i))); } } Ok(None) }
    pub fn is_satisfied(&self) -> Result<bool> { self.which_is_unsatisfied().map(|x| x.is_none()) }
    pub fn finalize(&mut self) {}
    pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> { let ni = self.n_instance; let m = (0..3).map(|k| self.rows.iter().map(|r| r[k].0.iter().filter_map(|(c, v)| if c.is_zero() { None } else { v.get_variable_index(ni).map(|i| (*c, i)) }).collect()).collect()).collect(); let mut o = BTreeMap::new(); o.insert(R1CS_PREDICATE_LABEL.to_string(), m); Ok(o) }
}
#[derive(Debug, Clone)]
pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
impl<F: Field> ConstraintSystemRef<F> {
    pub fn new(c: ConstraintSystem<F>) -> Self { let r = Rc::new(RefCell::new(c)); crate::tap::push_system(r.clone()); Self::CS(r) }
    fn rc(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> { match self { Self::None => None, Self::CS(r) => Some(r) } }
    pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { self.rc().map(|r| r.borrow()) }
    pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { self.rc().map(|r| r.borrow_mut()) }
    pub fn into_inner(self) -> Option<ConstraintSystem<F>> { match self { Self::None => None, Self::CS(r) => Some(r.borrow().clone()) } }
    pub fn set_mode(&self, m: SynthesisMode) { if let Some(r) = self.rc() { r.borrow_mut().set_mode(m) } }
    pub fn set_optimization_goal(&self, g: OptimizationGoal) { if let Some(r) = self.rc() { r.borrow_mut().set_optimization_goal(g) } }
    pub fn is_in_setup_mode(&self) -> bool { self.rc().map_or(false, |r| r.borrow().is_in_setup_mode()) }
    pub fn num_constraints(&self) -> usize { self.rc().map_or(0, |r| r.borrow().num_constraints()) }
    pub fn num_instance_variables(&self) -> usize { self.rc().map_or(0, |r| r.borrow().num_instance_variables()) }
    pub fn num_witness_variables(&self) -> usize { self.rc().map_or(0, |r| r.borrow().num_witness_variables()) }
    pub fn num_variables(&self) -> usize { self.rc().map_or(0, |r| r.borrow().num_variables()) }
    pub fn new_input_variable<X: FnOnce() -> Result<F>>(&self, f: X) -> Result<Variable> { let r = self.rc().ok_or(SynthesisError::MissingCS)?; let v = f(); let mut v = Some(v); r.borrow_mut().new_input_variable(|| v.take().unwrap()) }
    pub fn new_witness_variable<X: FnOnce() -> Result<F>>(&self, f: X) -> Result<Variable> { let r = self.rc().ok_or(SynthesisError::MissingCS)?; let v = f(); let mut v = Some(v); r.borrow_mut().new_witness_variable(|| v.take().unwrap()) }
    pub fn enforce_constraint<'a>(&self, label: &str, lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F> + 'a>>) -> Result<()> { self.rc().ok_or(SynthesisError::MissingCS)?.borrow_mut().enforce_constraint(label, lcs) }
    pub fn enforce_r1cs_constraint<'a>(&self, a: impl FnOnce() -> LinearCombination<F> + 'a, b: impl FnOnce() -> LinearCombination<F> + 'a, c: impl FnOnce() -> LinearCombination<F> + 'a) -> Result<()> { let v: Vec<Box<dyn FnOnce() -> LinearCombination<F> + 'a>> = vec![Box::new(a), Box::new(b), Box::new(c)]; self.enforce_constraint(R1CS_PREDICATE_LABEL, v) }
    pub fn is_satisfied(&self) -> Result<bool> { self.rc().ok_or(SynthesisError::AssignmentMissing)?.borrow().is_satisfied() }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.rc().ok_or(SynthesisError::AssignmentMissing)?.borrow().which_is_unsatisfied() }
    pub fn instance_assignment(&self) -> Result<Vec<F>> { self.rc().ok_or(SynthesisError::MissingCS)?.borrow().instance_assignment().map(|x| x.to_vec()) }
    pub fn witness_assignment(&self) -> Result<Vec<F>> { self.rc().ok_or(SynthesisError::MissingCS)?.borrow().witness_assignment().map(|x| x.to_vec()) }
    pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> { self.rc().ok_or(SynthesisError::MissingCS)?.borrow().to_matrices() }
    pub fn finalize(&self) {}
}
pub trait ConstraintSynthesizer<F: Field> { fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>; }

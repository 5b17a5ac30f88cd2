//! Stand-in for ark-relations: a constraint system that is evaluated while it is generated, can be put
//! in setup mode, and lets an explorer choose the value of every prover-supplied witness.
use crate::ff::Field;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::rc::Rc;

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum SynthesisError {
    MissingCS,
    AssignmentMissing,
    DivisionByZero,
    Unsatisfiable,
    PolynomialDegreeTooLarge,
    UnexpectedIdentity,
    MalformedVerifyingKey,
    UnconstrainedVariable,
}
impl std::error::Error for SynthesisError {}
impl fmt::Display for SynthesisError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
type Result<T> = std::result::Result<T, SynthesisError>;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Variable {
    Zero,
    One,
    Instance(usize),
    Witness(usize),
    SymbolicLc(usize),
}
impl Variable {
    pub fn is_zero(&self) -> bool {
        matches!(self, Variable::Zero)
    }
    pub fn is_one(&self) -> bool {
        matches!(self, Variable::One)
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct LcIndex(pub usize);

impl<F: Field> LinearCombination<F> {
    pub fn new() -> Self {
        LinearCombination(vec![])
    }
    pub fn zero() -> Self {
        Self::new()
    }
    pub fn negate_in_place(&mut self) {
        self.0.iter_mut().for_each(|(c, _)| *c = -*c)
    }
    pub fn compactify(&mut self) {
        self.0.sort_by_key(|e| e.1);
        let mut out: Vec<(F, Variable)> = vec![];
        for (c, v) in self.0.drain(..) {
            match out.last_mut() {
                Some((d, w)) if *w == v => *d += c,
                _ => out.push((c, v)),
            }
        }
        self.0 = out;
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> {
        self.0.iter()
    }
}
impl<F: Field> Default for LinearCombination<F> {
    fn default() -> Self {
        Self::new()
    }
}
impl<F: Field> From<(F, Variable)> for LinearCombination<F> {
    fn from(x: (F, Variable)) -> Self {
        LinearCombination(vec![x])
    }
}
impl<F: Field> From<Variable> for LinearCombination<F> {
    fn from(x: Variable) -> Self {
        LinearCombination(vec![(F::one(), x)])
    }
}
#[macro_export]
macro_rules! lc {
    () => {
        $crate::relations::LinearCombination::zero()
    };
}
impl<F: Field> Neg for LinearCombination<F> {
    type Output = Self;
    fn neg(mut self) -> Self {
        self.negate_in_place();
        self
    }
}
macro_rules! lc_ops {
    ($($t:ty, $to:expr);*) => {$(
        impl<'a, F: Field> Add<$t> for LinearCombination<F> { type Output = Self; fn add(mut self, o: $t) -> Self { self.0.extend(($to)(o, false)); self } }
        impl<'a, F: Field> Sub<$t> for LinearCombination<F> { type Output = Self; fn sub(mut self, o: $t) -> Self { self.0.extend(($to)(o, true)); self } }
        impl<'a, 'b, F: Field> Add<$t> for &'b LinearCombination<F> { type Output = LinearCombination<F>; fn add(self, o: $t) -> LinearCombination<F> { self.clone() + o } }
        impl<'a, 'b, F: Field> Sub<$t> for &'b LinearCombination<F> { type Output = LinearCombination<F>; fn sub(self, o: $t) -> LinearCombination<F> { self.clone() - o } }
        impl<'a, F: Field> AddAssign<$t> for LinearCombination<F> { fn add_assign(&mut self, o: $t) { self.0.extend(($to)(o, false)) } }
        impl<'a, F: Field> SubAssign<$t> for LinearCombination<F> { fn sub_assign(&mut self, o: $t) { self.0.extend(($to)(o, true)) } }
    )*};
}
fn sg<F: Field>(c: F, n: bool) -> F {
    if n {
        -c
    } else {
        c
    }
}
lc_ops!(
    Variable, |v, n| std::iter::once((sg(F::one(), n), v));
    (F, Variable), |(c, v), n| std::iter::once((sg(c, n), v));
    LinearCombination<F>, |l: LinearCombination<F>, n| l.0.into_iter().map(move |(c, v)| (sg(c, n), v)).collect::<Vec<_>>();
    &'a LinearCombination<F>, |l: &LinearCombination<F>, n| l.0.iter().map(move |(c, v)| (sg(*c, n), *v)).collect::<Vec<_>>();
    (F, LinearCombination<F>), |(k, l): (F, LinearCombination<F>), n| l.0.into_iter().map(move |(c, v)| (sg(c * k, n), v)).collect::<Vec<_>>();
    (F, &'a LinearCombination<F>), |(k, l): (F, &LinearCombination<F>), n| l.0.iter().map(move |(c, v)| (sg(*c * k, n), *v)).collect::<Vec<_>>()
);
impl<F: Field> Mul<F> for LinearCombination<F> {
    type Output = Self;
    fn mul(mut self, k: F) -> Self {
        self *= k;
        self
    }
}
impl<'a, F: Field> Mul<F> for &'a LinearCombination<F> {
    type Output = LinearCombination<F>;
    fn mul(self, k: F) -> LinearCombination<F> {
        self.clone() * k
    }
}
impl<F: Field> MulAssign<F> for LinearCombination<F> {
    fn mul_assign(&mut self, k: F) {
        self.0.iter_mut().for_each(|(c, _)| *c *= k)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum OptimizationGoal {
    None,
    Constraints,
    Weight,
}
#[derive(PartialEq, Eq, Debug, Copy, Clone, Hash)]
pub enum SynthesisMode {
    Setup,
    Prove { construct_matrices: bool },
}
pub trait ConstraintSynthesizer<F: Field> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>;
}

// ---------------------------------------------------------------- exploration hooks
/// What kind of value the prover is choosing.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Choice {
    Bool,
    Field,
    Point,
}
/// Sees every prover choice (running index, kind, honest value) and may replace the value.
pub type Adversary = Box<dyn FnMut(usize, Choice, &mut dyn Any)>;
thread_local! {
    static ADV: RefCell<Option<Adversary>> = RefCell::new(None);
    static NCHOICE: Cell<usize> = Cell::new(0);
    static ABORT: Cell<bool> = Cell::new(false);
}
/// Runs f with the given adversary choosing witnesses; returns f's result and the number of choices made.
/// With `abort`, the first unsatisfied constraint ends synthesis with an error.
pub fn with_adversary<T>(adv: Adversary, abort: bool, f: impl FnOnce() -> T) -> (T, usize) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ADV.with(|a| *a.borrow_mut() = None);
            ABORT.with(|a| a.set(false));
        }
    }
    let _r = Reset;
    ADV.with(|a| *a.borrow_mut() = Some(adv));
    NCHOICE.with(|n| n.set(0));
    ABORT.with(|a| a.set(abort));
    let r = f();
    (r, NCHOICE.with(|n| n.get()))
}
/// Whether an adversary chooses the witnesses at the moment.
pub fn adversary_active() -> bool {
    ADV.with(|a| a.try_borrow().map_or(false, |a| a.is_some()))
}
/// The honest prover's value for a witness; where the honest computation fails, an adversary still gets
/// to choose, starting from a default.
pub fn honest_or<T>(r: Result<T>, witness: bool, default: impl FnOnce() -> T) -> Result<T> {
    match r {
        Err(_) if witness && adversary_active() => Ok(default()),
        r => r,
    }
}
thread_local! { static INPUTS: std::cell::Cell<bool> = std::cell::Cell::new(false); }
/// While `f` runs the adversary also chooses the values of field and bit inputs.
pub fn choosing_inputs<T>(f: impl FnOnce() -> T) -> T {
    let old = INPUTS.with(|i| i.replace(true));
    struct R(bool);
    impl Drop for R {
        fn drop(&mut self) {
            INPUTS.with(|i| i.set(self.0))
        }
    }
    let _r = R(old);
    f()
}
/// Whether a value allocated as a witness (or not) is the adversary's to choose.
pub fn chosen(witness: bool) -> bool {
    witness || INPUTS.with(|i| i.get())
}
/// Lets the adversary (if any) replace an honest choice.
pub fn choose<T: Any>(kind: Choice, v: &mut T) {
    ADV.with(|a| {
        if let Ok(mut a) = a.try_borrow_mut() {
            if let Some(f) = a.as_mut() {
                let i = NCHOICE.with(|n| {
                    let i = n.get();
                    n.set(i + 1);
                    i
                });
                f(i, kind, v)
            }
        }
    })
}

#[derive(Debug, Clone)]
pub struct ConstraintSystem<F: Field> {
    pub num_instance_variables: usize,
    pub num_witness_variables: usize,
    pub num_constraints: usize,
    pub num_linear_combinations: usize,
    pub optimization_goal: OptimizationGoal,
    pub mode: SynthesisMode,
    pub instance_assignment: Vec<F>,
    pub witness_assignment: Vec<F>,
    lc_values: Vec<Option<F>>,
    first_unsatisfied: Option<String>,
    shape: u64,
}
impl<F: Field> Default for ConstraintSystem<F> {
    fn default() -> Self {
        Self::new()
    }
}
impl<F: Field> ConstraintSystem<F> {
    pub fn new() -> Self {
        ConstraintSystem {
            num_instance_variables: 1,
            num_witness_variables: 0,
            num_constraints: 0,
            num_linear_combinations: 0,
            optimization_goal: OptimizationGoal::Constraints,
            mode: SynthesisMode::Prove { construct_matrices: true },
            instance_assignment: vec![F::one()],
            witness_assignment: vec![],
            lc_values: vec![],
            first_unsatisfied: None,
            shape: 0,
        }
    }
    pub fn new_ref() -> ConstraintSystemRef<F> {
        ConstraintSystemRef::new(Self::new())
    }
    fn mix(&mut self, tag: &str, x: impl Hash) {
        let mut h = DefaultHasher::new();
        self.shape.hash(&mut h);
        tag.hash(&mut h);
        x.hash(&mut h);
        self.shape = h.finish();
    }
    pub fn set_mode(&mut self, mode: SynthesisMode) {
        self.mode = mode
    }
    pub fn is_in_setup_mode(&self) -> bool {
        self.mode == SynthesisMode::Setup
    }
    pub fn should_construct_matrices(&self) -> bool {
        match self.mode {
            SynthesisMode::Setup => true,
            SynthesisMode::Prove { construct_matrices } => construct_matrices,
        }
    }
    fn value(&self, v: Variable) -> Option<F> {
        match v {
            Variable::Zero => Some(F::zero()),
            Variable::One => Some(F::one()),
            Variable::Instance(i) => self.instance_assignment.get(i).copied(),
            Variable::Witness(i) => self.witness_assignment.get(i).copied(),
            Variable::SymbolicLc(i) => self.lc_values.get(i).copied().flatten(),
        }
    }
    fn eval(&self, l: &LinearCombination<F>) -> Option<F> {
        let mut r = F::zero();
        for (c, v) in &l.0 {
            let x = self.value(*v)?;
            if c.is_one() {
                r += x
            } else {
                r += x * c
            }
        }
        Some(r)
    }
    fn fail(&mut self, what: String) -> Result<()> {
        if self.first_unsatisfied.is_none() {
            self.first_unsatisfied = Some(what);
        }
        if ABORT.with(|a| a.get()) {
            return Err(SynthesisError::Unsatisfiable);
        }
        Ok(())
    }
    pub fn enforce_constraint(&mut self, a: LinearCombination<F>, b: LinearCombination<F>, c: LinearCombination<F>) -> Result<()> {
        self.mix("c", (&a.0, &b.0, &c.0));
        self.num_constraints += 1;
        if self.is_in_setup_mode() {
            return Ok(());
        }
        let (x, y, z) = match (self.eval(&a), self.eval(&b), self.eval(&c)) {
            (Some(x), Some(y), Some(z)) => (x, y, z),
            _ => return Err(SynthesisError::AssignmentMissing),
        };
        if x * y != z {
            let n = self.num_constraints - 1;
            return self.fail(format!("constraint {}", n));
        }
        Ok(())
    }
    /// A constraint enforced inside a library gadget, as a predicate on the values.
    pub fn enforce_predicate(&mut self, tag: &str, vars: &[Variable], holds: Option<bool>) -> Result<()> {
        self.mix(tag, vars);
        self.num_constraints += 1;
        if self.is_in_setup_mode() {
            return Ok(());
        }
        match holds {
            None => Err(SynthesisError::AssignmentMissing),
            Some(true) => Ok(()),
            Some(false) => self.fail(format!("{} #{}", tag, self.num_constraints - 1)),
        }
    }
    /// A value computed and fully constrained by a library gadget.
    pub fn new_derived(&mut self, tag: &str, vars: &[Variable], value: Option<F>) -> Variable {
        self.mix(tag, vars);
        self.num_linear_combinations += 1;
        self.lc_values.push(value);
        Variable::SymbolicLc(self.lc_values.len() - 1)
    }
    pub fn new_lc(&mut self, l: LinearCombination<F>) -> Result<Variable> {
        self.mix("lc", &l.0);
        let v = self.eval(&l);
        self.num_linear_combinations += 1;
        self.lc_values.push(v);
        Ok(Variable::SymbolicLc(self.lc_values.len() - 1))
    }
    pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&mut self, f: Func) -> Result<Variable> {
        self.mix("i", 0);
        if !self.is_in_setup_mode() {
            self.instance_assignment.push(f()?);
        }
        self.num_instance_variables += 1;
        Ok(Variable::Instance(self.num_instance_variables - 1))
    }
    pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&mut self, f: Func) -> Result<Variable> {
        self.mix("w", 0);
        if !self.is_in_setup_mode() {
            self.witness_assignment.push(f()?);
        }
        self.num_witness_variables += 1;
        Ok(Variable::Witness(self.num_witness_variables - 1))
    }
    pub fn is_satisfied(&self) -> Result<bool> {
        if self.is_in_setup_mode() {
            Err(SynthesisError::AssignmentMissing)
        } else {
            Ok(self.first_unsatisfied.is_none())
        }
    }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
        if self.is_in_setup_mode() {
            Err(SynthesisError::AssignmentMissing)
        } else {
            Ok(self.first_unsatisfied.clone())
        }
    }
    pub fn finalize(&mut self) {}
    pub fn inline_all_lcs(&mut self) {}
    /// A digest of the structure of the constraints generated so far (no values).
    pub fn shape(&self) -> u64 {
        let mut h = DefaultHasher::new();
        (self.shape, self.num_instance_variables, self.num_witness_variables, self.num_constraints).hash(&mut h);
        h.finish()
    }
    pub fn assigned_value(&self, v: Variable) -> Option<F> {
        self.value(v)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ConstraintMatrices<F: Field> {
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub c: Vec<F>,
}
#[derive(Clone, Debug)]
pub enum ConstraintSystemRef<F: Field> {
    None,
    CS(Rc<RefCell<ConstraintSystem<F>>>),
}
impl<F: Field> PartialEq for ConstraintSystemRef<F> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::None, Self::None) => true,
            (Self::CS(a), Self::CS(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl<F: Field> Eq for ConstraintSystemRef<F> {}
impl<F: Field> ConstraintSystemRef<F> {
    pub fn new(inner: ConstraintSystem<F>) -> Self {
        Self::CS(Rc::new(RefCell::new(inner)))
    }
    pub fn or(self, o: Self) -> Self {
        match self {
            Self::None => o,
            _ => self,
        }
    }
    pub fn is_none(&self) -> bool {
        matches!(self, Self::None)
    }
    fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> {
        match self {
            Self::CS(a) => Some(a),
            Self::None => None,
        }
    }
    pub fn into_inner(self) -> Option<ConstraintSystem<F>> {
        match self {
            Self::CS(a) => Rc::try_unwrap(a).ok().map(|s| s.into_inner()),
            Self::None => None,
        }
    }
    pub fn borrow(&self) -> Option<std::cell::Ref<'_, ConstraintSystem<F>>> {
        self.inner().map(|c| c.borrow())
    }
    pub fn borrow_mut(&self) -> Option<std::cell::RefMut<'_, ConstraintSystem<F>>> {
        self.inner().map(|c| c.borrow_mut())
    }
    pub fn set_mode(&self, m: SynthesisMode) {
        if let Some(c) = self.inner() {
            c.borrow_mut().set_mode(m)
        }
    }
    pub fn set_optimization_goal(&self, g: OptimizationGoal) {
        if let Some(c) = self.inner() {
            c.borrow_mut().optimization_goal = g
        }
    }
    pub fn optimization_goal(&self) -> OptimizationGoal {
        self.inner().map_or(OptimizationGoal::Constraints, |c| c.borrow().optimization_goal)
    }
    pub fn is_in_setup_mode(&self) -> bool {
        self.inner().map_or(false, |c| c.borrow().is_in_setup_mode())
    }
    pub fn should_construct_matrices(&self) -> bool {
        self.inner().map_or(false, |c| c.borrow().should_construct_matrices())
    }
    pub fn num_constraints(&self) -> usize {
        self.inner().map_or(0, |c| c.borrow().num_constraints)
    }
    pub fn num_instance_variables(&self) -> usize {
        self.inner().map_or(0, |c| c.borrow().num_instance_variables)
    }
    pub fn num_witness_variables(&self) -> usize {
        self.inner().map_or(0, |c| c.borrow().num_witness_variables)
    }
    fn need(&self) -> Result<&Rc<RefCell<ConstraintSystem<F>>>> {
        self.inner().ok_or(SynthesisError::MissingCS)
    }
    pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&self, f: Func) -> Result<Variable> {
        let cs = self.need()?;
        if !self.is_in_setup_mode() {
            // evaluate first: the closure may itself use the constraint system
            let v = f();
            cs.borrow_mut().new_input_variable(|| v)
        } else {
            cs.borrow_mut().new_input_variable(|| Err(SynthesisError::AssignmentMissing))
        }
    }
    pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&self, f: Func) -> Result<Variable> {
        let cs = self.need()?;
        if !self.is_in_setup_mode() {
            let v = f();
            cs.borrow_mut().new_witness_variable(|| v)
        } else {
            cs.borrow_mut().new_witness_variable(|| Err(SynthesisError::AssignmentMissing))
        }
    }
    pub fn new_lc(&self, l: LinearCombination<F>) -> Result<Variable> {
        self.need()?.borrow_mut().new_lc(l)
    }
    pub fn new_derived(&self, tag: &str, vars: &[Variable], value: Option<F>) -> Result<Variable> {
        Ok(self.need()?.borrow_mut().new_derived(tag, vars, value))
    }
    pub fn enforce_predicate(&self, tag: &str, vars: &[Variable], holds: Option<bool>) -> Result<()> {
        self.need()?.borrow_mut().enforce_predicate(tag, vars, holds)
    }
    pub fn enforce_constraint(&self, a: LinearCombination<F>, b: LinearCombination<F>, c: LinearCombination<F>) -> Result<()> {
        self.need()?.borrow_mut().enforce_constraint(a, b, c)
    }
    pub fn finalize(&self) {}
    pub fn inline_all_lcs(&self) {}
    pub fn is_satisfied(&self) -> Result<bool> {
        self.need()?.borrow().is_satisfied()
    }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
        self.need()?.borrow().which_is_unsatisfied()
    }
    pub fn assigned_value(&self, v: Variable) -> Option<F> {
        self.inner().and_then(|c| c.borrow().value(v))
    }
    pub fn shape(&self) -> u64 {
        self.inner().map_or(0, |c| c.borrow().shape())
    }
    /// The stand-in's library gadgets have no R1CS matrices.
    pub fn to_matrices(&self) -> Option<ConstraintMatrices<F>> {
        None
    }
    pub fn ns(&self) -> Namespace<F> {
        Namespace::from(self.clone())
    }
}
#[derive(Debug, Clone)]
pub struct Namespace<F: Field>(ConstraintSystemRef<F>);
impl<F: Field> From<ConstraintSystemRef<F>> for Namespace<F> {
    fn from(c: ConstraintSystemRef<F>) -> Self {
        Namespace(c)
    }
}
impl<F: Field> Namespace<F> {
    pub fn new(c: ConstraintSystemRef<F>) -> Self {
        Namespace(c)
    }
    pub fn cs(&self) -> ConstraintSystemRef<F> {
        self.0.clone()
    }
    pub fn leave_namespace(self) {}
}
#[macro_export]
macro_rules! ns {
    ($cs:expr, $name:expr) => {
        $crate::relations::Namespace::new($cs.clone())
    };
}
#[derive(PartialEq, Eq, Ord, PartialOrd, Hash, Debug, Clone, Copy)]
pub enum TracingMode {
    OnlyConstraints,
    NoConstraints,
    All,
}
/// Placeholder; tracing does not affect behaviour.
#[derive(Debug, Clone)]
pub struct ConstraintLayer {
    pub mode: TracingMode,
}
impl ConstraintLayer {
    pub fn new(mode: TracingMode) -> Self {
        ConstraintLayer { mode }
    }
}

use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
thread_local! {
    static SYSTEMS: RefCell<Vec<Rc<dyn Any>>> = RefCell::new(vec![]);
    static DRAWS: RefCell<Vec<[u8; 32]>> = RefCell::new(vec![]);
    static SEEDS: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
    static ENTROPY: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
    static DOMAINS: RefCell<Vec<(usize, usize)>> = RefCell::new(vec![]);
}
pub fn clear() { SYSTEMS.with(|s| s.borrow_mut().clear()); DRAWS.with(|s| s.borrow_mut().clear()); SEEDS.with(|s| s.borrow_mut().clear()); ENTROPY.with(|s| s.borrow_mut().clear()); DOMAINS.with(|s| s.borrow_mut().clear()); }
pub fn push_system(r: Rc<dyn Any>) { SYSTEMS.with(|s| s.borrow_mut().push(r)) }
pub fn systems() -> Vec<Rc<dyn Any>> { SYSTEMS.with(|s| s.borrow().clone()) }
pub fn push_draw(b: [u8; 32]) { DRAWS.with(|s| s.borrow_mut().push(b)) }
pub fn draws() -> Vec<[u8; 32]> { DRAWS.with(|s| s.borrow().clone()) }
pub fn push_seed(b: Vec<u8>) { SEEDS.with(|s| s.borrow_mut().push(b)) }
pub fn seeds() -> Vec<Vec<u8>> { SEEDS.with(|s| s.borrow().clone()) }
pub fn push_entropy(b: Vec<u8>) { ENTROPY.with(|s| s.borrow_mut().push(b)) }
pub fn entropy() -> Vec<Vec<u8>> { ENTROPY.with(|s| s.borrow().clone()) }
pub fn push_domain(asked: usize, size: usize) { DOMAINS.with(|s| s.borrow_mut().push((asked, size))) }
pub fn domains() -> Vec<(usize, usize)> { DOMAINS.with(|s| s.borrow().clone()) }

//! C03, static part: which tensors the compiler lets threads share.
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::AtomicU32;
use std::sync::{Arc, Mutex, MutexGuard};

use essay_tensor::tensor::{Axis, Shape, Tensor, Type};
use mc::{run, Ctx};

struct P<T>(PhantomData<T>);
#[allow(dead_code)]
trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<T> No for P<T> {}
#[allow(dead_code)]
impl<T: Send> P<T> { const SEND: bool = true; }
#[allow(dead_code)]
impl<T: Sync> P<T> { const SYNC: bool = true; }

#[allow(dead_code)]
struct Shared(Arc<i32>);
#[allow(dead_code)]
struct Locked(Mutex<Vec<u8>>);
#[allow(dead_code)]
struct Atomic(AtomicU32);
/// not shareable: a non-atomic count
#[allow(dead_code)]
struct Counted(Rc<i32>);
/// may move but not be shared
#[allow(dead_code)]
struct Celled(Cell<i32>);
#[allow(dead_code)]
struct RefCelled(RefCell<String>);
/// may be shared but not move
#[allow(dead_code)]
struct Pinned(PhantomData<MutexGuard<'static, ()>>);
#[allow(dead_code)]
struct Raw(*mut u8);
macro_rules! types { ($($t:ty)*) => { $(impl Type for $t {})* } }
types!(Shared Locked Atomic Counted Celled RefCelled Pinned Raw);

macro_rules! probe {
    ($c:ident, $want:expr, $($t:ty)*) => { $(
        $c.case("threads may share", || stringify!($t).to_string(), |c: &mut Ctx| {
            c.ticks(2);
            c.state(&stringify!($t));
            let got = (<P<$t>>::SEND, <P<$t>>::SYNC);
            c.outcome(&got);
            if got != ($want, $want) {
                return Err(format!("Send: {}, Sync: {}; both must be {}", got.0, got.1, $want));
            }
            Ok(())
        });
    )* };
}

fn main() {
    run("C03", |c| {
        probe!(c, true, Tensor<f32> Tensor<i32> Tensor<u8> Tensor<String> Tensor<bool> Tensor<f64> Tensor<Shared> Tensor<Locked> Tensor<Atomic> Shape Axis Vec<Tensor<f32>>);
        probe!(c, false, Tensor<Counted> Tensor<Celled> Tensor<RefCelled> Tensor<Pinned> Tensor<Raw>);
    });
}

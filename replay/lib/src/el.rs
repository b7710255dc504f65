//! Element types whose life is recorded.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Reg {
    /// serial number -> alive
    pub live: Vec<bool>,
    pub zst_made: i64,
    pub zst_dropped: i64,
    pub errors: Vec<(char, String)>,
}
thread_local! {
    pub static REG: RefCell<Reg> = RefCell::new(Reg::default());
}
pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
}
pub fn error(c: char, s: String) {
    REG.with(|r| r.borrow_mut().errors.push((c, s)));
}

pub trait El: Ord + Hash + fmt::Debug + 'static {
    const NAME: &'static str;
    /// ordering and equality are decided by `key`, identity is `id`
    fn make(id: u64, key: u64) -> Self;
    fn id(&self) -> u64;
    fn key(&self) -> u64;
}

const ALIVE: u64 = 0x5af3_91c7_2b04_e6d8;
const DEAD: u64 = 0x0dea_d0de_ad0d_ead0;

/// every creation and drop is recorded; size 40
pub struct Big {
    canary: u64,
    serial: u64,
    id: u64,
    key: u64,
    check: u64,
}
impl Big {
    fn sane(&self, what: &str) -> bool {
        if self.canary == ALIVE && self.check == self.serial ^ ALIVE {
            return true;
        }
        if self.canary == DEAD {
            error('S', format!("{what} of an element that was already dropped"));
        } else {
            error('S', format!("{what} of memory that holds no element"));
        }
        false
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        if !self.sane("drop") {
            return;
        }
        let s = self.serial as usize;
        let ok = REG.with(|r| std::mem::replace(&mut r.borrow_mut().live[s], false));
        if !ok {
            error('O', format!("element #{} dropped twice", self.id));
        }
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD) };
    }
}
impl El for Big {
    const NAME: &'static str = "Tracked";
    fn make(id: u64, key: u64) -> Self {
        let serial = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.live.push(true);
            r.live.len() as u64 - 1
        });
        Big { canary: ALIVE, serial, id, key, check: serial ^ ALIVE }
    }
    fn id(&self) -> u64 {
        if self.sane("read") { self.id } else { u64::MAX }
    }
    fn key(&self) -> u64 {
        if self.sane("read") { self.key } else { 0 }
    }
}

/// no drop glue, one byte of identity
pub struct Plain(u8, u8);
impl El for Plain {
    const NAME: &'static str = "Plain";
    fn make(id: u64, key: u64) -> Self {
        Plain(id as u8, key as u8)
    }
    fn id(&self) -> u64 {
        self.0 as u64
    }
    fn key(&self) -> u64 {
        self.1 as u64
    }
}

/// zero-sized; only the number of drops is recorded
pub struct Zst(());
impl Drop for Zst {
    fn drop(&mut self) {
        REG.with(|r| r.borrow_mut().zst_dropped += 1);
    }
}
impl El for Zst {
    const NAME: &'static str = "Zst";
    fn make(_: u64, _: u64) -> Self {
        REG.with(|r| r.borrow_mut().zst_made += 1);
        Zst(())
    }
    fn id(&self) -> u64 {
        0
    }
    fn key(&self) -> u64 {
        0
    }
}

macro_rules! common {
    ($($t:ty),*) => {$(
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.key() == o.key() } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.key().cmp(&o.key()) } }
        impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { self.key().hash(h) } }
        impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "#{}", self.id()) } }
    )*};
}
common!(Big, Plain, Zst);

/// what is left behind after everything the caller got was dropped
pub fn leftovers() -> Vec<(char, String)> {
    REG.with(|r| {
        let r = r.borrow();
        let mut v = r.errors.clone();
        let n = r.live.iter().filter(|x| **x).count();
        if n > 0 {
            v.push(('O', format!("{n} element(s) never dropped (leaked)")));
        }
        if r.zst_made > r.zst_dropped {
            v.push(('O', format!("{} zero-sized element(s) never dropped (leaked)", r.zst_made - r.zst_dropped)));
        }
        if r.zst_made < r.zst_dropped {
            v.push(('O', format!("{} zero-sized element(s) dropped more than once", r.zst_dropped - r.zst_made)));
        }
        v
    })
}

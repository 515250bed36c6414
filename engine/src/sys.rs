//! Operating-system interface. Library harnesses need next to nothing of it; the model of the
//! file system serves the harness that runs the real `main`.
use crate::code::*;
use crate::exec::*;

pub const NAMES: &[&str] = &["write", "writev", "__errno_location", "syscall", "getrandom", "pthread_setspecific", "pthread_key_create", "pthread_getspecific"];

impl Exec {
    pub fn errno_addr(&mut self) -> u64 {
        // a fixed 8-byte object created at start-up
        mkaddr(2)
    }
    pub fn sys_call(&mut self, i: usize, args: &[V]) -> R<V> {
        match NAMES[i] {
            "write" => {
                let n = self.conc_v(&args[2])?;
                Ok(V::C(n))
            }
            "writev" => Err(Stop::Engine("writev".into())),
            "__errno_location" => Ok(V::C(self.errno_addr())),
            "getrandom" => {
                let p = self.conc_v(&args[0])?;
                let n = self.conc_v(&args[1])?;
                self.memset(p, &V::C(7), n)?;
                Ok(V::C(n))
            }
            _ => Err(Stop::Engine(format!("unmodelled libc function {}", NAMES[i]))),
        }
    }
}

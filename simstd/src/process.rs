//! No process is ever started: commands are recorded.
use crate::rt;
use ::std::ffi::{OsStr, OsString};
use ::std::io;
use ::std::os::unix::process::ExitStatusExt;
use ::std::path::Path;
pub use ::std::process::*;

#[derive(Debug)]
pub struct Command {
    prog: OsString,
    args: Vec<OsString>,
}

#[derive(Debug)]
pub struct Child {
    _p: (),
}

impl Child {
    pub fn wait(&mut self) -> io::Result<ExitStatus> {
        rt::seam("wait");
        Ok(ExitStatus::from_raw(0))
    }
    pub fn id(&self) -> u32 {
        4242
    }
}

impl Command {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Self {
        Command {
            prog: s.as_ref().to_owned(),
            args: Vec::new(),
        }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, s: S) -> &mut Self {
        self.args.push(s.as_ref().to_owned());
        self
    }
    pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, i: I) -> &mut Self {
        for s in i {
            self.arg(s);
        }
        self
    }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, _: K, _: V) -> &mut Self {
        self
    }
    pub fn current_dir<P: AsRef<Path>>(&mut self, _: P) -> &mut Self {
        self
    }
    pub fn stdin<T: Into<Stdio>>(&mut self, _: T) -> &mut Self {
        self
    }
    pub fn stdout<T: Into<Stdio>>(&mut self, _: T) -> &mut Self {
        self
    }
    pub fn stderr<T: Into<Stdio>>(&mut self, _: T) -> &mut Self {
        self
    }
    fn go(&mut self) -> io::Result<()> {
        rt::seam("command");
        rt::with(|i| {
            let n = i.env_fault_num;
            if n > 0 && i.ctx.chance(n, 8) {
                i.fault("process-start-error");
                return Err(io::Error::from_raw_os_error(11));
            }
            let s = format!("{:?} {:?}", self.prog, self.args);
            i.ctx.event("command");
            i.commands.push(s);
            Ok(())
        })
    }
    pub fn spawn(&mut self) -> io::Result<Child> {
        self.go()?;
        Ok(Child { _p: () })
    }
    pub fn output(&mut self) -> io::Result<Output> {
        self.go()?;
        Ok(Output {
            status: ExitStatus::from_raw(0),
            stdout: Vec::new(),
            stderr: Vec::new(),
        })
    }
    pub fn status(&mut self) -> io::Result<ExitStatus> {
        self.go()?;
        Ok(ExitStatus::from_raw(0))
    }
}

use simcore::Violation;
use simstd::rt::{Dead, Inner};

/// What no simulated process may do, whatever the faults.
pub fn end_checks(i: &Inner, what: &str) -> Result<(), Violation> {
    if let Some(v) = &i.violation {
        return Err(v.clone());
    }
    if let Some(p) = i.panics.first() {
        if p.file.is_empty() {
            return Err(Violation::new(format!("panic:{what}"), p.msg.clone()));
        }
        return Err(simcore::driver::panic_record(what, &p.thread, &p.file, p.line, &p.msg));
    }
    if let Some(e) = i.escapes.first() {
        return Err(Violation::new(
            format!("escape:{}", e.op),
            format!("{} of {} outside of the scratch directory", e.op, e.path.display()),
        ));
    }
    match &i.dead {
        Some(Dead::Deadlock(d)) => Err(Violation::new("deadlock", d.clone())),
        Some(Dead::StepLimit) => Err(Violation::new("no-progress", "step limit reached".to_string())),
        _ => Ok(()),
    }
}

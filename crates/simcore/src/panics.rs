//! Panics of the code under test are caught and become data.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
    static LOUD: RefCell<bool> = const { RefCell::new(false) };
}

/// Installs the hook that records panics silently in the panicking thread.
pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("SIM_LOUD").is_some() {
            eprintln!("[panic] {msg} @ {loc}");
        }
        let _ = LAST.try_with(|l| *l.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}

/// Takes the message of the last panic in this thread.
pub fn take() -> Option<String> {
    LAST.with(|l| l.borrow_mut().take())
}

/// Runs a closure, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    take();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(take().unwrap_or_else(|| "panic".into())),
    }
}

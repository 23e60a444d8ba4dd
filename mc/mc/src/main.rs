//! Binds the explorer to the real broker.

/// Formats what is logged, for what formatting it does.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        if mccore::explore::capturing() {
            let text = format!("{} {}", r.target(), r.args());
            mccore::explore::keep_log(&text);
            return;
        }
        struct Nowhere;
        impl Write for Nowhere {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = write!(Nowhere, "{}", r.args());
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

#[global_allocator]
static HEAP: tokio::mc::heap::Counting = tokio::mc::heap::Counting;

/// In place of libc's: ends the simulated process when the broker's code calls it.
#[no_mangle]
pub extern "C-unwind" fn exit(code: i32) -> ! {
    if mccore::iso::in_own_process() {
        tokio::mc::exit_task(code);
    }
    unsafe {
        let real: extern "C" fn(i32) -> ! = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"exit".as_ptr()));
        real(code)
    }
}

fn main() {
    let _ = log::set_logger(&SINK);
    let _ = mccore::explore::LOGGING.set(|on| log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Error }));
    let _ = mccore::sys::BOOT.set(|config| Box::pin(async move { ratelmq::run(&config).await }));
    mccore::report::main(mccore::props::all())
}

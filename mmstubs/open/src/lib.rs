pub fn that<T: AsRef<std::ffi::OsStr>>(p: T) -> std::io::Result<()> {
    simstd::process::Command::new("open").arg(p).spawn().map(|_| ())
}

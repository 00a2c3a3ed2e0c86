//! Small pattern kinds by name (only with the hooks).
#[cfg(verif_hooks)]
pub use with_hooks::*;
#[cfg(not(verif_hooks))]
pub use without_hooks::*;

#[cfg(verif_hooks)]
mod with_hooks {
    use barbarosa::cube3::mus::cache::verif::*;
    use mc::tiny::*;
    pub const KINDS: [&str; 4] = ["edges1", "corners1", "edges2", "corners3"];
    pub fn run(kind: &str, op: &str) -> Option<std::io::Result<Vec<u8>>> {
        fn go<T: Tiny>(op: &str) -> Option<std::io::Result<Vec<u8>>> {
            Some(match op {
                "load" => load_partial::<T>(),
                "start" => load_or_build_partial::<T>(),
                _ => return None,
            })
        }
        match kind {
            "edges1" => go::<Edges1>(op),
            "corners1" => go::<Corners1>(op),
            "edges2" => go::<Edges2>(op),
            "corners3" => go::<Corners3>(op),
            _ => None,
        }
    }
    pub fn table(kind: &str) -> (Vec<u8>, &'static str) {
        match kind {
            "edges1" => (Edges1::exact(), Edges1::PATH),
            "corners1" => (Corners1::exact(), Corners1::PATH),
            "edges2" => (Edges2::exact(), Edges2::PATH),
            _ => (Corners3::exact(), Corners3::PATH),
        }
    }
}

#[cfg(not(verif_hooks))]
mod without_hooks {
    pub const KINDS: [&str; 0] = [];
    pub fn run(_: &str, _: &str) -> Option<std::io::Result<Vec<u8>>> {
        None
    }
    pub fn table(_: &str) -> (Vec<u8>, &'static str) {
        unreachable!()
    }
}

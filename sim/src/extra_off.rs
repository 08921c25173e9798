//! Stands in for extra.rs in the program that checks the other properties.

pub mod typed {
    use simcore::api::{CacheCfg, DynMap};
    use simcore::case::{Case, Op};
    use simcore::flash::CoreRef;
    use simcore::runner::{RunStats, Violation};

    pub type Type = (&'static str, u8, u32, u32, u32);
    const OFF: &str = "this program is built without the typed drivers, use simx";

    pub fn types(_: &Case) -> &'static [Type] {
        panic!("{OFF}")
    }
    pub fn values(_: &Case) -> u8 {
        panic!("{OFF}")
    }
    pub fn opener(_: &Case) -> fn(&CoreRef, CacheCfg) -> Box<dyn DynMap> {
        panic!("{OFF}")
    }
    pub fn norm(_: &Case, _: u8, _: &[u8]) -> Vec<u8> {
        panic!("{OFF}")
    }
    pub fn encoded_len(_: &Case, _: u8, _: &[u8]) -> usize {
        panic!("{OFF}")
    }
    pub fn recode(_: &Case, _: u8, _: u8, _: &[u8]) -> Result<Vec<u8>, String> {
        panic!("{OFF}")
    }
    pub fn same_codec(_: &Op, _: usize, _: &mut RunStats) -> Result<(), Violation> {
        panic!("{OFF}")
    }
    pub fn cut_keys(_: &Case, _: u8, _: usize) -> Result<(), Violation> {
        panic!("{OFF}")
    }
    pub fn key_lens(_: &Case) -> &'static [usize] {
        panic!("{OFF}")
    }
}

pub mod old {
    use simcore::api::{CacheCfg, DynMap, DynQueue};
    use simcore::flash::CoreRef;

    const OFF: &str = "this program is built without the pinned release, use simx";

    pub fn open_map(_: &CoreRef, _: CacheCfg) -> Box<dyn DynMap> {
        panic!("{OFF}")
    }
    pub fn open_queue(_: &CoreRef, _: CacheCfg) -> Box<dyn DynQueue> {
        panic!("{OFF}")
    }
}

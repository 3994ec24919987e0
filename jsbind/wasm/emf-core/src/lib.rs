//! Stand-in for the converter of metafiles, which is not part of the repository.
pub mod converter {
    #[derive(Default)]
    pub struct SVGPlayer;
    impl SVGPlayer {
        pub fn new() -> Self {
            SVGPlayer
        }
    }
    pub struct EMFConverter;
    impl EMFConverter {
        pub fn new<A, B>(_: &[u8], _: A, _: B) -> Self {
            EMFConverter
        }
        pub fn run(self) -> Result<Vec<u8>, String> {
            Err("no converter".into())
        }
    }
}

//! Stand-in for the converter of metafiles, which is not part of the repository.
pub mod converter {
    #[derive(Default)]
    pub struct SVGPlayer;
    impl SVGPlayer {
        pub fn new() -> Self {
            SVGPlayer
        }
    }
}

//! Stand-in for Expander's `gkr`: the named proof configurations.
use std::marker::PhantomData;
macro_rules! cfgs {
    ($($n:ident => $f:ident),*) => {$(
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n<'a>(PhantomData<&'a ()>);
        impl<'a> gkr_engine::GKREngine for $n<'a> { type FieldConfig = gkr_engine::$f; }
    )*};
}
cfgs!(BN254ConfigMIMC5Raw => BN254Config, BN254ConfigSha2Hyrax => BN254Config,
      BabyBearx16ConfigSha2Raw => BabyBearx16Config,
      GF2ExtConfigSha2Raw => GF2ExtConfig, Goldilocksx8ConfigSha2Raw => Goldilocksx8Config,
      M31x16ConfigSha2OrionVanilla => M31x16Config, M31x16ConfigSha2RawVanilla => M31x16Config);

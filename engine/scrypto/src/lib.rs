#![allow(dead_code)]
#![feature(step_trait)]
pub mod term;
pub mod solver;
pub mod explore;
pub mod num;
pub mod coll;
#[macro_use]
pub mod sbor;
pub mod ledger;
pub use num::{cast, choose, rng, rng_incl, Int};

pub fn reset_world() { ledger::reset_ledger(); sbor::reset_handles(); }

#[macro_export] macro_rules! roles { ($($n:ident => $r:expr $(, $u:ident)?;)*) => { vec![$((stringify!($n), $crate::ledger::RoleVal::from($r))),*] } }
#[macro_export] macro_rules! mint_roles { ($($t:tt)*) => { $crate::roles!{$($t)*} } }
#[macro_export] macro_rules! burn_roles { ($($t:tt)*) => { $crate::roles!{$($t)*} } }
#[macro_export] macro_rules! deposit_roles { ($($t:tt)*) => { $crate::roles!{$($t)*} } }
#[macro_export] macro_rules! withdraw_roles { ($($t:tt)*) => { $crate::roles!{$($t)*} } }
#[macro_export] macro_rules! recall_roles { ($($t:tt)*) => { $crate::roles!{$($t)*} } }
#[macro_export] macro_rules! freeze_roles { ($($t:tt)*) => { $crate::roles!{$($t)*} } }
#[macro_export] macro_rules! non_fungible_data_update_roles { ($($t:tt)*) => { $crate::roles!{$($t)*} } }
#[macro_export] macro_rules! metadata { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! component_royalties { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! info { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export] macro_rules! error { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export] macro_rules! trace { ($($t:tt)*) => { { let _ = format!($($t)*); } } }

pub mod prelude {
    pub use radix_common::prelude::*;
    pub use radix_engine_interface::prelude::*;
    pub use num_traits::{cast::FromPrimitive, cast::ToPrimitive, identities::One, identities::Zero, pow::Pow, sign::Signed};
    pub use scrypto_derive::{blueprint, dec, ManifestSbor, NonFungibleData, ScryptoEvent, ScryptoSbor};
    pub use crate::coll::{hash_map_new, hash_set_new, index_map_new, index_set_new, HashMap, HashSet, IndexMap, IndexSet, NonIterMap};
    pub use crate::{burn_roles, component_royalties, debug, deposit_roles, error, freeze_roles, hashmap, hashset, indexmap, indexset, info, metadata, mint_roles,
        non_fungible_data_update_roles, recall_roles, roles, trace, warn, withdraw_roles};
    pub use crate::ledger::{Account, AnyComponent, Blueprint, BlueprintId, Bucket, CheckedFungibleProof, CheckedNonFungibleProof, CheckedProof, Clock, ComponentState, CryptoUtils,
        FungibleBucket, FungibleProof, FungibleResourceManager, FungibleVault, Global, GlobalAddressReservation, KeyValueEntryRef, KeyValueEntryRefMut, KeyValueStore, LocalAuthZone, Logger, NonFungible,
        NonFungibleBucket, NonFungibleData, NonFungibleProof, NonFungibleResourceManager, NonFungibleVault, Owned, Proof, ResourceBuilder, ResourceManager, Runtime, ScryptoEvent, Vault, OWNER};
    pub const DIVISIBILITY_NONE: u8 = 0;
    pub const DIVISIBILITY_MAXIMUM: u8 = 18;
    pub use crate::num::{Decimal, Instant, I192};
    pub use crate::sbor::{scrypto_decode, scrypto_encode, ScryptoSbor};
    pub use radix_engine_interface::prelude::UncheckedUrl as Url;
    pub use radix_engine_interface::prelude::UncheckedOrigin as Origin;
    #[allow(non_camel_case_types)] pub type u16 = crate::num::u16k;
    #[allow(non_camel_case_types)] pub type u32 = crate::num::u32k;
    #[allow(non_camel_case_types)] pub type u64 = crate::num::u64k;
    #[allow(non_camel_case_types)] pub type i16 = crate::num::i16k;
    #[allow(non_camel_case_types)] pub type i64 = crate::num::i64k;
    pub use crate as scrypto;
}

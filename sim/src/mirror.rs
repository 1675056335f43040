//! Mirrors of the data the deployed components expose. They are positional (SBOR), so they do not
//! depend on the field names or types of the code under test.
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(ScryptoSbor, ManifestSbor, Clone, Debug, PartialEq)]
pub struct ReferralData {
    pub name: String,
    pub description: String,
    pub key_image_url: UncheckedUrl,
    pub fee_referral: Decimal,
    pub fee_rebate: Decimal,
    pub referrals: u64,
    pub max_referrals: u64,
    pub balance: Decimal,
    pub total_rewarded: Decimal,
}
impl NonFungibleData for ReferralData {
    const MUTABLE_FIELDS: &'static [&'static str] = &["name", "description", "key_image_url", "fee_referral", "fee_rebate", "referrals", "max_referrals", "balance", "total_rewarded"];
}
#[derive(ScryptoSbor, ManifestSbor, Clone, Debug, PartialEq)]
pub struct RecoveryKeyData {
    pub name: String,
    pub description: String,
    pub key_image_url: UncheckedUrl,
}
impl NonFungibleData for RecoveryKeyData {
    const MUTABLE_FIELDS: &'static [&'static str] = &["name", "description", "key_image_url"];
}

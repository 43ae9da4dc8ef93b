// Address constants of the model world: every resource, package and component is distinct.
use std::{env, fs::File, io::Write, path::Path};
fn addr(first: u8, k: u8) -> String { let mut b = vec![first, k, 0xab]; b.resize(30, 0x11); b[29] = k; format!("{:?}", b) }
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut f = File::create(Path::new(&env::var("OUT_DIR").unwrap()).join("env_constants.rs")).unwrap();
    for (i, (n, first)) in [("_AUTHORITY_RESOURCE", 0x5d), ("_BASE_AUTHORITY_RESOURCE", 0x5d), ("_BASE_RESOURCE", 0x5d), ("_LP_RESOURCE", 0x5d), ("_REFERRAL_RESOURCE", 0x9a),
        ("_RECOVERY_KEY_RESOURCE", 0x9a), ("_PROTOCOL_RESOURCE", 0x5d), ("_KEEPER_REWARD_RESOURCE", 0x5d), ("_FEE_OATH_RESOURCE", 0x5d)].iter().enumerate() {
        writeln!(f, "pub const {}: ResourceAddress = ResourceAddress::new_or_panic({});", n, addr(*first as u8, i as u8 + 1)).unwrap();
    }
    for (i, n) in ["ORACLE_PACKAGE", "CONFIG_PACKAGE", "MARGIN_ACCOUNT_PACKAGE", "MARGIN_POOL_PACKAGE", "REFERRAL_GENERATOR_PACKAGE", "FEE_DISTRIBUTOR_PACKAGE", "FEE_DELEGATOR_PACKAGE",
        "PERMISSION_REGISTRY_PACKAGE"].iter().enumerate() {
        writeln!(f, "pub const {}: PackageAddress = PackageAddress::new_or_panic({});", n, addr(0x0d, i as u8 + 1)).unwrap();
    }
    for (i, n) in ["_ORACLE_COMPONENT", "_CONFIG_COMPONENT", "_POOL_COMPONENT", "_REFERRAL_GENERATOR_COMPONENT", "_FEE_DISTRIBUTOR_COMPONENT", "_FEE_DELEGATOR_COMPONENT",
        "_PERMISSION_REGISTRY_COMPONENT"].iter().enumerate() {
        writeln!(f, "pub const {}: ComponentAddress = ComponentAddress::new_or_panic({});", n, addr(0xc0, i as u8 + 1)).unwrap();
    }
}

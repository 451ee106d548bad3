ID = 's24-rust-ltree-address'
PROP = 'C03'
EDITS = [('src/rust_wrapper/xmss_alt/hash_address.rs', "pub fn set_ltree_adrs(adrs: &mut [u32; 8], ltree: u32) {\n    adrs[4] = ltree;", "pub fn set_ltree_adrs(adrs: &mut [u32; 8], ltree: u32) {\n    adrs[4] = u32::from(ltree as u16);")]
NEEDS = 'leaf 65536 or later'
BREAKS = 'the L-trees of leaves 65536 apart are hashed under the same address'
DEMO_RS = r'''
use rust_wrapper::xmss_alt::hash_address::*;
fn main() {
    let mut bad = 0;
    for v in [0u32, 1, 255, 256, 65535, 65536, 70000, 0x3fffffff, 0xffffffff] {
        let mut a = [1u32; 8];
        set_ltree_adrs(&mut a, v);
        if a != [1, 1, 1, 1, v, 1, 1, 1] { println!("l-tree {} gives {:?}", v, a); bad = 1; }
        let mut a = [1u32; 8];
        set_ots_adrs(&mut a, v);
        if a != [1, 1, 1, 1, v, 1, 1, 1] { println!("ots {} gives {:?}", v, a); bad = 1; }
    }
    std::process::exit(bad);
}
'''

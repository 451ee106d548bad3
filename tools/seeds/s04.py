ID = 's04-rust-descriptor-height'
PROP = 'C12'
EDITS = [('src/rust_wrapper/qrl/qrl_descriptor.rs', "((self.height >> 1) & 0x0F)", "((self.height >> 1) % 0x0F)")]
NEEDS = 'height 30 encoded by the Rust library'
BREAKS = 'the descriptor bytes name another tree height than the key'
DEMO_RS = r'''
use rust_wrapper::qrl::qrl_descriptor::{QRLDescriptor, SignatureType};
use rust_wrapper::qrl::qrl_address_format::AddrFormatType;
use rust_wrapper::xmss_alt::hash_functions::HashFunction;
fn main() {
    let mut bad = 0;
    for h in (2..31u8).step_by(2) {
        let d = QRLDescriptor::new(HashFunction::Shake128, SignatureType::XMSS, h, AddrFormatType::SHA256_2X);
        let e = QRLDescriptor::from_bytes(&d.get_bytes());
        match e {
            Ok(e) if e.get_height() == h => {}
            _ => { println!("height {} does not survive", h); bad = 1; }
        }
    }
    std::process::exit(bad);
}
'''

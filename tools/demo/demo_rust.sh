#!/bin/bash
# Compiles demo.rs with the dependency-free modules of the Rust library of the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
R=$(pwd)/src/rust_wrapper
{
cat <<X
pub mod rust_wrapper {
    #[path = "$R/errors.rs"] pub mod errors;
    pub mod qrl {
        #[path = "$R/qrl/qrl_address_format.rs"] pub mod qrl_address_format;
        #[path = "$R/qrl/qrl_descriptor.rs"] pub mod qrl_descriptor;
        #[path = "$R/qrl/wordlist.rs"] pub mod wordlist;
    }
    pub mod xmss_alt {
        #![allow(non_snake_case)]
        #[path = "$R/xmss_alt/fips202.rs"] pub mod fips202;
        #[path = "$R/xmss_alt/hash_address.rs"] pub mod hash_address;
        #[path = "$R/xmss_alt/hash_functions.rs"] pub mod hash_functions;
    }
}
X
cat "$D/demo.rs"
} > "$T/main.rs"
rustc --edition 2021 -A warnings -O "$T/main.rs" -o "$T/demo" || exit 2
timeout 250 "$T/demo"

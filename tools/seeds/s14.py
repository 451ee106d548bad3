ID = 's14-word-duplicated'
PROP = 'C14'
import re as _re
_t = open('/repo/src/rust_wrapper/qrl/wordlist.rs').read()
_w = _re.findall(r'"([a-z]+)"', _t)
EDITS = [('src/rust_wrapper/qrl/wordlist.rs', '"%s"' % _w[3001], '"%s"' % _w[3002])]
NEEDS = 'a seed whose mnemonic uses word 3001'
BREAKS = 'two values share a word: the mnemonic cannot be decoded back'
DEMO_RS = r'''
use rust_wrapper::qrl::wordlist::WORDLIST;
fn main() {
    let mut w: Vec<&str> = WORDLIST.iter().map(|x| &x[..]).collect();
    let n = w.len();
    w.sort();
    w.dedup();
    println!("{} words, {} different", n, w.len());
    std::process::exit(if n == 4096 && w.len() == 4096 { 0 } else { 1 });
}
'''

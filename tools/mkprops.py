import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
X='src/xmss-alt/'; Q='src/qrl/'; R='src/rust_wrapper/'
p('C01','SHAKE128/SHAKE256 conform to FIPS 202 (C++ and Rust)',
  'For every input of any length and every requested output length, shake128 and shake256 (in both the C++ and the Rust library) return exactly the FIPS 202 SHAKE output: rate 168 / 136 bytes, the 0x1F domain/padding rule, little-endian lanes, and the 24-round Keccak-f[1600] permutation applied once per absorbed block and once per squeezed block.',
  ['inputs'],'all message lengths and contents, all output lengths','The stable tests never compute a hash; the excluded tests sample a few lengths below one block, while padding, block-boundary and multi-block behaviour depends on length modulo the rate.',
  [X+'fips202.c',R+'xmss_alt/fips202.rs'],[('KeccakF1600_StatePermute',X+'fips202.c'),('keccak_absorb / keccak_squeezeblocks',X+'fips202.c'),('keccak_f1600_state_permute',R+'xmss_alt/fips202.rs')])
p('C02','Keyed XMSS hash functions are domain separated exactly as specified',
  'For every input, F, H, H_msg and PRF equal HASH(toByte(type,32) || KEY || M) of the selected hash function with type 0, 1, 2 and 3 respectively, nothing else mixed in or left out; F and H mask their input with PRF(PUB_SEED, ADRS) bitmasks taken at key-and-mask 0 (key), 1 and 2 (masks), and H_msg accepts only a 3n-byte key.',
  ['inputs','configurations'],'all keys, messages, addresses, hash functions SHA2_256/SHAKE_128/SHAKE_256','No stable test evaluates any of these functions; a swapped domain constant leaves sign/verify self-consistent, so round-trip tests cannot see it.',
  [X+'hash.c',X+'xmss_common.c'],[('core_hash, prf, h_msg, hash_h, hash_f',X+'hash.c'),('to_byte',X+'xmss_common.c')])
p('C03','Hash addresses put every field in its own word, big-endian',
  'Each address setter changes exactly the field it names (layer; tree as a 64-bit big-endian pair; type, which also clears the four type-specific words; key-and-mask; OTS; chain; hash; L-tree; tree height; tree index) at its RFC 8391 position and leaves every other word unchanged, and serialisation is the eight words big-endian in order; C++ and Rust agree.',
  ['inputs'],'all address contents and field values','No test inspects an address; two functions that agree on a wrong field still verify each other.',
  [X+'hash_address.c',X+'hash.c',R+'xmss_alt/hash_address.rs'],[('set*ADRS / setType / setKeyAndMask',X+'hash_address.c'),('addr_to_byte',X+'hash.c')])
p('C04','WOTS+ key generation, signing and public-key recovery agree for every digest',
  'For every 32-byte digest, seed, public seed and address, WOTS+ signing releases on chain i the value after d_i steps and recovery advances chain i exactly the remaining w-1-d_i steps from hash address d_i, so that recovery from a signature yields the generated public key; the digits d_i are the big-endian base-w digits of the digest followed by the len_2 digits of the checksum sum(w-1-d_i) left-aligned as in RFC 8391, and secret chain heads are PRF(seed, toByte(i,32)).',
  ['inputs','configurations'],'all digests and keys, for each supported Winternitz parameter w in {2,4,16,256}','Round-trip tests exercise one or two digests; a missing checksum digit or an off-by-one in a step count shows up only for particular digit values, and a forged digest with larger digits is never tried.',
  [X+'wots.c'],[('base_w, gen_chain, wots_pkgen, wots_sign, wots_pkFromSig, expand_seed, wots_set_params',X+'wots.c')])
p('C05','Leaf compression, authentication path and root recomputation follow RFC 8391',
  'For every leaf index and authentication path, a leaf is the L-tree of its WOTS+ public key (nodes paired left to right, odd node lifted, height and index in the address), a root candidate combines leaf and path node at level i in the order given by bit i of the index with tree height i and tree index idx>>(i+1), and key generation computes the root of the complete tree over leaves 0..2^h-1 with the same node addresses.',
  ['inputs','configurations'],'all leaf indexes, paths, and even heights','Tests verify the first few signatures of small trees only; wrong node indexes or side selection at higher levels need specific index bit patterns.',
  [X+'xmss_common.c',X+'algsxmss.c',X+'algsxmss_fast.c'],[('l_tree, validate_authpath',X+'xmss_common.c'),('treehash, compute_authpath_wots',X+'algsxmss.c'),('treehash_setup',X+'algsxmss_fast.c')])
p('C06','Accepted only if the full recomputed root equals the public key root',
  'Verification of the core signature returns success if and only if all 32 bytes of the root recomputed from the index, randomiser, WOTS+ signature and authentication path bytes at their fixed offsets, over H_msg keyed with R || root || index, equal the root in the public key; the message, signature and public key buffers are otherwise only read.',
  ['inputs'],'all signatures, messages, public keys, heights','A test flips a handful of bits; a comparison that skips one byte, or an input byte that is never bound into the digest, accepts a forgery only for specially chosen inputs.',
  [X+'xmss_common.c'],[('xmss_Verifysig',X+'xmss_common.c')])
p('C07','Signature layout is index, randomiser, WOTS+ signature, authentication path',
  'Every signature produced by either signer is the 4-byte big-endian index held before the call, then R = PRF(SK_PRF, toByte(index,32)), then the WOTS+ signature of H_msg(R || root || toByte(index,32), M) with the one-time key seeded from SK_SEED at that index, then the authentication path; the two signers (simple and BDS) agree on every byte of that construction.',
  ['inputs','histories'],'all messages, keys and indexes','Verification round trips at a few indexes do not distinguish a randomiser taken from the wrong secret or an index truncated above 2^16.',
  [X+'algsxmss.c',X+'algsxmss_fast.c'],[('xmss_Signmsg',X+'algsxmss.c'),('xmssfast_Signmsg',X+'algsxmss_fast.c')])
p('C08','Signing consumes exactly one index and never signs beyond the last',
  'Every signing call that returns a signature leaves the stored index exactly one higher (as a 32-bit big-endian value) than the index it signed with, modifies no other byte of the secret key, and a key whose index has reached the number of leaves 2^h refuses to sign instead of producing a signature.',
  ['histories','inputs'],'all indexes, heights and call histories, both signer classes','Tests sign a few times from index 0; carry between index bytes and the exhausted state are reached only after 256 or 2^h signatures.',
  [X+'algsxmss.c',X+'algsxmss_fast.c',Q+'xmssFast.cpp',Q+'xmssBasic.cpp'],[('xmss_Signmsg / xmssfast_Signmsg index update',X+'algsxmss.c, algsxmss_fast.c'),('XmssFast::sign, XmssBasic::sign',Q)],[('sk[0..3]','next one-time key index',Q+'xmssBase.h')])
p('C09','The index of a BDS signing key can only move forward and stays inside the tree',
  'Moving a signing key to a new index fails with an exception, before any byte of the key or traversal state changes, when the target is below the current index or at or beyond 2^h; otherwise exactly the steps current..new-1 are traversed once each in order, and the stored index becomes the target and nothing else in the secret key changes.',
  ['histories','inputs'],'all current/target index pairs and heights','Tests try one rewind and one overflow value; partial state changes before the refusal and boundary values need specific pairs.',
  [X+'algsxmss_fast.c',Q+'xmssFast.cpp'],[('xmssfast_update',X+'algsxmss_fast.c'),('XmssFast::setIndex',Q+'xmssFast.cpp')],[('sk[0..3]','next one-time key index',Q+'xmssBase.h')])
p('C10','Malformed verification input is refused, never accepted, and never throws',
  'The public verify function returns false, without reading outside its arguments, for every extended public key that is not 67 bytes, signature whose size does not correspond to the height in the key descriptor, unknown signature type, zero or unsupported height; it returns true only when the core verification succeeded on exactly those buffers, and no exception derived from argument checks reaches the caller.',
  ['inputs'],'all message, signature, public-key byte strings','Tests feed a few wrong sizes; the gate must hold for every size and descriptor byte.',
  [Q+'xmssBase.cpp',Q+'qrlDescriptor.h'],[('XmssBase::verify, getHeightFromSigSize',Q+'xmssBase.cpp'),('QRLDescriptor::fromExtendedPK',Q+'qrlDescriptor.h')])
p('C11','Secret and public key layouts agree between writer and every reader',
  'Key generation writes index 0, SK_SEED, SK_PRF, PUB_SEED (the 96-byte SHAKE256 expansion of the 48-byte seed, in that order) and the root at fixed offsets of a 132-byte secret key and root || PUB_SEED to the public key; every accessor (root, public seed, secret seed, PRF key, index, public key, extended seed) returns exactly the corresponding bytes.',
  ['inputs','configurations'],'all seeds and supported parameter sets','Tests compare a few known keys in builds that do not exist here; an accessor reading a neighbouring field is invisible to round-trip tests.',
  [X+'algsxmss.c',X+'algsxmss_fast.c',Q+'xmssBase.cpp',Q+'xmssFast.cpp'],[('xmss_Genkeypair, xmssfast_Genkeypair',X),('XmssBase getters',Q+'xmssBase.cpp')])
p('C12','Descriptor bytes and fields are a lossless, strictly checked codec',
  'Encoding a descriptor and decoding it gives back the same hash function, signature type, even height up to 30 and address format; decoding rejects any byte string that is not exactly 3 bytes and any unknown hash function or signature type instead of producing a descriptor; the decoded signature type is the high nibble of byte 0, so a descriptor naming an unknown scheme is never taken for XMSS. C++ and Rust agree on the fields of every byte string both decode.',
  ['inputs'],'all byte strings and all descriptor field values','The stable tests decode one byte string and encode two descriptors; none has a non-zero high nibble or an unknown hash function.',
  [Q+'qrlDescriptor.h',R+'qrl/qrl_descriptor.rs'],[('QRLDescriptor::fromBytes/getBytes/fromExtendedPK/fromExtendedSeed',Q+'qrlDescriptor.h'),('QRLDescriptor',R+'qrl/qrl_descriptor.rs')])
p('C13','Extended public key, extended seed and address are composed as documented',
  'The extended public key is descriptor || root || public seed (67 bytes), the extended seed descriptor || seed (51 bytes), and the address descriptor || SHA256(extended public key) || last 4 bytes of SHA256(descriptor || first hash); an address is reported valid only if it is 39 bytes, its format nibble is the supported one, and all four checksum bytes match.',
  ['inputs'],'all public keys and address byte strings','Tests corrupt one or two address bytes; a checksum byte that is not compared is found only by corrupting exactly that byte.',
  [Q+'qrlHelper.h',Q+'xmssBase.cpp'],[('QRLHelper::getAddress/addressIsValid',Q+'qrlHelper.h'),('XmssBase::getPK/getExtendedSeed',Q+'xmssBase.cpp')])
p('C14','The mnemonic word list is a bijection on 12-bit values, same in C++ and Rust',
  'The word list has exactly 4096 entries, all distinct, non-empty, lower-case letters without white space, and the C++ and Rust lists are identical entry by entry and equal to the published list, so that no two seeds share a mnemonic and a mnemonic written by one library is read by the other.',
  ['inputs'],'all 4096 entries of both lists','Tests touch a few dozen words; a duplicated or altered entry corrupts only seeds containing that 12-bit value.',
  [Q+'wordlist.cpp',R+'qrl/wordlist.rs'],[('wordlist',Q+'wordlist.cpp'),('WORD_LIST',R+'qrl/wordlist.rs')])
p('C15','Mnemonic and hex encodings round-trip and reject malformed text',
  'Decoding the mnemonic (respectively hex string) of any encodable byte string returns that byte string; an odd number of words, an unknown word, an odd number of hex digits or a non-hex character is rejected with an invalid-argument error rather than decoded. Hex text printed with a wrap width has a line break after every that many bytes and nowhere else.',
  ['inputs'],'all byte strings and texts','Tests encode a few seeds; nibble order and boundary digits depend on the value.',
  [Q+'misc.cpp',R+'qrl/misc.rs'],[('bin2mnemonic, mnemonic2bin, bin2hstr, hstr2bin',Q+'misc.cpp')])
p('C16','Random seeds come only from the operating system generator, fail closed',
  'Every byte of a generated random seed depends on bytes read from the operating-system (or Web Crypto) generator in full; if the source cannot be opened or delivers fewer bytes than requested an error is raised and no seed is returned, and no code in the library uses a predictable generator (rand, time, mt19937, Math.random).',
  ['fault_sequences','inputs'],'all failure points of the entropy source','No test makes the source fail; a predictable fallback is invisible to tests.',
  [Q+'misc.cpp','src/jswrapper/getRandomSeed.js',R+'qrl/misc.rs'],[('getRandomSeed',Q+'misc.cpp'),('getRandomSeed','src/jswrapper/getRandomSeed.js')])
p('C17','The tree pool issues every index exactly once under any interleaving',
  'Under every interleaving of callers each call to obtain the next tree receives a different index, consecutive from the starting index; availability is reported exactly when the tree the next call returns is already computed; all shared pool state is accessed only while the pool lock is held, key generation and waiting for it never happen with the lock held, the trees in the cache are computed in the background, not by the call that asks for them, and background work uses only state that is immutable and outlives it.',
  ['schedules'],'all interleavings of any number of callers','Races and lifetime errors need particular schedules; pool tests are single-threaded and not even built here.',
  [Q+'xmssPool.cpp',Q+'xmssPool.h'],[('_mutex / lock_guard',Q+'xmssPool.cpp'),('member order of _cache and the fields its tasks use',Q+'xmssPool.h')],[('_current_index, _cache','next index to issue, futures in order',Q+'xmssPool.h')])
p('C18','Pool trees are derived from base seed and index injectively',
  'The tree issued for index i uses the 48-byte SHAKE256 of base seed || little-endian minimal bytes of i+1 as its seed and the pool height, independent of order of calls, pool size and cache state.',
  ['inputs','schedules'],'all base seeds, indexes, pool sizes','Tests pin two public keys; indexes above 255 (second byte) are never reached.',
  [Q+'xmssPool.cpp'],[('XmssPool::prepareTree, getNextTree, fillCache',Q+'xmssPool.cpp')])
p('C19','The library keeps no mutable global state',
  'No function of the library keeps mutable state outside the objects passed to it: there are no writable global or function-local static variables, so independent objects can be used from different threads without synchronisation.',
  ['schedules','histories'],'all interleavings of uses of distinct objects','A hidden static buffer only shows under concurrent use.',
  ['src'],[('absence of writable statics','src/**')])
p('C20','BDS traversal always stores the node the next signatures need',
  'After key generation and after every step of the traversal to index i, the stored authentication path is, level by level, the sibling nodes of leaf i in the tree whose root is in the public key, for every supported height and without reading or writing outside the traversal buffers.',
  ['histories','configurations'],'all indexes 0..2^h-1 of a key, and all supported heights','Tests sign a few leaves of height 4..10 trees; each level is refreshed only at particular indexes, and the treehash schedule interacts across levels.',
  [X+'algsxmss_fast.c',Q+'xmssFast.cpp'],[('treehash_setup, bds_round, bds_treehash_update, treehash_update',X+'algsxmss_fast.c')],[('bds_state','stack, auth, keep, treehash, retain',X+'algsxmss_fast.h')])
p('C21','Stack memory use does not depend on caller-sized input',
  'The stack memory a call into the library needs is bounded independently of the length of any message, byte buffer or text the caller supplies, and does not multiply with the height of the tree: no stack allocation and no recursion depth is sized by a caller-supplied length, and no function calls itself again on every path.',
  ['inputs'],'all message, buffer and text lengths, all supported heights','Tests sign messages of a few dozen bytes with trees of height 4 to 10; the stack overflows only for megabyte messages or tall trees.',
  [X+'hash.c',X+'algsxmss.c',X+'fips202.c',Q+'misc.cpp'],[('core_hash buffer',X+'hash.c'),('treehash, compute_authpath_wots node arrays',X+'algsxmss.c'),('text and hash helpers taking byte vectors',Q+'misc.cpp')])
p('C22','Fixed-size foreign buffers are length-checked before use',
  'Every wrapper that hands a caller-supplied byte vector to a routine expecting a fixed or minimum number of bytes (Dilithium key pairs, public keys and signed messages; Kyber key pairs, public keys and ciphertexts) rejects a vector of any other size, or a signed message shorter than one signature, before the call, by an exception or a false result.',
  ['inputs'],'all vector sizes','Out-of-range reads need malformed sizes the tests do not supply and need no visible failure.',
  ['src/dilithium/dilithium.cpp','src/kyber/kyber.cpp','src/jswrapper/jsdilwrapper.cpp','src/jswrapper/jskybwrapper.cpp'],[('size guards','src/dilithium, src/kyber')])
p('C23','A verification outcome is never dropped',
  'The result of every verification, decapsulation or key-validity routine decides what the caller gets: when the underlying routine reports failure, no wrapper, in C++ or the JavaScript binding, reports success or hands out the message or shared secret of the failed operation, and when it reports success the wrapper passes on exactly what the routine produced.',
  ['inputs'],'all call sites and all outcomes of the underlying routine','Success-path tests pass with the outcome ignored.',
  ['src/jswrapper','src/dilithium/dilithium.cpp','src/kyber/kyber.cpp'],[('return values','src/**')])
p('C28','Signed messages are split where the signer joined them',
  'For every Dilithium signed message, the extracted signature is exactly its first CRYPTO_BYTES bytes and the extracted message exactly the remaining bytes, so that signature and message put together again give the signed message, in C++ and in the JavaScript binding (whose strings are the hexadecimal form of those bytes).',
  ['inputs'],'all signed messages of at least one signature length','Tests extract from one signed message; a split off by one or iterators into two different buffers need no visible failure.',
  ['src/dilithium/dilithium.cpp','src/jswrapper/jsdilwrapper.cpp'],[('extract_message, extract_signature','src/dilithium/dilithium.cpp')])
p('C24','A signing key cannot be duplicated by copying the object',
  'The signing classes cannot be copied or copy-assigned, so one index counter and one traversal state exist per key and no two objects can issue the same one-time key; an attempt to copy does not compile.',
  ['programs','histories'],'all client programs','A copy compiles and works until both copies sign.',
  [Q+'xmssBase.h',Q+'xmssFast.h',Q+'xmssBasic.h'],[('deleted copy operations',Q)])
p('C25','Unsupported parameters are refused before any key material is produced',
  'Constructing a signing key with a seed that is not 48 bytes, an extended seed that is not 51 bytes, a height that is odd, not above 2, or not representable in the key descriptor, an unknown hash function or a Winternitz parameter outside the supported set throws invalid_argument and produces no key.',
  ['configurations','inputs'],'all parameter combinations','Tests try one bad height.',
  [Q+'xmssBase.cpp',Q+'xmssFast.cpp',Q+'xmssBasic.cpp',X+'xmss_common.c'],[('constructor guards',Q)])
p('C26','Secret key material leaves the signer only through the hash functions',
  'No byte of the secret seed or the PRF key flows into a signature, public key, output stream or log except through a one-way hash evaluation, and one-time secret chain heads leave only as the signature elements of the digest being signed.',
  ['inputs','histories'],'all keys and messages','A leaking byte does not change whether signatures verify.',
  [X+'algsxmss.c',X+'algsxmss_fast.c',X+'wots.c'],[('prf / expand_seed / get_seed',X)])
p('C27','Hash-chain seeds are the documented SHAKE256 sequence',
  'The i-th hash-chain seed is SHAKE256 with 32 bytes output of seed || little-endian 32-bit shift || little-endian 32-bit i, for exactly the requested count, in order.',
  ['inputs'],'all seeds, shifts and counts','Tests pin three outputs.',
  [Q+'misc.cpp'],[('getHashChainSeed',Q+'misc.cpp')])
p('C29','The hash helpers hash exactly their input, completely',
  'The C++ byte-vector hash helpers shake128, shake256, sha2_256 and sha2_256_n, and sha2_256 over pointers, return exactly the number of bytes asked for (32 for SHA-256), namely the full hash of exactly the bytes passed in; sha2_256_n is the hash applied count times, each time to the 32 bytes before, and a count of zero is refused with an invalid-argument error.',
  ['inputs'],'all inputs, output sizes and counts','Tests pin the hash of one or two short inputs, and none of the stable tests runs these helpers; addresses, pool seeds and hash-chain seeds are all built on them.',
  [Q+'hashing.cpp','src/shasha/shasha.cpp'],[('shake128, shake256, sha2_256, sha2_256_n',Q+'hashing.cpp'),('sha2_256','src/shasha/shasha.cpp')])
p('C32','The JavaScript binding hands out exactly what the library computes',
  'Every operation of the JavaScript XMSS binding, under the name it is registered by, gives for the same arguments exactly the result of the C++ interface: public keys, addresses and extended seeds as the lower-case hexadecimal form of the same bytes (an address from a key object prefixed with Q) or as their mnemonic, signatures, indexes, heights and the verification verdict unchanged (including the Winternitz parameter), the hash, hex, mnemonic, address and descriptor helpers likewise, and a refusal by the library stays a refusal; a wallet made from the hex seed or mnemonic of another wallet has its public key, address, height and seed.',
  ['inputs','histories'],'all keys, messages, texts and call sequences','No stable test loads the binding; a wrapper that swaps two arguments, drops the Winternitz parameter or is registered under the name of another still works for the calls tried.',
  ['src/jswrapper/jsqrlwrapper.cpp'],[('XmssWrapper, XmssBasicWrapper, free functions, EMSCRIPTEN_BINDINGS','src/jswrapper/jsqrlwrapper.cpp')])
p('C30','Every signature made verifies under the key that made it',
  'For every key, message and index in range, the signature produced verifies under that key and for no other message.',
  ['inputs','histories'],'all keys, messages, indexes','End-to-end; sampled only.',
  [X,Q],[('sign/verify',X)])
p('C31','Signing and key generation run in time independent of secret data',
  'Execution time, branches and memory access patterns of signing do not depend on secret key bytes.',
  ['inputs'],'all secrets','Timing is not observed by tests.',
  [X],[('straight-line hashing',X)])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))

//! Independent construction of the typed-data digests the protocol signs.
use alloy_primitives::{keccak256, Address, B256};
use alloy_signer::SignerSync;
use alloy_signer_local::PrivateKeySigner;

pub fn word_u(v: u64) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[24..].copy_from_slice(&v.to_be_bytes());
    w
}
pub fn word_addr(a: &[u8]) -> [u8; 32] {
    let mut w = [0u8; 32];
    let n = a.len().min(20);
    w[12..12 + n].copy_from_slice(&a[..n]);
    w
}
pub fn word_hash(a: &[u8]) -> [u8; 32] {
    keccak256(a).0
}
pub fn word_b32(a: &[u8]) -> [u8; 32] {
    let mut w = [0u8; 32];
    let n = a.len().min(32);
    w[..n].copy_from_slice(&a[..n]);
    w
}
pub fn hash_struct(ty: &str, words: &[[u8; 32]]) -> [u8; 32] {
    let mut b = keccak256(ty.as_bytes()).to_vec();
    for w in words {
        b.extend_from_slice(w);
    }
    keccak256(&b).0
}
pub fn digest(domain: [u8; 32], st: [u8; 32]) -> B256 {
    let mut b = vec![0x19, 0x01];
    b.extend_from_slice(&domain);
    b.extend_from_slice(&st);
    keccak256(&b)
}

const SALT: &str = "f2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558";
pub fn claim_digest(fid: u64, address: &[u8], block_hash: &[u8], network: u64, chain: Option<u64>) -> B256 {
    let salt = word_b32(&hex::decode(SALT).unwrap());
    let name = word_hash(b"Farcaster Verify Ethereum Address");
    let version = word_hash(b"2.0.0");
    let domain = match chain {
        None => hash_struct(
            "EIP712Domain(string name,string version,bytes32 salt)",
            &[name, version, salt],
        ),
        Some(c) => hash_struct(
            "EIP712Domain(string name,string version,uint256 chainId,bytes32 salt)",
            &[name, version, word_u(c), salt],
        ),
    };
    digest(
        domain,
        hash_struct(
            "VerificationClaim(uint256 fid,address address,bytes32 blockHash,uint8 network)",
            &[word_u(fid), word_addr(address), word_b32(block_hash), word_u(network)],
        ),
    )
}
/// A transfer proof signed under slightly different typed data.
pub fn fname_near(kind: usize, name: &[u8], timestamp: u64, owner: &[u8]) -> B256 {
    let c = hex::decode("e3be01d99baa8db9905b33a3ca391238234b79d1").unwrap();
    let mut zero = c.clone();
    zero[19] ^= 1;
    let (n, v, ch, ct): (&[u8], &[u8], u64, &[u8]) = match kind {
        0 => (b"Farcaster name verification", b"2", 1, &c),
        1 => (b"Farcaster name verification", b"1", 10, &c),
        2 => (b"Farcaster name verification", b"1", 1, &zero),
        3 => (b"Farcaster Name Verification", b"1", 1, &c),
        _ => (b"Farcaster name verification", b"1", 1, &c),
    };
    let domain = hash_struct(
        "EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)",
        &[word_hash(n), word_hash(v), word_u(ch), word_addr(ct)],
    );
    let (ty, words) = match kind {
        4 => ("UserNameProof(string name,uint256 timestamp,address owner)", vec![word_hash(name), word_u(0), word_addr(owner)]),
        5 => ("UserNameProof(string name,uint256 timestamp,address owner)", vec![word_hash(name), word_u(timestamp), word_addr(&[])]),
        6 => ("UserNameProof(string name,uint256 timestamp)", vec![word_hash(name), word_u(timestamp)]),
        7 => ("UserNameProof(string name,address owner)", vec![word_hash(name), word_addr(owner)]),
        8 => ("UserNameProof(bytes32 name,uint256 timestamp,address owner)", vec![word_b32(name), word_u(timestamp), word_addr(owner)]),
        _ => ("UserNameProof(string name,uint256 timestamp,address owner)", vec![word_hash(&name.to_ascii_uppercase()), word_u(timestamp), word_addr(owner)]),
    };
    digest(domain, hash_struct(ty, &words))
}
pub fn fname_digest(name: &[u8], timestamp: u64, owner: &[u8]) -> B256 {
    let domain = hash_struct(
        "EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)",
        &[
            word_hash(b"Farcaster name verification"),
            word_hash(b"1"),
            word_u(1),
            word_addr(&hex::decode("e3be01d99baa8db9905b33a3ca391238234b79d1").unwrap()),
        ],
    );
    digest(
        domain,
        hash_struct(
            "UserNameProof(string name,uint256 timestamp,address owner)",
            &[word_hash(name), word_u(timestamp), word_addr(owner)],
        ),
    )
}
fn key_domain(chain: u64) -> [u8; 32] {
    hash_struct(
        "EIP712Domain(string name,string version,uint256 chainId)",
        &[word_hash(b"Farcaster KeyAdd"), word_hash(b"1"), word_u(chain)],
    )
}
pub fn key_add_digest(
    fid: u64, key: &[u8], key_type: u64, scopes: &[i32], ttl: u64, nonce: u64, deadline: u64, chain: u64,
) -> B256 {
    let mut sc = vec![];
    for s in scopes {
        sc.extend_from_slice(&word_u(*s as u64));
    }
    digest(
        key_domain(chain),
        hash_struct(
            "KeyAdd(uint256 fid,bytes key,uint32 keyType,uint32[] scopes,uint32 ttl,uint32 nonce,uint256 deadline)",
            &[
                word_u(fid), word_hash(key), word_u(key_type), keccak256(&sc).0, word_u(ttl), word_u(nonce),
                word_u(deadline),
            ],
        ),
    )
}
pub fn key_remove_digest(fid: u64, key: &[u8], nonce: u64, deadline: u64, chain: u64) -> B256 {
    digest(
        key_domain(chain),
        hash_struct(
            "KeyRemove(uint256 fid,bytes key,uint32 nonce,uint256 deadline)",
            &[word_u(fid), word_hash(key), word_u(nonce), word_u(deadline)],
        ),
    )
}
pub fn key_request_digest(request_fid: u64, key: &[u8], deadline: u64, chain: u64) -> B256 {
    digest(
        key_domain(chain),
        hash_struct(
            "SignedKeyRequest(uint256 requestFid,bytes key,uint256 deadline)",
            &[word_u(request_fid), word_hash(key), word_u(deadline)],
        ),
    )
}
/// ABI encoding of (uint256 requestFid, address requestSigner, bytes signature, uint256 deadline)
pub fn key_request_metadata(request_fid: [u8; 32], signer: &[u8], sig: &[u8], deadline: [u8; 32]) -> Vec<u8> {
    let mut b = word_u(32).to_vec();
    b.extend_from_slice(&request_fid);
    b.extend_from_slice(&word_addr(signer));
    b.extend_from_slice(&word_u(128));
    b.extend_from_slice(&deadline);
    b.extend_from_slice(&word_u(sig.len() as u64));
    b.extend_from_slice(sig);
    b.resize(b.len() + (32 - sig.len() % 32) % 32, 0);
    b
}

pub fn wallet(n: u8) -> PrivateKeySigner {
    let mut k = [0x11u8; 32];
    k[31] = n;
    PrivateKeySigner::from_bytes(&B256::from(k)).unwrap()
}
/// 65 bytes, last byte 27 or 28
pub fn sign(w: &PrivateKeySigner, d: B256) -> Vec<u8> {
    let s = w.sign_hash_sync(&d).unwrap();
    let mut v = s.as_bytes().to_vec();
    if v[64] < 27 {
        v[64] += 27;
    }
    v
}
/// Who signed this digest, by the protocol's reading of the last byte.
pub fn signer_of(sig: &[u8], d: B256) -> Option<Address> {
    if sig.len() != 65 {
        return None;
    }
    let odd = !(sig[64] == 27 || sig[64] == 0);
    alloy_primitives::Signature::from_bytes_and_parity(&sig[..64], odd)
        .recover_address_from_prehash(&d)
        .ok()
}

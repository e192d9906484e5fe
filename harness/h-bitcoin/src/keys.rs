//! C08: addresses, scripts and OP_RETURN; C09: deposit keys
use crate::model::*;
use bitcoin::{types::TransactionOutput, Address, PublicKey, Script};
use pbt::{check, check_eq, fail, guarded, Src, R};
use primitive_types::{H160, H256};
use rust_bitcoin::{
    address::Payload,
    hashes::{hash160, sha256, Hash},
    secp256k1::{Scalar, Secp256k1, SecretKey},
};

fn address(s: &mut Src) -> Address {
    match s.below(4) {
        0 => Address::P2PKH(H160(s.arr())),
        1 => Address::P2SH(H160(s.arr())),
        2 => Address::P2WPKHv0(H160(s.arr())),
        _ => Address::P2WSHv0(H256(s.arr())),
    }
}

/// the script of an address, from the Bitcoin documentation
fn ref_script(a: &Address) -> Vec<u8> {
    let mut v = vec![];
    match a {
        Address::P2PKH(h) => {
            v.extend([0x76, 0xa9, 0x14]);
            v.extend(h.as_bytes());
            v.extend([0x88, 0xac]);
        }
        Address::P2SH(h) => {
            v.extend([0xa9, 0x14]);
            v.extend(h.as_bytes());
            v.push(0x87);
        }
        Address::P2WPKHv0(h) => {
            v.extend([0, 0x14]);
            v.extend(h.as_bytes());
        }
        Address::P2WSHv0(h) => {
            v.extend([0, 0x20]);
            v.extend(h.as_bytes());
        }
    }
    v
}

/// C08: an address and its output script determine each other
pub fn c08_address(s: &mut Src) -> R {
    let a = address(s);
    s.nontrivial();
    s.note(|| format!("{a:?}"));
    s.sample(|| format!("{a:?}"));
    let sc = a.to_script_pub_key();
    check!(sc.as_bytes() == ref_script(&a), "script {}", hex(sc.as_bytes()));
    check_eq!(Address::from_script_pub_key(&sc), Ok(a), "address of the script");
    check_eq!(
        TransactionOutput::payment(s.i64(), &a).extract_address(),
        Ok(a),
        "address of a payment"
    );
    check_eq!(sc.is_p2pkh(), matches!(a, Address::P2PKH(_)), "is p2pkh");
    check_eq!(sc.is_p2sh(), matches!(a, Address::P2SH(_)), "is p2sh");
    check_eq!(sc.is_p2wpkh_v0(), matches!(a, Address::P2WPKHv0(_)), "is p2wpkh");
    check_eq!(sc.is_p2wsh_v0(), matches!(a, Address::P2WSHv0(_)), "is p2wsh");
    let p: Payload = a.try_into().map_err(|e| format!("not convertible: {e:?}"))?;
    check!(p.script_pubkey().as_bytes() == sc.as_bytes(), "rust-bitcoin's script");
    let back: Address = p.try_into().map_err(|e| format!("not convertible: {e:?}"))?;
    check_eq!(back, a, "through rust-bitcoin");
    // encodings the chain stores
    let enc = codec::Encode::encode(&a);
    let dec = <Address as codec::Decode>::decode(&mut &enc[..]).map_err(|e| e.to_string())?;
    check_eq!(dec, a, "through its stored form");
    let js = serde_json::to_string(&a).map_err(|e| e.to_string())?;
    let dj: Address = serde_json::from_str(&js).map_err(|e| e.to_string())?;
    check_eq!(dj, a, "through JSON");
    check_eq!(
        a.is_zero(),
        match a {
            Address::P2PKH(h) | Address::P2SH(h) | Address::P2WPKHv0(h) => h == H160::zero(),
            Address::P2WSHv0(h) => h == H256::zero(),
        },
        "zero"
    );
    Ok(())
}

/// C08: two different addresses have two different scripts
pub fn c08_distinct(s: &mut Src) -> R {
    let a = address(s);
    let b = if s.bool() {
        // the same hash of another kind, or one bit apart
        match a {
            Address::P2PKH(h) => *s.pick(&[Address::P2SH(h), Address::P2WPKHv0(h)]),
            Address::P2SH(h) => *s.pick(&[Address::P2PKH(h), Address::P2WPKHv0(h)]),
            Address::P2WPKHv0(h) => *s.pick(&[Address::P2PKH(h), Address::P2SH(h)]),
            Address::P2WSHv0(mut h) => {
                h.0[s.idx(32)] ^= 1 << s.below(8);
                Address::P2WSHv0(h)
            }
        }
    } else {
        address(s)
    };
    s.nontrivial();
    s.note(|| format!("{a:?} {b:?}"));
    s.sample(|| format!("{a:?} {b:?}"));
    check_eq!(a == b, a.to_script_pub_key() == b.to_script_pub_key(), "same address, same script");
    check_eq!(a == b, codec::Encode::encode(&a) == codec::Encode::encode(&b), "same address, same stored form");
    Ok(())
}

/// C08: a script is taken for an address only when it is exactly that address's script
pub fn c08_script(s: &mut Src) -> R {
    let mut b = ref_script(&address(s));
    s.repeat(0, 3, |s| {
        if b.is_empty() {
            return;
        }
        match s.below(6) {
            0 => {
                let i = s.idx(b.len());
                b[i] = s.u8();
            }
            1 => {
                let n = s.idx(b.len() + 1);
                b.truncate(n);
            }
            2 => {
                let n = 1 + s.idx(4);
                let x = s.raw(n);
                b.extend(x);
            }
            3 => {
                let i = *s.pick(&[0, 1, 2, b.len() - 1, b.len().saturating_sub(2)]);
                let i = i.min(b.len() - 1);
                b[i] = *s.pick(&[0u8, 0x14, 0x20, 0x51, 0x76, 0xa9, 0x87, 0x88, 0xac, 0x15, 0x13, 0x21]);
            }
            4 => {
                let i = s.idx(b.len() + 1);
                let x = s.u8();
                b.insert(i, x);
            }
            _ => {
                let i = s.idx(b.len());
                b.remove(i);
            }
        }
    });
    s.nontrivial();
    s.note(|| hex(&b));
    s.sample(|| hex(&b));
    let sc = Script::from(b.clone());
    match guarded(|| Address::from_script_pub_key(&sc))? {
        Ok(a) => {
            s.label("an address");
            check!(ref_script(&a) == b, "{} taken for {a:?}", hex(&b));
        }
        Err(_) => {
            s.label("not an address");
            let standard = match b.len() {
                25 => b[..3] == [0x76, 0xa9, 0x14] && b[23..] == [0x88, 0xac],
                23 => b[..2] == [0xa9, 0x14] && b[22] == 0x87,
                22 => b[..2] == [0, 0x14],
                34 => b[..2] == [0, 0x20],
                _ => false,
            };
            check!(!standard, "the script of an address is not recognised: {}", hex(&b));
        }
    }
    Ok(())
}

/// C08: data committed in an OP_RETURN output is the data read from it
pub fn c08_op_return(s: &mut Src) -> R {
    let n = match s.below(3) {
        0 => 32,
        1 => s.below(84) as usize,
        _ => s.uniform(74, 84) as usize,
    };
    let data = s.raw(n);
    s.nontrivial();
    s.note(|| hex(&data));
    s.sample(|| hex(&data));
    let sc = Script::op_return(&data);
    let got = guarded(|| sc.extract_op_return_data())?;
    if n <= 81 {
        s.label("fits");
        check_eq!(got, Ok(data.clone()), "data");
        if n <= 75 {
            // as a standard push
            let mut want = vec![0x6a, n as u8];
            want.extend(&data);
            check!(sc.as_bytes() == want, "script {}", hex(sc.as_bytes()));
        }
    } else {
        s.label("too long");
        check!(got.is_err(), "{n} bytes accepted");
    }
    // nothing else is read as committed data
    let mut b = sc.as_bytes().to_vec();
    match s.below(5) {
        0 => {
            let i = s.idx(b.len());
            b.truncate(i);
        }
        1 => {
            let x = s.u8();
            b.push(x);
        }
        2 => b[0] = s.u8(),
        3 => b[1] = s.u8(),
        _ => {
            let i = s.idx(b.len() + 1);
            let x = s.u8();
            b.insert(i, x);
        }
    }
    let m = Script::from(b.clone());
    match guarded(|| m.extract_op_return_data())? {
        Ok(d) => {
            check!(
                b.len() <= 83 && b[0] == 0x6a && b[1] as usize == d.len() && b[2..] == d[..],
                "{} read as {}",
                hex(&b),
                hex(&d)
            );
        }
        Err(_) => check!(
            b.len() < 2 || b.len() > 83 || b[0] != 0x6a || b[1] as usize != b.len() - 2,
            "a well formed commitment is rejected: {}",
            hex(&b)
        ),
    }
    Ok(())
}

fn secret(s: &mut Src) -> SecretKey {
    loop {
        let b = match s.below(8) {
            0 => {
                let mut b = [0; 32];
                b[31] = 1 + s.below(20) as u8;
                b
            }
            _ => s.arr::<32>(),
        };
        if let Ok(k) = SecretKey::from_slice(&b) {
            return k;
        }
        // the order of the group, or zero: next
        let mut b = [0; 32];
        b[31] = 7;
        return SecretKey::from_slice(&b).unwrap();
    }
}

/// C09: the deposit key of (V, id) is V·H(V, id): the vault, and only the vault, knows its secret
pub fn c09_derive(s: &mut Src) -> R {
    let curve = Secp256k1::new();
    let v = secret(s);
    let big_v = v.public_key(&curve);
    let id = H256(s.arr());
    let key = PublicKey(big_v.serialize());
    s.nontrivial();
    s.note(|| format!("key {} id {id:?}", hex(&key.0)));
    s.sample(|| format!("key {} id {id:?}", hex(&key.0)));
    let mut pre = key.0.to_vec();
    pre.extend(id.as_bytes());
    let c = sha256::Hash::hash(&pre).to_byte_array();
    let d = v
        .mul_tweak(&Scalar::from_be_bytes(c).map_err(|e| e.to_string())?)
        .map_err(|e| e.to_string())?;
    let got = guarded(|| key.new_deposit_public_key(id))?.map_err(|e| format!("no deposit key: {e:?}"))?;
    check!(
        got.0 == d.public_key(&curve).serialize(),
        "deposit key {} is not the one of the vault's derived secret",
        hex(&got.0)
    );
    check!(got != key, "the deposit key is the vault's key");
    let again = key.new_deposit_public_key(id).map_err(|e| format!("{e:?}"))?;
    check_eq!(again, got, "deposit key the second time");
    check_eq!(
        got.to_hash().0,
        hash160::Hash::hash(&got.0).to_byte_array(),
        "hash of the deposit key"
    );
    Ok(())
}

/// C09: different requests, and different vaults, get different deposit keys
pub fn c09_distinct(s: &mut Src) -> R {
    let curve = Secp256k1::new();
    let k1 = PublicKey(secret(s).public_key(&curve).serialize());
    let id1 = H256(s.arr());
    let mut id2 = id1;
    let mut k2 = k1.clone();
    if s.bool() {
        id2.0[s.idx(32)] ^= 1 << s.below(8);
        s.label("another id");
    } else {
        // the opposite point shares the x coordinate
        k2.0[0] ^= 1;
        s.label("the opposite key");
    }
    s.nontrivial();
    s.note(|| format!("{} {id1:?} / {} {id2:?}", hex(&k1.0), hex(&k2.0)));
    s.sample(|| format!("{} {id1:?} / {} {id2:?}", hex(&k1.0), hex(&k2.0)));
    let d1 = k1.new_deposit_public_key(id1).map_err(|e| format!("{e:?}"))?;
    let d2 = k2.new_deposit_public_key(id2).map_err(|e| format!("{e:?}"))?;
    check!(d1 != d2, "the same deposit key");
    check!(d1.to_hash() != d2.to_hash(), "the same deposit address");
    Ok(())
}

/// C09: bytes that are no public key give an error, never a key or a panic
pub fn c09_invalid(s: &mut Src) -> R {
    let curve = Secp256k1::new();
    let mut k = secret(s).public_key(&curve).serialize();
    match s.below(4) {
        0 => k = s.arr(),
        1 => k[0] = s.u8(),
        2 => {
            let i = 1 + s.idx(32);
            k[i] ^= 1 << s.below(8);
        }
        _ => k = [0; 33],
    }
    let id = H256(s.arr());
    s.nontrivial();
    s.note(|| hex(&k));
    s.sample(|| hex(&k));
    let valid = rust_bitcoin::secp256k1::PublicKey::from_slice(&k).is_ok();
    s.label(if valid { "a key" } else { "no key" });
    let got = guarded(|| PublicKey(k).new_deposit_public_key(id))?;
    check_eq!(got.is_ok(), valid, "accepted as a key");
    if let Ok(g) = got {
        if rust_bitcoin::secp256k1::PublicKey::from_slice(&g.0).is_err() {
            fail!("the deposit key is no key");
        }
    }
    let p = PublicKey(k);
    let js = serde_json::to_string(&p).map_err(|e| e.to_string())?;
    let dj: PublicKey = serde_json::from_str(&js).map_err(|e| e.to_string())?;
    check_eq!(dj, p, "through JSON");
    let enc = codec::Encode::encode(&p);
    check!(enc == k, "stored form");
    let dec = <PublicKey as codec::Decode>::decode(&mut &enc[..]).map_err(|e| e.to_string())?;
    check_eq!(dec, p, "through its stored form");
    Ok(())
}

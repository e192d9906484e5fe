//! typed storage
use super::{storage_prefix, unhashed, StorageDecodeLength, StorageTryAppend};
use crate::{
    hash::{ReversibleStorageHasher, StorageHasher},
    traits::{Get, GetDefault, StorageInstance},
};
use codec::{Decode, DecodeLength, Encode, EncodeLike, FullCodec, FullEncode};
use core::marker::PhantomData;

pub trait QueryKindTrait<Value, OnEmpty>: 'static {
    type Query: FullCodec + 'static;
    fn from_optional_value_to_query(v: Option<Value>) -> Self::Query;
    fn from_query_to_optional_value(v: Self::Query) -> Option<Value>;
}
pub struct OptionQuery;
impl<V: FullCodec + 'static> QueryKindTrait<V, GetDefault> for OptionQuery {
    type Query = Option<V>;
    fn from_optional_value_to_query(v: Option<V>) -> Option<V> {
        v
    }
    fn from_query_to_optional_value(v: Option<V>) -> Option<V> {
        v
    }
}
pub struct ValueQuery;
impl<V: FullCodec + 'static, OnEmpty: Get<V> + 'static> QueryKindTrait<V, OnEmpty> for ValueQuery {
    type Query = V;
    fn from_optional_value_to_query(v: Option<V>) -> V {
        v.unwrap_or_else(OnEmpty::get)
    }
    fn from_query_to_optional_value(v: V) -> Option<V> {
        Some(v)
    }
}

fn prefix_of<P: StorageInstance>() -> [u8; 32] {
    storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes())
}

/// iterates over the raw keys with a prefix, in order; `drain` removes what it yields
pub struct Keys {
    prefix: Vec<u8>,
    previous: Vec<u8>,
    drain: bool,
}
impl Keys {
    fn new(prefix: Vec<u8>) -> Self {
        Keys { previous: prefix.clone(), prefix, drain: false }
    }
    fn from(prefix: Vec<u8>, previous: Vec<u8>) -> Self {
        Keys { previous, prefix, drain: false }
    }
}
impl Iterator for Keys {
    /// the key and the bytes after the prefix
    type Item = (Vec<u8>, Vec<u8>);
    fn next(&mut self) -> Option<Self::Item> {
        let k = unhashed::next(&self.prefix, &self.previous)?;
        self.previous = k.clone();
        let rest = k[self.prefix.len()..].to_vec();
        Some((k, rest))
    }
}

fn entries<V: Decode>(keys: Keys) -> impl Iterator<Item = (Vec<u8>, V)> {
    let drain = keys.drain;
    keys.filter_map(move |(k, rest)| {
        let v = unhashed::get::<V>(&k)?;
        if drain {
            unhashed::kill(&k);
        }
        Some((rest, v))
    })
}

// ---- value

pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(PhantomData<(Prefix, Value, QueryKind, OnEmpty)>);

impl<P, V, Q, E> StorageValue<P, V, Q, E>
where
    P: StorageInstance,
    V: FullCodec,
    Q: QueryKindTrait<V, E>,
    E: 'static,
{
    pub fn hashed_key() -> [u8; 32] {
        prefix_of::<P>()
    }
    pub fn exists() -> bool {
        unhashed::exists(&Self::hashed_key())
    }
    pub fn get() -> Q::Query {
        Q::from_optional_value_to_query(unhashed::get(&Self::hashed_key()))
    }
    pub fn try_get() -> Result<V, ()> {
        unhashed::get(&Self::hashed_key()).ok_or(())
    }
    pub fn put<A: EncodeLike<V>>(v: A) {
        unhashed::put(&Self::hashed_key(), &v)
    }
    pub fn set(v: Q::Query) {
        match Q::from_query_to_optional_value(v) {
            Some(v) => Self::put(v),
            None => Self::kill(),
        }
    }
    pub fn kill() {
        unhashed::kill(&Self::hashed_key())
    }
    pub fn take() -> Q::Query {
        let v = unhashed::take::<V>(&Self::hashed_key());
        Q::from_optional_value_to_query(v)
    }
    pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
        Self::try_mutate(|v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {})
    }
    pub fn try_mutate<R, Err, F: FnOnce(&mut Q::Query) -> Result<R, Err>>(f: F) -> Result<R, Err> {
        let mut v = Self::get();
        let r = f(&mut v);
        if r.is_ok() {
            Self::set(v);
        }
        r
    }
    pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
        Self::try_mutate_exists(|v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {})
    }
    pub fn try_mutate_exists<R, Err, F: FnOnce(&mut Option<V>) -> Result<R, Err>>(f: F) -> Result<R, Err> {
        let k = Self::hashed_key();
        let mut v: Option<V> = unhashed::get(&k);
        let r = f(&mut v);
        if r.is_ok() {
            match v {
                Some(v) => unhashed::put(&k, &v),
                None => unhashed::kill(&k),
            }
        }
        r
    }
    pub fn translate<O: Decode, F: FnOnce(Option<O>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
        let k = Self::hashed_key();
        let old = match unhashed::get_raw(&k) {
            Some(b) => Some(O::decode(&mut &b[..]).map_err(|_| ())?),
            None => None,
        };
        let new = f(old);
        match &new {
            Some(v) => unhashed::put(&k, v),
            None => unhashed::kill(&k),
        }
        Ok(new)
    }
    pub fn append<Item, I>(item: I)
    where
        Item: Encode,
        I: EncodeLike<Item>,
        V: super::StorageAppend<Item>,
    {
        sp_io::storage::append(&Self::hashed_key(), item.encode());
    }
    pub fn decode_len() -> Option<usize>
    where
        V: StorageDecodeLength,
    {
        V::decode_len(&Self::hashed_key())
    }
    pub fn try_append<Item, I>(item: I) -> Result<(), ()>
    where
        Item: Encode,
        I: EncodeLike<Item>,
        V: StorageTryAppend<Item>,
    {
        let k = Self::hashed_key();
        if V::decode_len(&k).unwrap_or_default() < V::bound() {
            sp_io::storage::append(&k, item.encode());
            Ok(())
        } else {
            Err(())
        }
    }
}

// ---- map

pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
    PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>,
);

impl<P, H, K, V, Q, E, M> StorageMap<P, H, K, V, Q, E, M>
where
    P: StorageInstance,
    H: StorageHasher,
    K: FullCodec,
    V: FullCodec,
    Q: QueryKindTrait<V, E>,
    E: 'static,
{
    pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
        let mut key = prefix_of::<P>().to_vec();
        key.extend_from_slice(k.using_encoded(H::hash).as_ref());
        key
    }
    pub fn final_prefix() -> [u8; 32] {
        prefix_of::<P>()
    }
    pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
        unhashed::exists(&Self::hashed_key_for(k))
    }
    pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
        Q::from_optional_value_to_query(unhashed::get(&Self::hashed_key_for(k)))
    }
    pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
        unhashed::get(&Self::hashed_key_for(k)).ok_or(())
    }
    pub fn set<A: EncodeLike<K>>(k: A, v: Q::Query) {
        match Q::from_query_to_optional_value(v) {
            Some(v) => Self::insert(k, v),
            None => Self::remove(k),
        }
    }
    pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
        let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
        let (x, y) = (unhashed::get::<V>(&a), unhashed::get::<V>(&b));
        for (k, v) in [(a, y), (b, x)] {
            match v {
                Some(v) => unhashed::put(&k, &v),
                None => unhashed::kill(&k),
            }
        }
    }
    pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
        unhashed::put(&Self::hashed_key_for(k), &v)
    }
    pub fn remove<A: EncodeLike<K>>(k: A) {
        unhashed::kill(&Self::hashed_key_for(k))
    }
    pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query {
        Q::from_optional_value_to_query(unhashed::take(&Self::hashed_key_for(k)))
    }
    pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
        Self::try_mutate(k, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {})
    }
    pub fn try_mutate<A: EncodeLike<K>, R, Err, F: FnOnce(&mut Q::Query) -> Result<R, Err>>(k: A, f: F) -> Result<R, Err> {
        let k = Self::hashed_key_for(k);
        let mut v = Q::from_optional_value_to_query(unhashed::get(&k));
        let r = f(&mut v);
        if r.is_ok() {
            match Q::from_query_to_optional_value(v) {
                Some(v) => unhashed::put(&k, &v),
                None => unhashed::kill(&k),
            }
        }
        r
    }
    pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
        Self::try_mutate_exists(k, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {})
    }
    pub fn try_mutate_exists<A: EncodeLike<K>, R, Err, F: FnOnce(&mut Option<V>) -> Result<R, Err>>(k: A, f: F) -> Result<R, Err> {
        let k = Self::hashed_key_for(k);
        let mut v: Option<V> = unhashed::get(&k);
        let r = f(&mut v);
        if r.is_ok() {
            match v {
                Some(v) => unhashed::put(&k, &v),
                None => unhashed::kill(&k),
            }
        }
        r
    }
    pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize>
    where
        V: StorageDecodeLength,
    {
        V::decode_len(&Self::hashed_key_for(k))
    }
    pub fn append<Item, I, A>(k: A, item: I)
    where
        A: EncodeLike<K>,
        Item: Encode,
        I: EncodeLike<Item>,
        V: super::StorageAppend<Item>,
    {
        sp_io::storage::append(&Self::hashed_key_for(k), item.encode());
    }
    pub fn try_append<A, Item, I>(k: A, item: I) -> Result<(), ()>
    where
        A: EncodeLike<K>,
        Item: Encode,
        I: EncodeLike<Item>,
        V: StorageTryAppend<Item>,
    {
        let k = Self::hashed_key_for(k);
        if V::decode_len(&k).unwrap_or_default() < V::bound() {
            sp_io::storage::append(&k, item.encode());
            Ok(())
        } else {
            Err(())
        }
    }
    pub fn clear(limit: u32, _cursor: Option<&[u8]>) -> sp_io::MultiRemovalResults {
        unhashed::clear_prefix(&prefix_of::<P>(), Some(limit), None)
    }
    pub fn remove_all(limit: Option<u32>) -> sp_io::MultiRemovalResults {
        unhashed::clear_prefix(&prefix_of::<P>(), limit, None)
    }
    pub fn iter_values() -> impl Iterator<Item = V> {
        entries::<V>(Keys::new(prefix_of::<P>().to_vec())).map(|(_, v)| v)
    }
}

impl<P, H, K, V, Q, E, M> StorageMap<P, H, K, V, Q, E, M>
where
    P: StorageInstance,
    H: ReversibleStorageHasher,
    K: FullCodec,
    V: FullCodec,
    Q: QueryKindTrait<V, E>,
    E: 'static,
{
    pub fn iter() -> impl Iterator<Item = (K, V)> {
        entries::<V>(Keys::new(prefix_of::<P>().to_vec())).filter_map(|(r, v)| Some((K::decode(&mut H::reverse(&r)).ok()?, v)))
    }
    pub fn iter_from(previous: Vec<u8>) -> impl Iterator<Item = (K, V)> {
        entries::<V>(Keys::from(prefix_of::<P>().to_vec(), previous)).filter_map(|(r, v)| Some((K::decode(&mut H::reverse(&r)).ok()?, v)))
    }
    pub fn iter_keys() -> impl Iterator<Item = K> {
        Keys::new(prefix_of::<P>().to_vec()).filter_map(|(_, r)| K::decode(&mut H::reverse(&r)).ok())
    }
    pub fn drain() -> impl Iterator<Item = (K, V)> {
        let mut keys = Keys::new(prefix_of::<P>().to_vec());
        keys.drain = true;
        entries::<V>(keys).filter_map(|(r, v)| Some((K::decode(&mut H::reverse(&r)).ok()?, v)))
    }
    pub fn translate<O: Decode, F: FnMut(K, O) -> Option<V>>(mut f: F) {
        for (k, r) in Keys::new(prefix_of::<P>().to_vec()) {
            let (Some(old), Ok(key)) = (unhashed::get::<O>(&k), K::decode(&mut H::reverse(&r))) else { continue };
            match f(key, old) {
                Some(v) => unhashed::put(&k, &v),
                None => unhashed::kill(&k),
            }
        }
    }
}

// ---- double map

pub struct StorageDoubleMap<Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
    PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty, MaxValues)>,
);

impl<P, H1, K1, H2, K2, V, Q, E, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
where
    P: StorageInstance,
    H1: StorageHasher,
    K1: FullCodec,
    H2: StorageHasher,
    K2: FullCodec,
    V: FullCodec,
    Q: QueryKindTrait<V, E>,
    E: 'static,
{
    fn prefix1<A: EncodeLike<K1>>(a: A) -> Vec<u8> {
        let mut key = prefix_of::<P>().to_vec();
        key.extend_from_slice(a.using_encoded(H1::hash).as_ref());
        key
    }
    pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
        let mut key = Self::prefix1(a);
        key.extend_from_slice(b.using_encoded(H2::hash).as_ref());
        key
    }
    pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
        unhashed::exists(&Self::hashed_key_for(a, b))
    }
    pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
        Q::from_optional_value_to_query(unhashed::get(&Self::hashed_key_for(a, b)))
    }
    pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
        unhashed::get(&Self::hashed_key_for(a, b)).ok_or(())
    }
    pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
        Q::from_optional_value_to_query(unhashed::take(&Self::hashed_key_for(a, b)))
    }
    pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, v: Q::Query) {
        match Q::from_query_to_optional_value(v) {
            Some(v) => Self::insert(a, b, v),
            None => Self::remove(a, b),
        }
    }
    pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, W: EncodeLike<V>>(a: A, b: B, v: W) {
        unhashed::put(&Self::hashed_key_for(a, b), &v)
    }
    pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
        unhashed::kill(&Self::hashed_key_for(a, b))
    }
    pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
        Self::try_mutate(a, b, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {})
    }
    pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, Err, F: FnOnce(&mut Q::Query) -> Result<R, Err>>(
        a: A,
        b: B,
        f: F,
    ) -> Result<R, Err> {
        let k = Self::hashed_key_for(a, b);
        let mut v = Q::from_optional_value_to_query(unhashed::get(&k));
        let r = f(&mut v);
        if r.is_ok() {
            match Q::from_query_to_optional_value(v) {
                Some(v) => unhashed::put(&k, &v),
                None => unhashed::kill(&k),
            }
        }
        r
    }
    pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
        Self::try_mutate_exists(a, b, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {})
    }
    pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, Err, F: FnOnce(&mut Option<V>) -> Result<R, Err>>(
        a: A,
        b: B,
        f: F,
    ) -> Result<R, Err> {
        let k = Self::hashed_key_for(a, b);
        let mut v: Option<V> = unhashed::get(&k);
        let r = f(&mut v);
        if r.is_ok() {
            match v {
                Some(v) => unhashed::put(&k, &v),
                None => unhashed::kill(&k),
            }
        }
        r
    }
    pub fn clear(limit: u32, _cursor: Option<&[u8]>) -> sp_io::MultiRemovalResults {
        unhashed::clear_prefix(&prefix_of::<P>(), Some(limit), None)
    }
    pub fn clear_prefix<A: EncodeLike<K1>>(a: A, limit: u32, _cursor: Option<&[u8]>) -> sp_io::MultiRemovalResults {
        unhashed::clear_prefix(&Self::prefix1(a), Some(limit), None)
    }
    pub fn remove_prefix<A: EncodeLike<K1>>(a: A, limit: Option<u32>) -> sp_io::MultiRemovalResults {
        unhashed::clear_prefix(&Self::prefix1(a), limit, None)
    }
    pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> impl Iterator<Item = V> {
        entries::<V>(Keys::new(Self::prefix1(a))).map(|(_, v)| v)
    }
    pub fn iter_values() -> impl Iterator<Item = V> {
        entries::<V>(Keys::new(prefix_of::<P>().to_vec())).map(|(_, v)| v)
    }
}

impl<P, H1, K1, H2, K2, V, Q, E, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
where
    P: StorageInstance,
    H1: ReversibleStorageHasher,
    K1: FullCodec,
    H2: ReversibleStorageHasher,
    K2: FullCodec,
    V: FullCodec,
    Q: QueryKindTrait<V, E>,
    E: 'static,
{
    fn both(r: &[u8]) -> Option<(K1, K2)> {
        let mut rest = H1::reverse(r);
        let a = K1::decode(&mut rest).ok()?;
        let b = K2::decode(&mut H2::reverse(rest)).ok()?;
        Some((a, b))
    }
    pub fn iter() -> impl Iterator<Item = (K1, K2, V)> {
        entries::<V>(Keys::new(prefix_of::<P>().to_vec())).filter_map(|(r, v)| Self::both(&r).map(|(a, b)| (a, b, v)))
    }
    pub fn iter_keys() -> impl Iterator<Item = (K1, K2)> {
        Keys::new(prefix_of::<P>().to_vec()).filter_map(|(_, r)| Self::both(&r))
    }
    pub fn drain() -> impl Iterator<Item = (K1, K2, V)> {
        let mut keys = Keys::new(prefix_of::<P>().to_vec());
        keys.drain = true;
        entries::<V>(keys).filter_map(|(r, v)| Self::both(&r).map(|(a, b)| (a, b, v)))
    }
    pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> impl Iterator<Item = (K2, V)> {
        entries::<V>(Keys::new(Self::prefix1(a))).filter_map(|(r, v)| Some((K2::decode(&mut H2::reverse(&r)).ok()?, v)))
    }
    pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> impl Iterator<Item = K2> {
        Keys::new(Self::prefix1(a)).filter_map(|(_, r)| K2::decode(&mut H2::reverse(&r)).ok())
    }
    pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> impl Iterator<Item = (K2, V)> {
        let mut keys = Keys::new(Self::prefix1(a));
        keys.drain = true;
        entries::<V>(keys).filter_map(|(r, v)| Some((K2::decode(&mut H2::reverse(&r)).ok()?, v)))
    }
    pub fn translate<O: Decode, F: FnMut(K1, K2, O) -> Option<V>>(mut f: F) {
        for (k, r) in Keys::new(prefix_of::<P>().to_vec()) {
            let (Some(old), Some((a, b))) = (unhashed::get::<O>(&k), Self::both(&r)) else { continue };
            match f(a, b, old) {
                Some(v) => unhashed::put(&k, &v),
                None => unhashed::kill(&k),
            }
        }
    }
}

#[allow(dead_code)]
fn _bounds<T: FullEncode + DecodeLength>() {}

//! Every authenticator and cipher the crate ships, behind cloneable handles.
use crate::common::*;
use over_there::core::transport::auth::{
    Authenticator, Digest, NoopAuthenticator, Sha256Authenticator,
    Sha512Authenticator, Signer, Verifier,
};
use over_there::core::transport::crypto::{
    nonce::cache::NonceCacheBicrypter, Aes128GcmBicrypter, Aes128GcmSivBicrypter,
    Aes128SivBicrypter, Aes256GcmBicrypter, Aes256GcmSivBicrypter,
    Aes256SivBicrypter, AssociatedData, Bicrypter, CryptError, Decrypter,
    Encrypter, NoopBicrypter,
};
use rand::{rngs::StdRng, Rng};
use std::sync::Arc;

pub trait FullAuth: Authenticator + Send + Sync {}
impl<T: Authenticator + Send + Sync> FullAuth for T {}
pub trait FullCrypt: Bicrypter + Send + Sync {}
impl<T: Bicrypter + Send + Sync> FullCrypt for T {}

/// Cloned the way the authenticator inside clones itself, if it does.
pub struct DynAuth {
    it: Arc<dyn FullAuth>,
    again: Arc<dyn Fn() -> Arc<dyn FullAuth> + Send + Sync>,
}
impl DynAuth {
    fn new<T: FullAuth + Clone + 'static>(x: T) -> Self {
        let y = x.clone();
        DynAuth { it: Arc::new(x), again: Arc::new(move || Arc::new(y.clone())) }
    }
}
impl Clone for DynAuth {
    fn clone(&self) -> Self {
        DynAuth { it: (self.again)(), again: self.again.clone() }
    }
}
impl Authenticator for DynAuth {}
impl Signer for DynAuth {
    fn sign(&self, m: &[u8]) -> Digest {
        self.it.sign(m)
    }
}
impl Verifier for DynAuth {
    fn verify(&self, m: &[u8], s: &Digest) -> bool {
        self.it.verify(m, s)
    }
}

/// Cloned the way the cipher inside clones itself, if it does.
pub struct DynCrypt {
    it: Arc<dyn FullCrypt>,
    again: Arc<dyn Fn() -> Arc<dyn FullCrypt> + Send + Sync>,
}
impl DynCrypt {
    fn new<T: FullCrypt + Clone + 'static>(x: T) -> Self {
        let y = x.clone();
        DynCrypt { it: Arc::new(x), again: Arc::new(move || Arc::new(y.clone())) }
    }
    /// For a cipher that cannot be cloned.
    fn shared<T: FullCrypt + 'static>(x: T) -> Self {
        let it: Arc<dyn FullCrypt> = Arc::new(x);
        let y = it.clone();
        DynCrypt { it, again: Arc::new(move || y.clone()) }
    }
}
impl Clone for DynCrypt {
    fn clone(&self) -> Self {
        DynCrypt { it: (self.again)(), again: self.again.clone() }
    }
}
impl Bicrypter for DynCrypt {}
impl Encrypter for DynCrypt {
    fn encrypt(&self, b: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.it.encrypt(b, a)
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        self.it.new_encrypt_associated_data()
    }
}
impl Decrypter for DynCrypt {
    fn decrypt(&self, b: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.it.decrypt(b, a)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum AuthKind {
    Noop,
    Sha256,
    Sha512,
}
pub const AUTHS: [AuthKind; 3] = [AuthKind::Noop, AuthKind::Sha256, AuthKind::Sha512];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CryptKind {
    Noop,
    Gcm128,
    Gcm256,
    GcmSiv128,
    GcmSiv256,
    Siv128,
    Siv256,
}
pub const CRYPTS: [CryptKind; 7] = [
    CryptKind::Noop,
    CryptKind::Gcm128,
    CryptKind::Gcm256,
    CryptKind::GcmSiv128,
    CryptKind::GcmSiv256,
    CryptKind::Siv128,
    CryptKind::Siv256,
];

pub fn make_auth(k: AuthKind, key: &[u8]) -> DynAuth {
    match k {
        AuthKind::Noop => DynAuth::new(NoopAuthenticator),
        AuthKind::Sha256 => DynAuth::new(Sha256Authenticator::new(key)),
        AuthKind::Sha512 => DynAuth::new(Sha512Authenticator::new(key)),
    }
}

fn arr<T: Default + AsMut<[u8]>>(key: &[u8]) -> T {
    let mut a = T::default();
    let n = a.as_mut().len();
    a.as_mut().copy_from_slice(&key[..n]);
    a
}

pub fn make_crypt(k: CryptKind, key: &[u8; 64]) -> DynCrypt {
    match k {
        CryptKind::Noop => DynCrypt::new(NoopBicrypter),
        CryptKind::Gcm128 => DynCrypt::new(Aes128GcmBicrypter::new(&arr(key))),
        CryptKind::Gcm256 => DynCrypt::new(Aes256GcmBicrypter::new(&arr(key))),
        CryptKind::GcmSiv128 => DynCrypt::new(Aes128GcmSivBicrypter::new(&arr(key))),
        CryptKind::GcmSiv256 => DynCrypt::new(Aes256GcmSivBicrypter::new(&arr(key))),
        CryptKind::Siv128 => DynCrypt::shared(Aes128SivBicrypter::new(&arr(key))),
        CryptKind::Siv256 => DynCrypt::shared(Aes256SivBicrypter::new(key)),
    }
}

pub fn with_cache(b: DynCrypt, n: usize) -> DynCrypt {
    DynCrypt::new(NonceCacheBicrypter::new(b, n))
}

pub fn rand_key(r: &mut StdRng) -> [u8; 64] {
    let mut k = [0u8; 64];
    r.fill(&mut k[..]);
    k
}

pub fn rand_auth_key(r: &mut StdRng) -> Vec<u8> {
    let n = r.gen_range(0, 200);
    rand_bytes(r, n)
}

// the crate's builders derive Default, which asks this of their parameters
impl Default for DynAuth {
    fn default() -> Self {
        make_auth(AuthKind::Noop, &[])
    }
}
impl Default for DynCrypt {
    fn default() -> Self {
        make_crypt(CryptKind::Noop, &[0; 64])
    }
}

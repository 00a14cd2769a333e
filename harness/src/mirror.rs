//! A reading of the packet format as it appears on the wire, validated against
//! genuine packets before it is relied on (see `validated`).
use crate::kinds::DynAuth;
use over_there::core::transport::auth::{Digest, Signer};
use over_there::core::transport::crypto::Nonce;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Enc {
    None,
    Encrypted,
    EncryptedWithNonce { nonce: Nonce },
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Type {
    NotFinal,
    Final { encryption: Enc },
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub struct Meta {
    pub id: u32,
    pub index: u32,
    pub r#type: Type,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Pkt {
    pub metadata: Meta,
    pub signature: Digest,
    #[serde(with = "serde_bytes")]
    pub data: Vec<u8>,
}
impl Pkt {
    pub fn parse(b: &[u8]) -> Option<Pkt> {
        serde_cbor::from_slice(b).ok()
    }
    pub fn bytes(&self) -> Vec<u8> {
        serde_cbor::ser::to_vec_packed(self).unwrap()
    }
    pub fn is_final(&self) -> bool {
        matches!(self.metadata.r#type, Type::Final { .. })
    }
    pub fn sign(mut self, a: &DynAuth) -> Pkt {
        let mut c = serde_cbor::ser::to_vec_packed(&self.metadata).unwrap();
        c.extend_from_slice(&self.data);
        self.signature = a.sign(&c);
        self
    }
    /// Semantic identity: same metadata, signature and data, however encoded.
    pub fn same(&self, o: &Pkt) -> bool {
        self.bytes() == o.bytes()
    }
}
/// True if this reading re-encodes and re-signs genuine packets exactly.
pub fn validated(pkts: &[Vec<u8>], a: &DynAuth) -> bool {
    pkts.iter().all(|b| match Pkt::parse(b) {
        Some(p) => p.bytes() == *b && p.clone().sign(a).bytes() == *b,
        None => false,
    })
}

//! Stand-in for the `wormhole-sdk` git dependency, which cannot be fetched in
//! the offline sandbox. Only what the on-chain programs use.

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Chain {
    Any,
    Solana,
    Ethereum,
    Unknown(u16),
}

impl From<u16> for Chain {
    fn from(v: u16) -> Self {
        match v {
            0 => Chain::Any,
            1 => Chain::Solana,
            2 => Chain::Ethereum,
            v => Chain::Unknown(v),
        }
    }
}

impl From<Chain> for u16 {
    fn from(v: Chain) -> u16 {
        match v {
            Chain::Any => 0,
            Chain::Solana => 1,
            Chain::Ethereum => 2,
            Chain::Unknown(v) => v,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Address(pub [u8; 32]);

pub const GOVERNANCE_EMITTER: Address = Address([
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4,
]);

//! Descriptors and the keys they stand for.
use bitcoin::bip32::{ChildNumber, DerivationPath, Xpriv, Xpub};
use bitcoin::secp256k1::SecretKey;
use bitcoin::{Network, NetworkKind, PrivateKey};
use engine::*;
use refmodel::ec::secp;
use refmodel::gen;

pub const NETWORKS: [Network; 5] =
    [Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet, Network::Regtest];

pub fn hrp(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "sp",
        Network::Regtest => "sprt",
        _ => "tsp",
    }
}

#[derive(Clone, Debug)]
pub struct Desc {
    pub private: String,
    /// what `sh` like programs may have instead, without secrets
    pub public: String,
    pub secret: SecretKey,
    pub single: bool,
}

fn path_text(p: &[ChildNumber], mark: char) -> String {
    p.iter()
        .map(|c| match c {
            ChildNumber::Normal { index } => format!("/{index}"),
            ChildNumber::Hardened { index } => format!("/{index}{mark}"),
        })
        .collect()
}

fn path(s: &mut Src) -> Vec<ChildNumber> {
    let n = s.size(0, 5);
    (0..n)
        .map(|_| {
            let index = match s.weighted(&[3, 1]) {
                0 => s.below(4) as u32,
                _ => s.u32() >> 1,
            };
            if s.chance(1, 2) {
                ChildNumber::Hardened { index }
            } else {
                ChildNumber::Normal { index }
            }
        })
        .collect()
}

fn kind(n: Network) -> NetworkKind {
    n.into()
}

/// A taproot descriptor of a definite private key in one of its forms.
pub fn descriptor(s: &mut Src, n: Network) -> Desc {
    let form = s.weighted(&[3, 3, 3, 2]);
    let (mut private, mut public, secret);
    let single = form == 3;
    if single {
        let k = PrivateKey::new(gen::secret(s), n);
        private = k.to_wif();
        public = k.public_key(secp()).to_string();
        secret = k.inner;
    } else {
        let seed = s.bytes32();
        let m = Xpriv::new_master(kind(n), &seed).expect("a key");
        let fp = m.fingerprint(secp());
        let mark = *s.pick(&['h', '\'']);
        let all = path(s);
        let split = if form == 2 { s.below(all.len() as u64 + 1) as usize } else { 0 };
        let (before, after) = all.split_at(split);
        let parent = m.derive_priv(secp(), &DerivationPath::from(before.to_vec())).unwrap();
        let key = parent.derive_priv(secp(), &DerivationPath::from(after.to_vec())).unwrap();
        secret = key.private_key;
        let origin = match form {
            0 => String::new(),
            1 => format!("[{fp}]"),
            _ => format!("[{fp}{}]", path_text(before, mark)),
        };
        private = format!("{origin}{parent}{}", path_text(after, mark));
        // the public form starts after the last hardened step
        let last = after.iter().rposition(|c| c.is_hardened()).map_or(0, |i| i + 1);
        let base = parent.derive_priv(secp(), &DerivationPath::from(after[..last].to_vec())).unwrap();
        let xpub = Xpub::from_priv(secp(), &base);
        public = format!("{xpub}{}", path_text(&after[last..], mark));
    }
    // a script path does not matter for silent payments, the key is the internal key
    let tree = if s.chance(1, 5) {
        let k = PrivateKey::new(gen::random_secret(s), n);
        Some((format!(",pk({})", k.to_wif()), format!(",pk({})", k.public_key(secp()))))
    } else {
        None
    };
    let (tp, tq) = tree.unwrap_or_default();
    private = format!("tr({private}{tp})");
    public = format!("tr({public}{tq})");
    if s.chance(1, 3) {
        let sum = miniscript::descriptor::checksum::desc_checksum(&private).expect("characters of descriptors");
        private = format!("{private}#{sum}");
    }
    Desc { private, public, secret, single }
}

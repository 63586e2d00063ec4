//! A peer of the bitcoin network that serves compact block filters, and a tweak server, on the loopback network.
use crate::chain::Chain;
use bip324::{Handshake, PacketType, PacketWriter, Role};
use bitcoin::bip158::{BlockFilter, FilterHash, FilterHeader};
use bitcoin::hashes::Hash;
use bitcoin::p2p::message::NetworkMessage;
use bitcoin::p2p::message_blockdata::Inventory;
use bitcoin::p2p::message_filter::{CFHeaders, CFilter};
use bitcoin::p2p::message_network::VersionMessage;
use bitcoin::p2p::{Address, ServiceFlags};
use bitcoin::{Block, BlockHash, Network, Witness};
use std::cell::OnceCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What is served: the chain at the time of a scan.
#[derive(Default)]
pub struct Served {
    pub blocks: Vec<Block>,
    pub filters: Vec<BlockFilter>,
    headers: Vec<FilterHeader>,
    at: HashMap<BlockHash, usize>,
    /// per block the tweak of each transaction and the largest amount of its taproot outputs
    pub tweaks: Vec<Vec<(bitcoin::secp256k1::PublicKey, u64)>>,
    /// how long answers take, by height
    pub delay: Vec<u64>,
    /// what was asked for: heights of tweaks, and requests not understood
    pub asked: Vec<usize>,
    pub strange: Vec<String>,
    /// the peer closes the connection instead of answering its message of this number, once
    pub drop_at: Option<u64>,
    pub dropped: bool,
    /// the tweak server fails to answer for this height
    pub fails_at: Option<usize>,
    pub failed: bool,
}

impl Served {
    pub fn set(&mut self, c: &Chain, delay: Vec<u64>) {
        let mut h = FilterHeader::all_zeros();
        *self = Served { delay, ..Default::default() };
        for (n, b) in c.blocks.iter().enumerate() {
            let known = c.node.lock().unwrap();
            let f = BlockFilter::new_script_filter(b, |o| {
                Ok(known.txs[&o.txid].output[o.vout as usize].script_pubkey.clone())
            })
            .expect("a filter");
            drop(known);
            h = f.filter_header(&h);
            self.headers.push(h);
            self.filters.push(f);
            self.at.insert(b.block_hash(), n);
            let mut v = vec![];
            for t in b.txdata.iter().skip(1) {
                let most = t.output.iter().filter(|o| o.script_pubkey.is_p2tr()).map(|o| o.value.to_sat()).max();
                if let (Some(most), Some(t)) = (most, refmodel::tweak_data(t, &c.prevouts(t))) {
                    v.push((t, most));
                }
            }
            self.tweaks.push(v);
            let mut b = b.clone();
            // what is asked for is a block without witnesses
            for t in &mut b.txdata {
                for i in &mut t.input {
                    i.witness = Witness::default();
                }
            }
            self.blocks.push(b);
        }
    }
}

pub type Shared = Arc<Mutex<Served>>;

/// A thread's peer and tweak server.
pub struct Light {
    pub peer: Ipv4Addr,
    pub url: String,
    state: Arc<Mutex<Shared>>,
}

thread_local! {
    static LIGHT: OnceCell<Light> = const { OnceCell::new() };
}

/// An address of its own where no peer listens.
pub const NOBODY: &str = "127.255.255.253";

/// Address of the peer, of the tweak server, and what they serve from now on.
pub fn serve() -> (String, String, Shared) {
    LIGHT.with(|l| {
        let l = l.get_or_init(|| {
            let state: Arc<Mutex<Shared>> = Default::default();
            // an address of its own on the port of the regtest network
            let mut n = std::process::id().wrapping_mul(7919);
            let (peer, listener) = loop {
                n = n.wrapping_mul(1664525).wrapping_add(1013904223);
                let b = n.to_be_bytes();
                let ip = Ipv4Addr::new(127, 1 + (b[0] & 127), b[1], 1 + (b[2] & 127));
                if let Ok(l) = TcpListener::bind((ip, 18444)) {
                    break (ip, l);
                }
            };
            accept(listener, state.clone(), |c, st| {
                let _ = p2p(c, st);
            });
            let listener = TcpListener::bind("127.0.0.1:0").expect("a loopback port");
            let url = format!("http://{}", listener.local_addr().unwrap());
            accept(listener, state.clone(), |c, st| {
                let _ = http(c, st);
            });
            Light { peer, url, state }
        });
        let new: Shared = Default::default();
        *l.state.lock().unwrap() = new.clone();
        (l.peer.to_string(), l.url.clone(), new)
    })
}

fn accept(l: TcpListener, st: Arc<Mutex<Shared>>, f: fn(TcpStream, Shared)) {
    std::thread::spawn(move || {
        for c in l.incoming().flatten() {
            let st = st.lock().unwrap().clone();
            let _ = std::thread::Builder::new().stack_size(1 << 20).spawn(move || f(c, st));
        }
    });
}

fn other<E: std::fmt::Debug>(e: E) -> std::io::Error {
    std::io::Error::other(format!("{e:?}"))
}

fn p2p(mut c: TcpStream, st: Shared) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    c.set_read_timeout(Some(Duration::from_secs(60)))?;
    // BIP324, as the responder
    let mut own = [0u8; 64];
    let mut hs = Handshake::new(Network::Regtest, Role::Responder, None, &mut own).map_err(other)?;
    let mut theirs = [0u8; 64];
    c.read_exact(&mut theirs)?;
    c.write_all(&own)?;
    let mut rest = vec![0u8; 16 + PacketWriter::required_packet_allocation(&[])];
    hs.complete_materials(theirs, &mut rest, None).map_err(other)?;
    c.write_all(&rest)?;
    let mut got = vec![];
    loop {
        // not a byte more than the handshake has
        let mut b = [0u8];
        c.read_exact(&mut b)?;
        got.push(b[0]);
        match hs.authenticate_garbage_and_version(&got) {
            Ok(()) => break,
            Err(bip324::Error::CiphertextTooSmall) => continue,
            Err(e) => return Err(other(e)),
        }
    }
    let (mut reader, mut writer) = hs.finalize().map_err(other)?.into_split();
    loop {
        let mut len = [0u8; 3];
        c.read_exact(&mut len)?;
        let mut packet = vec![0u8; reader.decypt_len(len)];
        c.read_exact(&mut packet)?;
        let p = reader.decrypt_payload(&packet, None).map_err(other)?;
        if p.packet_type() == PacketType::Decoy {
            continue;
        }
        let m = bip324::serde::deserialize(p.contents()).map_err(other)?;
        {
            let mut s = st.lock().unwrap();
            match s.drop_at {
                Some(0) => {
                    s.drop_at = None;
                    s.dropped = true;
                    return Ok(());
                }
                Some(n) => s.drop_at = Some(n - 1),
                None => {}
            }
        }
        let answers = answer(m, &mut st.lock().unwrap());
        for a in answers {
            let plain = bip324::serde::serialize(a).map_err(other)?;
            let bytes = writer.encrypt_packet(&plain, None, PacketType::Genuine).map_err(other)?;
            c.write_all(&bytes)?;
        }
    }
}

fn answer(m: NetworkMessage, s: &mut Served) -> Vec<NetworkMessage> {
    let mut strange = |m: &dyn std::fmt::Debug| {
        s.strange.push(format!("{m:?}"));
        vec![]
    };
    match m {
        NetworkMessage::Version(_) => {
            let a = Address::new(&SocketAddr::from(([127, 0, 0, 1], 18444)), ServiceFlags::NONE);
            vec![
                NetworkMessage::Version(VersionMessage {
                    version: 70016,
                    services: ServiceFlags::NETWORK
                        | ServiceFlags::WITNESS
                        | ServiceFlags::COMPACT_FILTERS
                        | ServiceFlags::P2P_V2,
                    timestamp: 1_700_000_000,
                    receiver: a.clone(),
                    sender: a,
                    nonce: 7,
                    user_agent: "/Satoshi:29.0.0/".into(),
                    start_height: s.blocks.len() as i32 - 1,
                    relay: true,
                }),
                NetworkMessage::WtxidRelay,
                NetworkMessage::SendAddrV2,
                NetworkMessage::Verack,
            ]
        }
        NetworkMessage::GetHeaders(g) => {
            let from = g.locator_hashes.iter().find_map(|h| s.at.get(h).copied()).unwrap_or(0);
            vec![NetworkMessage::Headers(s.blocks.iter().skip(from + 1).take(2000).map(|b| b.header).collect())]
        }
        NetworkMessage::GetCFHeaders(g) => {
            let from = g.start_height as usize;
            let Some(to) = s.at.get(&g.stop_hash).copied().filter(|t| *t >= from) else { return strange(&g) };
            let previous =
                if from == 0 { FilterHeader::all_zeros() } else { s.headers[from - 1] };
            let hashes: Vec<FilterHash> = s.filters[from..=to].iter().map(|f| FilterHash::hash(&f.content)).collect();
            vec![NetworkMessage::CFHeaders(CFHeaders {
                filter_type: 0,
                stop_hash: g.stop_hash,
                previous_filter_header: previous,
                filter_hashes: hashes,
            })]
        }
        NetworkMessage::GetCFilters(g) => {
            let from = g.start_height as usize;
            let Some(to) = s.at.get(&g.stop_hash).copied().filter(|t| *t >= from) else { return strange(&g) };
            (from..=to)
                .map(|n| {
                    NetworkMessage::CFilter(CFilter {
                        filter_type: 0,
                        block_hash: s.blocks[n].block_hash(),
                        filter: s.filters[n].content.clone(),
                    })
                })
                .collect()
        }
        NetworkMessage::GetData(v) => {
            let mut out = vec![];
            for i in v {
                match i {
                    Inventory::Block(h) | Inventory::WitnessBlock(h) => match s.at.get(&h) {
                        Some(n) => out.push(NetworkMessage::Block(s.blocks[*n].clone())),
                        None => out.push(NetworkMessage::NotFound(vec![i])),
                    },
                    i => s.strange.push(format!("{i:?}")),
                }
            }
            out
        }
        NetworkMessage::Ping(n) => vec![NetworkMessage::Pong(n)],
        _ => vec![],
    }
}

fn http(c: TcpStream, st: Shared) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut w = c.try_clone()?;
    let mut r = BufReader::new(c);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 {
                return Ok(());
            }
            if h.trim().is_empty() {
                break;
            }
        }
        let path = line.split(' ').nth(1).unwrap_or("").to_string();
        let (body, delay) = {
            let mut s = st.lock().unwrap();
            match tweaks(&path, &s) {
                Some((height, _)) if s.fails_at == Some(height) => {
                    s.asked.push(height);
                    s.failed = true;
                    (None, 0)
                }
                Some((height, b)) => {
                    s.asked.push(height);
                    (Some(b), s.delay.get(height).copied().unwrap_or(0))
                }
                None => {
                    s.strange.push(line.clone());
                    (None, 0)
                }
            }
        };
        std::thread::sleep(Duration::from_millis(delay));
        let (status, body) = match body {
            Some(b) => ("200 OK", b),
            None => ("500 Internal Server Error", "{}".to_string()),
        };
        w.write_all(
            format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{body}", body.len())
                .as_bytes(),
        )?;
        w.flush()?;
    }
}

fn tweaks(path: &str, s: &Served) -> Option<(usize, String)> {
    let (p, q) = path.split_once('?').unwrap_or((path, ""));
    let height: usize = p.strip_prefix("/tweaks/")?.parse().ok()?;
    let mut limit = 0u64;
    for kv in q.split('&').filter(|x| !x.is_empty()) {
        limit = kv.strip_prefix("dustLimit=")?.parse().ok()?;
    }
    let v: Vec<String> =
        s.tweaks.get(height)?.iter().filter(|t| t.1 >= limit).map(|t| t.0.to_string()).collect();
    Some((height, serde_json::to_string(&v).unwrap()))
}

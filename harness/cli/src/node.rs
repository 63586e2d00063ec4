//! A bitcoind answering the JSON-RPC calls the wallets make, on the loopback network.
use bitcoin::consensus::encode::serialize_hex;
use bitcoin::{Block, BlockHash, ScriptBuf, Transaction, Txid};
use serde_json::{json, Value};
use std::cell::OnceCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct State {
    /// the best chain from the genesis block on
    pub best: Vec<BlockHash>,
    pub blocks: HashMap<BlockHash, (Block, usize)>,
    pub txs: HashMap<Txid, Transaction>,
    /// methods asked for that are not known here
    pub unknown: Vec<String>,
    /// how many more requests are answered before one fails
    pub fail_in: Option<u64>,
    pub failed: bool,
    /// how many more requests are answered before the wallet is killed
    pub kill_in: Option<u64>,
    pub killed: bool,
    /// the process asking
    pub pid: Arc<AtomicU32>,
}

impl State {
    pub fn add(&mut self, b: Block, height: usize) {
        for t in &b.txdata {
            self.txs.insert(t.compute_txid(), t.clone());
        }
        self.blocks.insert(b.block_hash(), (b, height));
    }
}

type Shared = Arc<Mutex<State>>;

struct Server {
    port: u16,
    state: Arc<Mutex<Shared>>,
}

thread_local! {
    static SERVER: OnceCell<Server> = const { OnceCell::new() };
}

/// This thread's node with a new state: its address and the state.
pub fn serve() -> (String, Shared) {
    SERVER.with(|s| {
        let s = s.get_or_init(|| {
            let l = TcpListener::bind("127.0.0.1:0").expect("a loopback port");
            let port = l.local_addr().unwrap().port();
            let state: Arc<Mutex<Shared>> = Default::default();
            let st = state.clone();
            std::thread::spawn(move || {
                for c in l.incoming().flatten() {
                    let st = st.lock().unwrap().clone();
                    let _ = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                        let _ = connection(c, st);
                    });
                }
            });
            Server { port, state }
        });
        let new: Shared = Arc::new(Mutex::new(State { pid: crate::run::PID.with(|p| p.clone()), ..Default::default() }));
        *s.state.lock().unwrap() = new.clone();
        (format!("127.0.0.1:{}", s.port), new)
    })
}

fn connection(c: TcpStream, state: Shared) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut w = c.try_clone()?;
    let mut r = BufReader::new(c);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut length = 0usize;
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 {
                return Ok(());
            }
            let h = h.trim();
            if h.is_empty() {
                break;
            }
            if let Some(v) = h.to_ascii_lowercase().strip_prefix("content-length:") {
                length = v.trim().parse().unwrap_or(0);
            }
        }
        let mut body = vec![0; length.min(1 << 24)];
        r.read_exact(&mut body)?;
        if kill(&mut state.lock().unwrap()) {
            // until it is gone
            let _ = r.read_to_end(&mut body);
            return Ok(());
        }
        let req: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        let one = |q: &Value| {
            let id = q["id"].clone();
            match call(&mut state.lock().unwrap(), q["method"].as_str().unwrap_or(""), &q["params"]) {
                Ok(v) => json!({"result": v, "error": null, "id": id}),
                Err((code, m)) => json!({"result": null, "error": {"code": code, "message": m}, "id": id}),
            }
        };
        let ans = match &req {
            Value::Array(v) => Value::Array(v.iter().map(one).collect()),
            q => one(q),
        };
        // like bitcoind, an error is an answer with status 500
        let status = if ans.get("error").is_some_and(|e| !e.is_null()) { "500 Internal Server Error" } else { "200 OK" };
        let body = serde_json::to_vec(&ans)?;
        w.write_all(
            format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", body.len()).as_bytes(),
        )?;
        w.write_all(&body)?;
        w.flush()?;
    }
}

fn kill(s: &mut State) -> bool {
    match s.kill_in {
        Some(0) => {
            s.kill_in = None;
            let pid = s.pid.load(Ordering::SeqCst);
            s.killed = pid != 0 && std::process::Command::new("kill").arg(pid.to_string()).status().is_ok_and(|x| x.success());
            return s.killed;
        }
        Some(n) => s.kill_in = Some(n - 1),
        None => {}
    }
    false
}

type Answer = Result<Value, (i64, String)>;

fn call(s: &mut State, method: &str, p: &Value) -> Answer {
    let bad = |m: &str| Err((-8, m.to_string()));
    match s.fail_in {
        Some(0) => {
            s.fail_in = None;
            s.failed = true;
            return Err((-28, "Loading block index...".into()));
        }
        Some(n) => s.fail_in = Some(n - 1),
        None => {}
    }
    match method {
        "getblockcount" => Ok(json!(s.best.len() - 1)),
        "getbestblockhash" => Ok(json!(s.best.last().unwrap().to_string())),
        "getblockhash" => match p[0].as_u64().and_then(|h| s.best.get(h as usize)) {
            Some(h) => Ok(json!(h.to_string())),
            None => bad("Block height out of range"),
        },
        "getblock" | "getblockheader" => {
            let Some((b, height)) =
                p[0].as_str().and_then(|h| h.parse::<BlockHash>().ok()).and_then(|h| s.blocks.get(&h))
            else {
                return Err((-5, "Block not found".into()));
            };
            let verbose = match &p[1] {
                Value::Null => 1,
                Value::Bool(v) => *v as u64,
                v => v.as_u64().unwrap_or(1),
            };
            if verbose == 0 {
                return Ok(json!(if method == "getblock" { serialize_hex(b) } else { serialize_hex(&b.header) }));
            }
            let hash = b.block_hash();
            let in_best = s.best.get(*height) == Some(&hash);
            let mut v = json!({
                "hash": hash.to_string(),
                "confirmations": if in_best { (s.best.len() - height) as i64 } else { -1 },
                "height": height,
                "version": b.header.version.to_consensus(),
                "versionHex": format!("{:08x}", b.header.version.to_consensus()),
                "merkleroot": b.header.merkle_root.to_string(),
                "time": b.header.time,
                "mediantime": b.header.time,
                "nonce": b.header.nonce,
                "bits": format!("{:08x}", b.header.bits.to_consensus()),
                "difficulty": 4.6565423739069247e-10,
                "chainwork": format!("{:064x}", 2 * (height + 1)),
                "nTx": b.txdata.len(),
            });
            if method == "getblock" {
                v["size"] = json!(b.total_size());
                v["strippedsize"] = json!(b.total_size());
                v["weight"] = json!(b.weight().to_wu());
                v["tx"] = json!(b.txdata.iter().map(|t| t.compute_txid().to_string()).collect::<Vec<_>>());
            }
            if *height > 0 {
                v["previousblockhash"] = json!(b.header.prev_blockhash.to_string());
            }
            if in_best {
                if let Some(n) = s.best.get(height + 1) {
                    v["nextblockhash"] = json!(n.to_string());
                }
            }
            Ok(v)
        }
        "getrawtransaction" => {
            let Some(t) = p[0].as_str().and_then(|h| h.parse::<Txid>().ok()).and_then(|h| s.txs.get(&h)) else {
                return Err((-5, "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.".into()));
            };
            let verbose = match &p[1] {
                Value::Null => 0,
                Value::Bool(v) => *v as u64,
                v => v.as_u64().unwrap_or(0),
            };
            if verbose == 0 {
                return Ok(json!(serialize_hex(t)));
            }
            Ok(verbose_tx(t))
        }
        "getrawmempool" => Ok(if p[0] == json!(true) { json!({}) } else { json!([]) }),
        "getblockchaininfo" | "getnetworkinfo" => {
            s.unknown.push(method.into());
            Err((-32601, "Method not found".into()))
        }
        m => {
            s.unknown.push(m.into());
            Err((-32601, "Method not found".into()))
        }
    }
}

fn script_type(s: &ScriptBuf) -> &'static str {
    let b = s.as_bytes();
    if s.is_p2pkh() {
        "pubkeyhash"
    } else if s.is_p2sh() {
        "scripthash"
    } else if s.is_p2wpkh() {
        "witness_v0_keyhash"
    } else if s.is_p2wsh() {
        "witness_v0_scripthash"
    } else if s.is_p2tr() {
        "witness_v1_taproot"
    } else if b == [0x51, 2, 0x4e, 0x73] {
        // since Bitcoin Core 28
        "anchor"
    } else if s.is_witness_program() {
        "witness_unknown"
    } else if s.is_p2pk() {
        "pubkey"
    } else if s.is_op_return() && b[1..].iter().all(|x| *x <= 0x60) {
        "nulldata"
    } else {
        "nonstandard"
    }
}

fn verbose_tx(t: &Transaction) -> Value {
    let hex = |b: &[u8]| refmodel::hex(b);
    let vin: Vec<Value> = t
        .input
        .iter()
        .map(|i| {
            let mut v = json!({"sequence": i.sequence.0});
            if i.previous_output.is_null() {
                v["coinbase"] = json!(hex(i.script_sig.as_bytes()));
            } else {
                v["txid"] = json!(i.previous_output.txid.to_string());
                v["vout"] = json!(i.previous_output.vout);
                v["scriptSig"] = json!({"asm": i.script_sig.to_asm_string(), "hex": hex(i.script_sig.as_bytes())});
            }
            if !i.witness.is_empty() {
                v["txinwitness"] = json!(i.witness.iter().map(hex).collect::<Vec<_>>());
            }
            v
        })
        .collect();
    let vout: Vec<Value> = t
        .output
        .iter()
        .enumerate()
        .map(|(n, o)| {
            json!({
                "value": o.value.to_btc(),
                "n": n,
                "scriptPubKey": {
                    "asm": o.script_pubkey.to_asm_string(),
                    "desc": format!("raw({})", hex(o.script_pubkey.as_bytes())),
                    "hex": hex(o.script_pubkey.as_bytes()),
                    "type": script_type(&o.script_pubkey),
                },
            })
        })
        .collect();
    json!({
        "in_active_chain": true,
        "hex": serialize_hex(t),
        "txid": t.compute_txid().to_string(),
        "hash": t.compute_wtxid().to_string(),
        "size": t.total_size(),
        "vsize": t.vsize(),
        "weight": t.weight().to_wu(),
        "version": t.version.0 as u32,
        "locktime": t.lock_time.to_consensus_u32(),
        "vin": vin,
        "vout": vout,
        "confirmations": 1,
    })
}

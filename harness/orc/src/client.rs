//! C28: the client of the tweak server.
use crate::mock::*;
use bdk_sp_oracles::tweaks::blindbit::{BlindbitClient, BlindbitError};
use bitcoin::secp256k1::PublicKey;
use bitcoin::{Amount, Network};
use engine::*;
use refmodel::*;
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C28",
        "base URLs with paths of up to 3 segments with and without trailing slash, any height and dust limit, right answers in any framing, and answers that are cut, wrong or failed; non-trivial when a list of keys is asked for",
        8_000,
        100_000,
        client,
    )
    .pinned(&[("failed_with_a_list", pinned_failed)])]
}

const SECS: u64 = 60;

fn base_path(s: &mut Src) -> String {
    let mut p = String::new();
    for _ in 0..s.size(0, 3) {
        p.push('/');
        p.push_str(s.pick(&["blindbit", "v1", "a.b", "~x", "tweaks", "info", "%20", "A-B_c", "0", "block-height"]));
    }
    p
}

fn dress(s: &mut Src, mut a: Answer) -> Answer {
    a.framing = *s.pick(&[Framing::Length, Framing::Chunked, Framing::Close]);
    a.pieces = *s.pick(&[1, 1, 1, 2, 7]);
    a.content_type = *s.pick(&[
        Some("application/json; charset=utf-8"),
        Some("application/json"),
        Some("text/plain"),
        None,
    ]);
    a
}

/// A wrong answer made from a right one.
fn spoil(s: &mut Src, right: &str, list: bool) -> (&'static str, Answer) {
    let body = |b: &str| Answer::ok(b);
    match s.below(9) {
        0 => ("empty", body("")),
        1 => {
            let n = s.below(right.len() as u64) as usize;
            ("truncated text", body(&right[..n]))
        }
        2 => {
            // fewer bytes than announced
            let n = s.below(right.len() as u64) as usize;
            let mut a = body(right);
            a.cut = Some(n);
            a.framing = if s.chance(1, 2) { Framing::Length } else { Framing::Chunked };
            return ("cut off", a);
        }
        3 => ("no answer", Answer { hang_up: true, ..body("") }),
        4 => {
            let mut a = body(*s.pick(&["{\"error\":\"could not retrieve data\"}", "internal error", "null"]));
            a.status = *s.pick(&[400, 404, 429, 500, 502, 503, 200]);
            ("error message", a)
        }
        5 => {
            let mut a = body(right);
            a.status = *s.pick(&[400, 401, 403, 404, 410, 429, 500, 502, 503]);
            ("error status", a)
        }
        6 => {
            let n = s.below(right.len() as u64 + 1) as usize;
            let mut t = right.to_string();
            t.insert_str(n, *s.pick(&["x", "\u{0}", "]", "}", "\"", "é", ":"]));
            // within a string of the list or an unread string this need not be wrong: only lists are used
            if list {
                ("surplus character", body(&t))
            } else {
                ("trailing text", body(&format!("{right}x")))
            }
        }
        7 => ("other type", body(*s.pick(&["3", "\"x\"", "true", "{}", "[[]]", "[\"1\"]", "[null]"]))),
        _ => {
            if list {
                // a key that is none
                let mut k = s.bytes32().to_vec();
                k.insert(0, *s.pick(&[0, 1, 4, 5, 0xff]));
                if s.chance(1, 2) {
                    k = vec![2; *s.pick(&[0usize, 1, 32, 34, 64])];
                }
                if s.chance(1, 4) {
                    // no point of the curve
                    k = [&[2u8][..], &[0u8; 31], &[5]].concat();
                }
                let t = if right == "[]" {
                    format!("[\"{}\"]", hex(&k))
                } else {
                    format!("{},\"{}\"]", &right[..right.len() - 1], hex(&k))
                };
                ("invalid key", body(&t))
            } else {
                ("wrong height", body(&right.replace("\"height\":", "\"height\":-")))
            }
        }
    }
}

fn got<T>(secs: u64, f: impl std::future::Future<Output = Result<T, BlindbitError>>) -> Result<Result<T, BlindbitError>, Fail> {
    match guarded(|| run(secs, f))? {
        Some(r) => Ok(r),
        None => fail("no result", "the client does not come back"),
    }
}

fn client(s: &mut Src, cx: &mut Cx) -> R {
    let path = base_path(s);
    let slash = s.chance(1, 2);
    let height = match s.weighted(&[2, 1]) {
        0 => s.below(900_000) as u32,
        _ => *s.pick(&[0, 1, 499_999_999, 500_000_000, u32::MAX]),
    };
    let dust = match s.weighted(&[2, 1]) {
        0 => s.below(5000),
        _ => *s.pick(&[0, 1, 1000, u32::MAX as u64, 1 << 40, u64::MAX]),
    };
    let what = s.weighted(&[5, 2, 2]);
    let space = |s: &mut Src, t: String| if s.chance(1, 4) { format!(" \n{t}\r\n") } else { t };

    let keys: Vec<PublicKey> = (0..match s.weighted(&[6, 1]) {
        0 => s.size(0, 6),
        _ => s.size(0, 300),
    })
        .map(|_| pt_g(Some(sk_small(1 + s.below(5000)))).unwrap())
        .collect();
    let tip = s.below(499_999_999);
    let network = *s.pick(&[Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest]);
    let flags: [bool; 4] = [s.chance(1, 2), s.chance(1, 2), s.chance(1, 2), s.chance(1, 2)];
    let (name, right) = match what {
        0 => {
            let v: Vec<String> = keys.iter().map(|k| format!("\"{}\"", hex(&k.serialize()))).collect();
            let sep = *s.pick(&[",", ", ", ",\n"]);
            ("tweaks", format!("[{}]", v.join(sep)))
        }
        1 => ("block-height", format!("{{\"height\":{tip}}}")),
        _ => {
            let mut fields = vec![
                format!("\"network\":\"{network}\""),
                format!("\"height\":{tip}"),
                format!("\"tweaks_only\":{}", flags[0]),
                format!("\"tweaks_full_basic\":{}", flags[1]),
                format!("\"tweaks_full_with_dust_filter\":{}", flags[2]),
                format!("\"tweaks_cut_through_with_dust_filter\":{}", flags[3]),
            ];
            s.shuffle(&mut fields);
            ("info", format!("{{{}}}", fields.join(",")))
        }
    };
    let target = match what {
        0 => format!("{path}/tweaks/{height}?dustLimit={dust}"),
        _ => format!("{path}/{name}"),
    };
    let wrong = s.chance(1, 3);
    let (how, answer) = if wrong {
        let (how, a) = spoil(s, &right, what == 0);
        if a.cut.is_some() {
            (how, a)
        } else {
            (how, dress(s, a))
        }
    } else {
        let t = space(s, right.clone());
        ("right", dress(s, Answer::ok(t)))
    };
    cx.label(how);
    let wrong_by = answer.clone();
    let (host, state) = serve(HashMap::from([(target.clone(), answer)]));
    let url = format!("{host}{path}{}", if slash { "/" } else { "" });
    let shown = || {
        format!(
            "{name} below {path:?}{}, answer: {how}, {} {:?} {}",
            if slash { " with slash" } else { "" },
            wrong_by.status,
            wrong_by.framing,
            String::from_utf8_lossy(&wrong_by.body)
        )
    };
    cx.note(shown);
    let c = match guarded(|| BlindbitClient::new(url.clone()))? {
        Ok(c) => c,
        Err(e) => return fail("host refused", format!("{url}: {e:?}")),
    };
    let refused = |e: Option<&BlindbitError>| -> R {
        match e {
            Some(e) if !wrong => fail("right answer refused", format!("{}: {e:?}", shown())),
            None if wrong => fail("wrong answer taken", shown()),
            _ => Ok(()),
        }
    };
    match what {
        0 => {
            let r = got(SECS, c.tweaks(height, Amount::from_sat(dust)))?;
            refused(r.as_ref().err())?;
            if let Ok(v) = r {
                ensure_eq!(v, keys, "keys");
            }
            cx.nontrivial();
        }
        1 => {
            let r = got(SECS, c.block_height())?;
            refused(r.as_ref().err())?;
            if let Ok(h) = r {
                ensure_eq!(h.to_consensus_u32() as u64, tip, "height");
            }
        }
        _ => {
            let r = got(SECS, c.info())?;
            refused(r.as_ref().err())?;
            if let Ok(i) = r {
                ensure_eq!(i.network, network, "network");
                ensure_eq!(i.height.to_consensus_u32() as u64, tip, "height");
                let f = [
                    i.tweaks_only,
                    i.tweaks_full_basic,
                    i.tweaks_full_with_dust_filter,
                    i.tweaks_cut_through_with_dust_filter,
                ];
                ensure_eq!(f, flags, "what the server has");
            }
        }
    }
    let log = state.lock().unwrap().log.clone();
    ensure!(!log.is_empty(), "nothing asked", "{}", shown());
    for l in &log {
        ensure_eq!(*l, ("GET".to_string(), target.clone()), "request");
    }
    Ok(())
}

fn pinned_failed() -> R {
    let a = Answer { status: 500, ..Answer::ok("[]") };
    let (host, _) = serve(HashMap::from([("/tweaks/5?dustLimit=1000".to_string(), a)]));
    let c = BlindbitClient::new(host).expect("a host");
    let r = got(SECS, c.tweaks(5, Amount::from_sat(1000)))?;
    ensure!(r.is_err(), "wrong answer taken", "a list with status 500: {r:?}");
    Ok(())
}

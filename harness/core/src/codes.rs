//! C01 to C04: silent payment codes.
use bdk_sp::encoding::SilentPaymentCode;
use bitcoin::secp256k1::{Scalar, SecretKey};
use bitcoin::Network;
use engine::*;
use refmodel::{bech, gen, *};

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C01",
            "two keys (random, small, near the order, powers of two; sometimes equal or negated) and one of five networks; every case is non-trivial",
            600_000,
            6_000_000,
            roundtrip,
        ),
        Prop::new(
            "C02",
            "strings: valid codes of versions 0-31 with payloads of 0-640 bytes, non-canonical padding, broken keys, prefixes, case, checksums and lengths, and arbitrary text; non-trivial when the string has a correct bech32m checksum",
            1_200_000,
            12_000_000,
            parser,
        )
        .pinned(&[("empty_data_part", pinned_empty), ("every_short_string", pinned_short)]),
        Prop::new(
            "C03",
            "a code, label numbers (small, boundary, random), other numbers and scan keys; non-trivial when the label is not cancelling",
            160_000,
            1_600_000,
            labels,
        ),
        Prop::new(
            "C04",
            "two codes differing in scan key, spend key or network, and the scripts of payments to them; every case is non-trivial",
            160_000,
            1_600_000,
            placeholders,
        ),
    ]
}

fn network(s: &mut Src) -> (Network, &'static str) {
    *s.pick(&[
        (Network::Bitcoin, "sp"),
        (Network::Testnet, "tsp"),
        (Network::Testnet4, "tsp"),
        (Network::Signet, "tsp"),
        (Network::Regtest, "sprt"),
    ])
}

fn class(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "sp",
        Network::Testnet | Network::Testnet4 | Network::Signet => "tsp",
        Network::Regtest => "sprt",
    }
}

fn two_keys(s: &mut Src) -> (SecretKey, SecretKey) {
    let a = gen::secret(s);
    let b = match s.weighted(&[4, 1, 1]) {
        0 => gen::secret(s),
        1 => a,
        _ => a.negate(),
    };
    (a, b)
}

fn roundtrip(s: &mut Src, cx: &mut Cx) -> R {
    let (a, b) = two_keys(s);
    let (net, hrp) = network(s);
    let (scan, spend) = (pt_g(Some(a)).unwrap(), pt_g(Some(b)).unwrap());
    let code = SilentPaymentCode::new_v0(scan, spend, net);
    let text = code.to_string();
    cx.nontrivial();
    cx.label(hrp);
    cx.note(|| format!("{net:?} {text}"));
    let want = bech::encode_code(hrp, 0, &[scan.serialize(), spend.serialize()].concat());
    ensure_eq!(text, want, "code text");
    ensure_eq!(format!("{code}"), want, "code text by format");
    for t in [text.clone(), text.to_uppercase()] {
        let back = SilentPaymentCode::try_from(t.as_str());
        let Ok(back) = back else { return fail("own code refused", format!("{t}: {back:?}")) };
        ensure_eq!(back.version(), 0, "version read back");
        ensure_eq!(back.scan, scan, "scan key read back");
        ensure_eq!(back.spend, spend, "spend key read back");
        ensure_eq!(class(back.network), hrp, "network read back");
        ensure_eq!(back.to_string(), text, "text written again");
    }
    Ok(())
}

fn check_parse(text: &str) -> R {
    let want = bech::parse_code(text);
    let got = guarded(|| SilentPaymentCode::try_from(text))?;
    match (&got, &want) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(c), Ok(w)) => {
            ensure_eq!(c.version(), w.version, "parsed version");
            ensure_eq!(c.scan, w.scan, "parsed scan key");
            ensure_eq!(c.spend, w.spend, "parsed spend key");
            ensure_eq!(class(c.network), w.hrp, "parsed network");
            Ok(())
        }
        (Ok(_), Err(why)) => fail(format!("accepted although: {why}"), text),
        (Err(e), Ok(w)) => fail("valid code refused", format!("{text}: {e}, should be {w:?}")),
    }
}

fn pinned_empty() -> R {
    for hrp in ["sp", "tsp", "sprt", "x"] {
        check_parse(&bech::encode_groups(hrp, &[], bech::BECH32M))?;
    }
    Ok(())
}

fn pinned_short() -> R {
    for hrp in ["", "sp", "tsp", "sprt"] {
        for groups in 0..8 {
            for g in 0..32 {
                check_parse(&bech::encode_groups(hrp, &vec![g; groups], bech::BECH32M))?;
            }
        }
    }
    check_parse("")?;
    check_parse("1")?;
    check_parse("sp")?;
    check_parse("sp1")
}

fn parser(s: &mut Src, cx: &mut Cx) -> R {
    let text = if s.chance(1, 8) {
        // arbitrary text
        let n = s.size(0, 24);
        let mut t = String::new();
        for _ in 0..n {
            match s.weighted(&[6, 1, 1, 1]) {
                0 => t.push(bech::CHARSET[s.below(32) as usize] as char),
                1 => t.push('1'),
                2 => t.push(s.below(128) as u8 as char),
                _ => t.push(char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
            }
        }
        if s.chance(1, 2) {
            t.insert_str(0, s.pick::<&str>(&["sp1", "tsp1q", "sprt1", "1"]));
        }
        t
    } else {
        let hrp: &str = *s.pick(&["sp", "tsp", "sprt", "bc", "tb", "s", "spp", "sprt1", "p", "sp1sp"]);
        let hrp = if s.chance(2, 3) { *s.pick(&["sp", "tsp", "sprt"]) } else { hrp };
        let version = match s.weighted(&[3, 2, 1]) {
            0 => 0,
            1 => 1 + s.below(30) as u8,
            _ => 31,
        };
        let key = |s: &mut Src| -> Vec<u8> {
            let mut k = pt_g(Some(gen::secret(s))).unwrap().serialize().to_vec();
            match s.weighted(&[10, 1, 1, 1]) {
                0 => {}
                1 => k[0] = s.u8(),
                2 => k[1..].copy_from_slice(&s.bytes32()),
                _ => {
                    let b = gen::scalar_bytes(s);
                    k[1..].copy_from_slice(&b)
                }
            }
            k
        };
        let mut payload = key(s);
        payload.extend(key(s));
        match s.weighted(&[5, 1, 1, 1]) {
            0 => {}
            1 => {
                let n = s.size(0, 67);
                payload.truncate(n)
            }
            2 => {
                let n = s.size(1, 5);
                payload.extend(s.bytes(n))
            }
            _ => {
                // around the longest strings there may be
                let n = if s.chance(1, 2) { s.size(6, 574) } else { s.size(560, 572) };
                let fill = s.u8();
                payload.extend(vec![fill; n])
            }
        }
        let mut groups = vec![version];
        groups.extend(bech::to_groups(&payload));
        match s.weighted(&[6, 1, 1, 1]) {
            0 => {}
            1 => {
                // padding bits that are not zero, where there are any
                *groups.last_mut().unwrap() |= 1 << s.below(5);
            }
            2 => {
                for _ in 0..s.size(1, 3) {
                    let g = if s.chance(1, 2) { 0 } else { s.below(32) as u8 };
                    groups.push(g)
                }
            }
            _ => {
                let n = s.size(0, groups.len());
                groups.truncate(n);
            }
        }
        let constant = match s.weighted(&[10, 1, 1]) {
            0 => bech::BECH32M,
            1 => 1,
            _ => s.u32() & 0x3fff_ffff,
        };
        let mut t = bech::encode_groups(hrp, &groups, constant);
        match s.weighted(&[8, 2, 1, 1, 1]) {
            0 => {}
            1 => t = t.to_uppercase(),
            2 => {
                let i = s.below(t.len() as u64) as usize;
                let c = t.as_bytes()[i].to_ascii_uppercase() as char;
                t.replace_range(i..i + 1, &c.to_string());
            }
            3 => {
                let i = s.below(t.len() as u64) as usize;
                let c = bech::CHARSET[s.below(32) as usize] as char;
                t.replace_range(i..i + 1, &c.to_string());
            }
            _ => {
                let i = s.below(t.len() as u64 + 1) as usize;
                t.insert(i, *s.pick(&[' ', '1', 'q', 'é', '\0', '\n']));
            }
        }
        t
    };
    let want = bech::parse_code(&text);
    cx.note(|| format!("{text:?}: {want:?}"));
    match &want {
        Ok(p) => {
            cx.nontrivial();
            cx.label(if p.version == 0 { "accepted v0" } else { "accepted later version" });
        }
        Err(e) => {
            cx.label(e);
            if ["no version", "padding", "length of version 0", "length", "version 31", "scan key", "spend key", "unknown prefix"].contains(e) {
                cx.nontrivial();
            }
        }
    }
    check_parse(&text)
}

fn labels(s: &mut Src, cx: &mut Cx) -> R {
    let (a, b) = two_keys(s);
    let (net, _) = network(s);
    let code = SilentPaymentCode::new_v0(pt_g(Some(a)).unwrap(), pt_g(Some(b)).unwrap(), net);
    let m = gen::label_number(s);
    let label = SilentPaymentCode::get_label(a, m);
    cx.note(|| format!("scan secret {}, label {m}", hex(&a.secret_bytes())));
    ensure_eq!(label.to_be_bytes(), label_scalar(&a, m).secret_bytes(), "label scalar");
    ensure_eq!(bdk_sp::hashes::get_label_tweak(a, m).to_be_bytes(), label.to_be_bytes(), "label tweak");
    cx.nontrivial();

    let add = |c: &SilentPaymentCode, k: SecretKey| c.add_label(Scalar::from(k));
    let labelled = match code.add_label(label) {
        Ok(c) => c,
        Err(e) => return fail("label refused", e.to_string()),
    };
    let moved = pt_add(Some(code.spend), pt_g(sc(&label.to_be_bytes())));
    ensure_eq!(Some(labelled.spend), moved, "labelled spend key");
    ensure_eq!(labelled.scan, code.scan, "scan key of the labelled code");
    ensure_eq!(labelled.network, code.network, "network of the labelled code");
    ensure_eq!(labelled.version(), code.version(), "version of the labelled code");
    ensure_eq!(SilentPaymentCode::try_from(labelled.to_string().as_str()).map(|c| c.spend).ok(), moved, "labelled code parsed");

    let other = if s.chance(1, 2) { m ^ 1 << s.below(32) } else { gen::label_number(s) };
    if other != m {
        let o = code.add_label(SilentPaymentCode::get_label(a, other));
        ensure!(o.as_ref().ok().map(|o| o.spend) != Some(labelled.spend), "labels give the same code", "{m} and {other}");
    }
    let other_scan = gen::secret(s);
    if other_scan != a {
        ensure!(
            SilentPaymentCode::get_label(other_scan, m) != label,
            "one label for two scan keys",
            "{m}"
        );
    }

    let l = label_scalar(&a, m);
    let back = add(&labelled, l.negate());
    ensure_eq!(back.ok().as_ref(), Some(&code), "label taken back");
    ensure!(add(&code, b.negate()).is_err(), "cancelling label accepted", "spend key taken away");
    // two labels in either order
    let l2 = gen::secret(s);
    let xy = add(&code, l).and_then(|c| add(&c, l2));
    let yx = add(&code, l2).and_then(|c| add(&c, l));
    if let (Ok(x), Ok(y)) = (&xy, &yx) {
        ensure_eq!(x, y, "order of labels");
    }
    ensure_eq!(code.add_label(Scalar::ZERO).ok().as_ref(), Some(&code), "zero label");
    Ok(())
}

fn placeholders(s: &mut Src, cx: &mut Cx) -> R {
    let (a, b) = two_keys(s);
    let (net, _) = network(s);
    let (net2, _) = network(s);
    let code = |a: SecretKey, b: SecretKey, n| SilentPaymentCode::new_v0(pt_g(Some(a)).unwrap(), pt_g(Some(b)).unwrap(), n);
    let c = code(a, b, net);
    cx.nontrivial();
    cx.note(|| format!("{c}"));
    let spk = c.get_placeholder_p2tr_spk();
    ensure!(
        is_p2tr(spk.as_bytes()) && even(&spk.as_bytes()[2..]).is_some(),
        "placeholder is not a taproot script",
        "{spk:?}"
    );
    ensure_eq!(c.get_placeholder_p2tr_spk(), spk, "placeholder made twice");
    ensure_eq!(code(a, b, net2).get_placeholder_p2tr_spk(), spk, "placeholder on another network");
    let other = gen::random_secret(s);
    let others = [
        code(a, other, net),
        code(other, b, net),
        code(b, a, net),
        code(a.negate(), b, net),
        code(a, b.negate(), net),
        code(a, b, net).add_label(SilentPaymentCode::get_label(a, gen::label_number(s))).unwrap(),
    ];
    for o in &others {
        if (o.scan, o.spend) != (c.scan, c.spend) {
            ensure!(o.get_placeholder_p2tr_spk() != spk, "one placeholder for two codes", "{c} and {o}");
        }
    }
    // nothing that is ever paid to looks like it
    let partial = gen::random_secret(s);
    for (code, keys) in bdk_sp::send::create_silentpayment_scriptpubkeys(partial, &[c.clone(), c.clone()]) {
        for k in keys {
            ensure!(p2tr(&k.serialize()) != spk, "placeholder is a final script", "{code}");
        }
    }
    for k in [c.scan, c.spend] {
        ensure!(p2tr(&xonly(&k)) != spk, "placeholder is a key of the code", "{c}");
    }
    Ok(())
}

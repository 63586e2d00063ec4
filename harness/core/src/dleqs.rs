//! C18 and C19: discrete-log equality proofs.
use bitcoin::secp256k1::{PublicKey, SecretKey};
use dleq::{dleq_generate_proof, dleq_verify_proof};
use engine::*;
use refmodel::{bip374, gen, *};

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C18",
            "a secret, a base point and a generator (the standard one, small multiples, random, equal ones), randomness and an optional message, each from a pool with extremes; every case is non-trivial",
            120_000,
            1_200_000,
            complete,
        ),
        Prop::new(
            "C19",
            "an honest proof with one to three changes (bits, bytes or scalars of the proof, points negated, replaced, swapped or moved, the message changed or left out), or arbitrary proof bytes; non-trivial when the statement is no longer the one proved",
            200_000,
            2_000_000,
            sound,
        )
        .pinned(&[("every_bit", pinned_bits)]),
    ]
}

fn point(s: &mut Src) -> PublicKey {
    pt_g(Some(gen::secret(s))).unwrap()
}

fn generator(s: &mut Src) -> PublicKey {
    if s.chance(1, 2) {
        g()
    } else {
        point(s)
    }
}

fn bytes(s: &mut Src) -> [u8; 32] {
    match s.weighted(&[4, 1, 1]) {
        0 => s.bytes32(),
        1 => [0; 32],
        _ => [0xff; 32],
    }
}

fn message(s: &mut Src) -> Option<[u8; 32]> {
    s.chance(1, 2).then(|| bytes(s))
}

fn complete(s: &mut Src, cx: &mut Cx) -> R {
    let (a, b, gen, r, m) = (gen::secret(s), point(s), generator(s), bytes(s), message(s));
    cx.nontrivial();
    cx.label(if m.is_some() { "message" } else { "no message" });
    cx.label_if(gen == g(), "standard generator");
    cx.note(|| format!("a {} B {b} G {gen} r {} m {:?}", hex(&a.secret_bytes()), hex(&r), m.map(|m| hex(&m))));
    let proof = match guarded(|| dleq_generate_proof(a, b, &r, gen, m.as_ref()))? {
        Ok(p) => p,
        Err(e) => return fail("no proof", e.to_string()),
    };
    ensure_eq!(hex(&proof), hex(&bip374::prove(a, b, &r, gen, m.as_ref())), "proof");
    let (pa, pc) = (pt_mul(Some(gen), Some(a)).unwrap(), pt_mul(Some(b), Some(a)).unwrap());
    let v = guarded(|| dleq_verify_proof(pa, b, pc, &proof, gen, m.as_ref()))?;
    ensure!(matches!(v, Ok(true)), "own proof does not verify", "{v:?}");
    assert!(bip374::verify(pa, b, pc, &proof, gen, m.as_ref()));
    let again = dleq_generate_proof(a, b, &r, gen, m.as_ref());
    ensure!(again.as_ref().ok() == Some(&proof), "not deterministic", "");
    let r2 = bytes(s);
    if r2 != r {
        let p2 = dleq_generate_proof(a, b, &r2, gen, m.as_ref());
        ensure!(matches!(&p2, Ok(p) if p[..32] != proof[..32]), "randomness does not change the proof", "");
    }
    let m2 = message(s);
    if m2 != m {
        let p2 = dleq_generate_proof(a, b, &r, gen, m2.as_ref());
        ensure!(matches!(&p2, Ok(p) if p[..32] != proof[..32]), "message does not change the proof", "");
    }
    Ok(())
}

#[derive(Clone, PartialEq)]
struct Claim {
    a: PublicKey,
    b: PublicKey,
    c: PublicKey,
    g: PublicKey,
    m: Option<[u8; 32]>,
    proof: [u8; 64],
}

impl Claim {
    fn verify(&self) -> Result<bool, Fail> {
        let v = guarded(|| dleq_verify_proof(self.a, self.b, self.c, &self.proof, self.g, self.m.as_ref()))?;
        Ok(matches!(v, Ok(true)))
    }
    fn reference(&self) -> bool {
        bip374::verify(self.a, self.b, self.c, &self.proof, self.g, self.m.as_ref())
    }
}

fn honest(a: SecretKey, b: PublicKey, g: PublicKey, r: [u8; 32], m: Option<[u8; 32]>) -> Claim {
    Claim {
        a: pt_mul(Some(g), Some(a)).unwrap(),
        b,
        c: pt_mul(Some(b), Some(a)).unwrap(),
        g,
        m,
        proof: bip374::prove(a, b, &r, g, m.as_ref()),
    }
}

fn pinned_bits() -> R {
    let c = honest(sk_small(12345), pt_g(Some(sk_small(77))).unwrap(), g(), [3; 32], Some([4; 32]));
    ensure!(c.verify()?, "honest proof refused", "");
    for bit in 0..512 {
        let mut d = c.clone();
        d.proof[bit / 8] ^= 1 << (bit % 8);
        ensure!(!d.verify()?, "changed proof verifies", "bit {bit}");
    }
    for bit in 0..256 {
        let mut d = c.clone();
        d.m.as_mut().unwrap()[bit / 8] ^= 1 << (bit % 8);
        ensure!(!d.verify()?, "changed message verifies", "bit {bit}");
    }
    Ok(())
}

fn sound(s: &mut Src, cx: &mut Cx) -> R {
    let (a, b, gen, r, m) = (gen::secret(s), point(s), generator(s), bytes(s), message(s));
    let good = honest(a, b, gen, r, m);
    let mut c = good.clone();
    let mut what = vec![];
    for _ in 0..s.size(1, 3) {
        let w = s.below(13);
        what.push(w);
        let other = point(s);
        let near = |s: &mut Src, p: PublicKey| -> PublicKey {
            match s.below(3) {
                0 => p.negate(secp()),
                1 => pt_add(Some(p), Some(g())).unwrap_or(other),
                _ => other,
            }
        };
        match w {
            0 => {
                let bit = s.below(512) as usize;
                c.proof[bit / 8] ^= 1 << (bit % 8);
            }
            1 => {
                let half = s.below(2) as usize * 32;
                let b = gen::scalar_bytes(s);
                c.proof[half..half + 32].copy_from_slice(&b);
            }
            2 => {
                // a scalar plus the order, where it fits, is the same scalar written differently
                let half = s.below(2) as usize * 32;
                let mut small = [0u8; 32];
                small[31] = s.u8();
                let mut carry = 0u16;
                for i in (0..32).rev() {
                    let v = ORDER[i] as u16 + small[i] as u16 + carry;
                    c.proof[half + i] = v as u8;
                    carry = v >> 8;
                }
            }
            3 => {
                let (x, y) = c.proof.split_at_mut(32);
                x.swap_with_slice(y);
            }
            4 => c.a = near(s, c.a),
            5 => c.b = near(s, c.b),
            6 => c.c = near(s, c.c),
            7 => c.g = near(s, c.g),
            8 => std::mem::swap(&mut c.a, &mut c.c),
            9 => std::mem::swap(&mut c.b, &mut c.g),
            10 => std::mem::swap(&mut c.a, &mut c.b),
            11 => {
                c.m = match c.m {
                    Some(mut m) if s.chance(2, 3) => {
                        m[s.below(32) as usize] ^= 1 << s.below(8);
                        Some(m)
                    }
                    Some(_) => None,
                    None => Some(bytes(s)),
                }
            }
            _ => {
                // an honest proof for points of unequal logarithms: each half right for one of them
                let a2 = gen::secret(s);
                c.c = pt_mul(Some(c.b), Some(a2)).unwrap();
            }
        }
    }
    cx.note(|| format!("changes {what:?}"));
    // what stays the same statement: nothing changed in the end
    let same = c == good;
    if !same {
        cx.nontrivial();
    }
    let want = c.reference();
    let got = c.verify()?;
    cx.label(match (same, want) {
        (true, _) => "changed back",
        (false, true) => "still a valid proof",
        (false, false) => "invalid",
    });
    ensure!(got == want, if want { "valid proof refused" } else { "invalid proof accepted" }, "changes {what:?}");
    // a swap of both A/C and B/G proves the same equality with its roles exchanged only if the hash says so
    Ok(())
}

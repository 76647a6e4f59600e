use common::btc::*;
use common::texts::*;
use ib::*;
use subject::address::Address;

/// The address as version byte and hash, whatever its type looks like.
fn known(a: &Addr) -> Vec<u8> {
    match a {
        Addr::Pkh(h) => [&[0u8][..], h].concat(),
        Addr::Sh(h) => [&[5u8][..], h].concat(),
    }
}

fn script(s: &[u8]) -> R<bool> {
    let want = Addr::of_script(s);
    let got = sut(|| format!("from_script({})", hex(s)), || Address::from_script(s).ok().map(|a| (a.to_vec(), a.to_string())))?;
    match (&want, &got) {
        (None, None) => Ok(false),
        (Some(w), Some((v, t))) if known(w) == *v && w.text() == *t => Ok(true),
        _ => bad(format!("script {} is {:?}, attributed to {:?}", hex(s), want.map(|a| a.text()), got.map(|g| g.1))),
    }
}

fn text(t: &str) -> R<bool> {
    let want = Addr::of_text(t.as_bytes());
    let got = sut(|| format!("from_string({:?})", t), || Address::from_string(t).ok().map(|a| (a.to_vec(), a.to_string(), format!("{}", a))))?;
    match (&want, &got) {
        (None, None) => Ok(false),
        (Some(w), Some((v, s, d))) => {
            if known(w) != *v {
                return bad(format!("{:?} parsed as {}", t, hex(v)));
            }
            if s != t || d != t {
                return bad(format!("{:?} is written back as {:?} / {:?}", t, s, d));
            }
            Ok(true)
        }
        _ => bad(format!("{:?} is {}, but was {}", t, if want.is_some() { "an address" } else { "not an address" }, match got {
            Some(g) => format!("accepted as {}", g.1),
            None => "rejected".into(),
        })),
    }
}

fn check(k: &Check) {
    bb::wide::c12(k);
    k.watch(120);
    k.rule("scripts, texts: a standard script / a valid address or something at most a few edits away | neighbourhoods: every single-character change of an address, every single-byte change of a script");
    k.section("scripts", k.n(400000, 20000000), 8, script_plan, |p: &ScriptPlan, info: &mut Info| {
        let s = p.script();
        info.nontrivial = p.base < 2;
        info.label(if script(&s)? { "standard" } else { "other" });
        Ok(())
    });
    k.section("texts", k.n(600000, 20000000), 8, text_plan, |p: &TextPlan, info: &mut Info| {
        info.nontrivial = p.free.is_none();
        info.label(if text(&p.text())? { "address" } else { "not an address" });
        Ok(())
    });
    k.section("payloads", k.n(150000, 5000000), 8, || (prop_oneof![3 => prop::collection::vec(any::<u8>(), 21), 1 => prop::collection::vec(any::<u8>(), 0..40)], prop_oneof![Just(0u8), Just(5u8), any::<u8>()]), |v: &(Vec<u8>, u8), info: &mut Info| {
        let mut b = v.0.clone();
        if let Some(x) = b.first_mut() {
            *x = v.1;
        }
        let ok = b.len() == 21 && (b[0] == 0 || b[0] == 5);
        let got = sut(|| format!("from_slice({})", hex(&b)), || Address::from_slice(&b).ok().map(|a| a.to_vec()))?;
        info.nontrivial = b.len() == 21;
        info.label(if ok { "valid" } else { "invalid" });
        if got != ok.then(|| b.clone()) {
            return bad(format!("payload {} gave {:?}", hex(&b), got.map(|g| hex(&g))));
        }
        Ok(())
    });
    k.section("neighbourhoods", k.n(300, 10000), 8, || (bytes20(), any::<bool>()), |v: &([u8; 20], bool), info: &mut Info| {
        let a = if v.1 { Addr::Sh(v.0) } else { Addr::Pkh(v.0) };
        let t: Vec<u8> = a.text().into_bytes();
        info.nontrivial = true;
        if !text(&a.text())? {
            return bad("not an address");
        }
        let mut letters = B58.to_vec();
        letters.extend_from_slice(b"0OIl +/=\n\0~\x7f");
        let go = |b: Vec<u8>| text(std::str::from_utf8(&b).unwrap()).map(|_| ());
        for i in 0..=t.len() {
            for c in &letters {
                let mut x = t.clone();
                x.insert(i, *c);
                go(x)?;
                if i < t.len() {
                    let mut x = t.clone();
                    x[i] = *c;
                    go(x)?;
                }
            }
            if i < t.len() {
                let mut x = t.clone();
                x.remove(i);
                go(x)?;
                go(t[..i].to_vec())?;
                go(t[i..].to_vec())?;
            }
            if i + 1 < t.len() {
                let mut x = t.clone();
                x.swap(i, i + 1);
                go(x)?;
            }
        }
        // the other address types and versions with the same hash
        for version in 0..=255u8 {
            text(&base58check(&[&[version][..], &v.0].concat()))?;
        }
        for s in [Addr::Pkh(v.0).script(), Addr::Sh(v.0).script()] {
            if !script(&s)? {
                return bad("not a script");
            }
            for i in 0..s.len() {
                for b in 0..=255u8 {
                    let mut x = s.clone();
                    x[i] = b;
                    script(&x)?;
                }
                script(&s[..i])?;
                script(&s[i..])?;
                let mut x = s.clone();
                x.insert(i, s[i]);
                script(&x)?;
            }
        }
        Ok(())
    });
}

fn main() {
    run("C12", check)
}

//! hd-harness PROP TIER SEED BUDGET_S SHARD/SHARDS OUT.json [KNOWN_FILE]
//! Bounded executable contracts, evaluated on the repository's compiled code.
mod md;
mod p_block;
mod p_conf;
mod p_doc;
mod p_head;
mod p_punct;
mod p_ref;
mod p_shims;
mod p_text;
mod p_wrap;
mod util;

use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, seed, budget, out) = (&a[1], &a[2], a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(60), &a[6]);
    let (sh, shs) = a[5].split_once('/').map(|(x, y)| (x.parse().unwrap(), y.parse().unwrap())).unwrap_or((0, 1));
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(tier, seed, budget, sh, shs);
    if let Some(k) = a.get(7) {
        for l in std::fs::read_to_string(k).unwrap_or_default().lines() {
            // known: property=ID what=... input=<json>
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} what=")) {
                if let Some((w, i)) = r.split_once(" input=") {
                    c.known.push((w.to_string(), unjson(i)));
                }
            }
        }
    }
    if let (Ok(w), Ok(i)) = (std::env::var("HD_REPLAY_WHAT"), std::env::var("HD_REPLAY_INPUT")) {
        c.replay = Some((w, unjson(&i)));
    }
    match prop.as_str() {
        "C01" => p_text::c01(&mut c),
        "C02" => p_text::c02(&mut c),
        "C18" => p_text::c18(&mut c),
        "C03" => p_block::c03(&mut c),
        "C04" => p_doc::c04(&mut c),
        "C05" => p_wrap::c05(&mut c),
        "C06" => p_wrap::c06(&mut c),
        "C07" => p_punct::c07(&mut c),
        "C08" => p_punct::c08(&mut c),
        "C09" => p_conf::c09(&mut c),
        "C10" => p_conf::c10(&mut c),
        "C11" => p_head::c11(&mut c),
        "C15" => p_ref::c15(&mut c),
        "C14" => p_ref::c14(&mut c),
        "C12" => p_doc::c12(&mut c),
        "C13" => p_doc::c13(&mut c),
        "C16" => p_doc::c16(&mut c),
        "SHIMS" => p_shims::shims(&mut c),
        "C17" => p_block::c17(&mut c),
        _ => {
            eprintln!("unknown property");
            std::process::exit(2);
        }
    }
    let viols: Vec<String> = c
        .viols
        .iter()
        .map(|v| format!("{{\"what\":{},\"input\":{},\"detail\":{}}}", jstr(&v.what), jstr(&v.input), jstr(&v.detail)))
        .collect();
    let list = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    let j = format!(
        "{{\"property\":{},\"evaluations\":{},\"skipped\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"timed_out\":{},\"bounds\":[{}],\"samples\":[{}],\"known_hit\":[{}],\"violations\":[{}]}}\n",
        jstr(prop),
        c.evals,
        c.skipped,
        c.nontrivial,
        c.start.elapsed().as_secs_f64(),
        c.start.elapsed() > c.budget,
        list(&c.bounds),
        list(&c.samples),
        list(&c.known_hit),
        viols.join(",")
    );
    std::fs::write(out, j).unwrap();
}

fn unjson(s: &str) -> String {
    let mut o = String::new();
    let s = s.trim().trim_matches('"');
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
            }
            Some(x) => o.push(x),
            None => {}
        }
    }
    o
}

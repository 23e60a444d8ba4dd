//! Command line, evidence files, replay artefacts, known findings.
use crate::explore::*;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }
}

pub struct Check {
    pub id: &'static str,
    pub families: fn(Tier) -> Vec<Family>,
    /// what is enumerated and what it is compared with
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn root() -> PathBuf {
    std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn load_known(property: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        // finding: property=C14 | family=... | case=... | kind=... | text
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let parts: Vec<&str> = r.split(" | ").collect();
        if parts.len() != 5 {
            continue;
        }
        let val = |i: usize, k: &str| parts[i].strip_prefix(k).unwrap_or("").to_string();
        let k = Known { property: val(0, "property="), family: val(1, "family="), case: val(2, "case="), kind: val(3, "kind="), text: parts[4].into() };
        if k.property == property {
            v.push(k);
        }
    }
    v
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{} ... [{} more bytes]", &s[..e], s.len() - e)
}

fn write_replay(id: &str, tier: Tier, f: &Found) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash(&(&f.family, f.index, &f.devs));
    let p = dir.join(format!("{}-{:08x}.txt", id, h as u32));
    let mut s = String::new();
    let _ = writeln!(s, "property: {}", id);
    let _ = writeln!(s, "tier: {}", tier.pick("quick", "thorough"));
    let _ = writeln!(s, "family: {}", f.family);
    let _ = writeln!(s, "index: {}", f.index);
    let _ = writeln!(s, "deviations: {}", f.devs.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>().join(" "));
    let _ = writeln!(s, "case: {}", clip(&f.label, 4000));
    let _ = writeln!(s, "kind: {}", f.fail.kind);
    let _ = writeln!(s, "failure: {}", clip(&f.fail.msg, 20000));
    let _ = writeln!(s, "confirmed by replay: {}", f.confirmed);
    let _ = writeln!(s, "replay with: /verif/check.sh replay <this file>");
    let _ = writeln!(s, "--- trace");
    for l in f.trace.iter().take(4000) {
        let _ = writeln!(s, "{}", clip(l, 400));
    }
    let _ = std::fs::write(&p, s);
    p
}

fn evidence(c: &Check, tier: Tier, ex: &Explorer, wall: f64, violations: u64) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let st = &ex.stats;
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"property\": {},", jstr(c.id));
    let _ = writeln!(s, " \"tier\": {},", jstr(tier.pick("quick", "thorough")));
    let _ = writeln!(s, " \"seed\": {},", seed);
    let _ = writeln!(s, " \"level\": \"model_checking\",");
    let _ = writeln!(s, " \"coverage\": {{");
    let _ = writeln!(s, "  \"states\": {},", ex.shared.distinct());
    let _ = writeln!(s, "  \"transitions\": {},", st.transitions);
    let _ = writeln!(s, "  \"traces_validated_against_impl\": {},", st.traces);
    let _ = writeln!(s, "  \"task_polls\": {},", st.polls);
    let _ = writeln!(s, "  \"max_choice_points_in_one_execution\": {},", st.max_points);
    let _ = writeln!(s, "  \"exhaustive\": {},", st.capped.is_empty() && ex.found.is_none());
    let _ = writeln!(s, "  \"each_execution_in_a_process_of_its_own\": {},", crate::iso::active());
    let _ = writeln!(s, "  \"rule\": {},", jstr(c.rule));
    let fams: Vec<String> = st
        .families
        .iter()
        .map(|f| {
            format!(
                "   {{\"family\": {}, \"cases\": {}, \"executions\": {}, \"deviation_bound\": {}, \"executions_by_deviations\": {{{}}}, \"distinct_outcomes\": {}, \"seconds\": {:.2}}}",
                jstr(&f.name),
                f.cases,
                f.executions,
                f.bound,
                f.by_cost.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "),
                f.outcomes,
                f.secs
            )
        })
        .collect();
    let _ = writeln!(s, "  \"families\": [\n{}\n  ],", fams.join(",\n"));
    let _ = writeln!(s, "  \"capped\": [{}],", st.capped.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "));
    let kn: Vec<String> = ex.known_hit.iter().map(|(k, (n, m))| format!("{{\"finding\": {}, \"cases\": {}, \"example\": {}}}", jstr(&ex.known[*k].text), n, jstr(&clip(m, 600)))).collect();
    let _ = writeln!(s, "  \"known_findings\": [{}],", kn.join(", "));
    let samples: Vec<String> = st.samples.iter().take(12).map(|x| jstr(&clip(x, 1500))).collect();
    let _ = writeln!(s, "  \"samples\": [\n   {}\n  ]", samples.join(",\n   "));
    let _ = writeln!(s, " }},");
    let _ = writeln!(s, " \"assumptions\": [{}],", c.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, " \"wall_s\": {:.3},", wall);
    let _ = writeln!(s, " \"violations\": {}", violations);
    s.push_str("}\n");
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", c.id)), s).expect("evidence");
}

/// Families that are explored once more with all log statements enabled: what they format depends on input, too.
const LOGGED: &[(&str, &[&str])] = &[
    ("C01", &["two clients depth 3", "overlapping filters of one client depth 3", "three clients depth 4", "real binary: two clients depth 2"]),
    ("C02", &["all filters together", "names that resemble each other"]),
    ("C03", &["forms of messages"]),
    ("C04", &["all packet forms depth 3"]),
    ("C05", &["forms of CONNECT, twice with one id", "sequences, one by one", "numbers of filters"]),
    ("C06", &["every end of one client depth 3", "two clients end and come back depth 3", "real binary: every end of one client depth 2"]),
    ("C07", &["three connections with one id depth 3", "similar ids", "real binary: three connections with one id depth 2"]),
    ("C08", &["user x password x file", "attempts with one id depth 2", "long passwords"]),
    ("C09", &["nothing was sent before, step by step", "after a refused CONNECT, step by step", "after DISCONNECT, step by step"]),
    ("C10", &["one and two cuts, equal chunks"]),
    ("C11", &["truncated packets", "any two bytes replaced by a length", "all strings of one or two bytes", "valid, malformed, valid", "long bodies"]),
    ("C12", &["windows and reads, small traffic"]),
    ("C13", &["payload sizes", "topic lengths", "payload bytes"]),
    ("C14", &["crowds"]),
    ("C15", &["interrupt after every task step"]),
    ("C16", &["two connections depth 2", "one accepted connection depth 3", "one segment of 3 packets", "unusual texts"]),
    ("C21", &["one publish"]),
    ("C22", &["ids as they might be generated"]),
    ("C23", &["both listeners depth 3"]),
    ("C25", &["1-2 levels"]),
    ("C26", &["rounds of 1 steps"]),
    ("C30", &["rounds of 1 while all read"]),
];
fn families(c: &Check, tier: Tier) -> Vec<crate::explore::Family> {
    let mut v = (c.families)(tier);
    for n in LOGGED.iter().filter(|x| x.0 == c.id).flat_map(|x| x.1) {
        let more: Vec<_> = v.iter().filter(|f| f.name == *n).map(|f| f.logged()).collect();
        assert!(!more.is_empty(), "no family {:?}", n);
        v.extend(more);
    }
    v
}

fn run_check(c: &Check, tier: Tier, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let limit = std::env::var("MC_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(240u64, 3600u64));
    let mut ex = Explorer::new(Duration::from_secs(limit), load_known(c.id));
    let fams = families(c, tier);
    let isolated = crate::iso::wanted();
    if isolated {
        crate::iso::start(&fams, 8);
    }
    for f in &fams {
        if only.is_some_and(|o| !f.name.contains(o)) {
            continue;
        }
        let tf = Instant::now();
        ex.run_family(f, &|ex2, found| {
            let p = write_replay(c.id, tier, &found);
            println!("VIOLATION property={} replay={}", c.id, p.display());
            println!("  {} [{}]: {}: {}", found.family, clip(&found.label, 500), found.fail.kind, found.fail.msg);
            evidence(c, tier, ex2, t0.elapsed().as_secs_f64(), 1);
            crate::env::cleanup();
            crate::explore::leave(1);
        });
        if let Some(fs) = ex.stats.families.last() {
            if std::env::var_os("MC_VERBOSE").is_some() {
                println!("  {}: {} cases, {} executions {:?}, {} outcomes, {:.2}s", fs.name, fs.cases, fs.executions, fs.by_cost, fs.outcomes, tf.elapsed().as_secs_f64());
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    for (k, (n, _)) in &ex.known_hit {
        println!("KNOWN-FINDING: property={} {} ({} cases)", c.id, ex.known[*k].text, n);
    }
    if !isolated && (!ex.errors.is_empty() || ex.found.as_ref().is_some_and(|f| !f.confirmed)) {
        for e in &ex.errors {
            eprintln!("{}", clip(e, 500));
        }
        crate::iso::again();
    }
    if !ex.errors.is_empty() && ex.found.is_none() {
        for e in &ex.errors {
            eprintln!("harness error: {}", e);
        }
        evidence(c, tier, &ex, wall, 0);
        return 2;
    }
    evidence(c, tier, &ex, wall, ex.found.is_some() as u64);
    match &ex.found {
        Some(f) => {
            let p = write_replay(c.id, tier, f);
            println!("VIOLATION property={} replay={}", c.id, p.display());
            println!("  {} [{}] deviations {:?}", f.family, clip(&f.label, 800), f.devs);
            println!("  {}: {}", f.fail.kind, clip(&f.fail.msg, 3000));
            println!("  confirmed by replaying it twice: {}", f.confirmed);
            1
        }
        None => {
            println!(
                "{}: held on {} executions, {} states, {} transitions in {:.1}s{}",
                c.id,
                ex.stats.executions,
                ex.shared.distinct(),
                ex.stats.transitions,
                wall,
                if ex.stats.capped.is_empty() { String::new() } else { format!(" (capped: {})", ex.stats.capped.join("; ")) }
            );
            0
        }
    }
}

fn run_replay(checks: &[Check], path: &Path) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).unwrap_or("").to_string();
    let id = get("property");
    let Some(c) = checks.iter().find(|c| c.id == id) else {
        println!("no check for {:?} in this binary", id);
        return 2;
    };
    let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let fam = get("family");
    let fams = families(c, tier);
    let Some(f) = fams.iter().find(|f| f.name == fam) else {
        println!("no family {:?}", fam);
        return 2;
    };
    let index: u64 = get("index").parse().unwrap();
    let devs: Devs = get("deviations")
        .split_whitespace()
        .map(|x| {
            let (a, b) = x.split_once(':').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect();
    crate::explore::logging(f.logged);
    println!("case: {}", (f.label)(index));
    let (r, trace) = replay(f, index, &devs);
    for l in trace {
        println!("{}", clip(&l, 300));
    }
    match r {
        Ok(()) => {
            println!("the property holds on this execution");
            0
        }
        Err(e) => {
            println!("{}: {}", e.kind, e.msg);
            println!("VIOLATION property={} replay={}", id, path.display());
            1
        }
    }
}

pub fn main(checks: Vec<Check>) -> ! {
    tokio::mc::quiet_panics();
    crate::env::setup();
    crate::explore::guard_process();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(1).map(|s| s.as_str()).unwrap_or("");
            let tier = if a.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            match checks.iter().find(|c| c.id == id) {
                Some(c) => run_check(c, tier, a.get(3).map(|s| s.as_str())),
                None => {
                    eprintln!("unknown property {:?}", id);
                    2
                }
            }
        }
        Some("replay") => run_replay(&checks, Path::new(&a[1])),
        Some("list") => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> quick|thorough [family filter] | mc replay <file> | mc list");
            2
        }
    };
    crate::env::cleanup();
    crate::explore::leave(code)
}

mod asks;
mod bfs;
mod big;
mod conc;
mod concjobs;
mod exec;
mod hand;
mod model;
mod obs;
mod rs;
mod sched;
mod seqjobs;
mod shapes;
mod sup;
mod tok;
mod trace;
mod wide;

use bfs::{Cfg, Stats, Viol};
use shapes::Catalogue;
use trace::Trace;

pub enum Job {
    Seq(Cfg),
    Conc(conc::Conc),
    Big(big::Big),
    Wide(wide::Wide),
    Asks(asks::Asks),
}

impl Job {
    pub fn name(&self) -> &str {
        match self {
            Job::Seq(c) => &c.name,
            Job::Conc(c) => &c.name,
            Job::Big(c) => &c.name,
            Job::Wide(c) => &c.name,
            Job::Asks(c) => &c.name,
        }
    }
    pub fn explore(&self, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        match self {
            Job::Seq(c) => c.explore(cat, tr, st),
            Job::Conc(c) => c.explore(tr, st),
            Job::Big(c) => c.explore(cat, tr, st),
            Job::Wide(c) => c.explore(tr, st),
            Job::Asks(c) => c.explore(cat, tr, st),
        }
    }
    pub fn replay(&self, path: &[u8], cat: &Catalogue, tr: &mut Trace) -> Option<Viol> {
        match self {
            Job::Seq(c) => c.replay(&path.chunks_exact(4).map(exec::Op::from_bytes).collect::<Vec<_>>(), cat, tr),
            Job::Conc(c) => c.replay(path, tr),
            Job::Big(c) => c.replay(path, cat, tr),
            Job::Wide(c) => c.replay(path, tr),
            Job::Asks(c) => c.replay(path, cat, tr),
        }
    }
    pub fn text(&self, path: &[u8]) -> String {
        match self {
            Job::Seq(c) => format!("[{}] then {}", bfs::show(&c.prelude), bfs::show(&path.chunks_exact(4).map(exec::Op::from_bytes).collect::<Vec<_>>())),
            Job::Conc(c) => c.text(path),
            Job::Big(c) => c.text(path),
            Job::Wide(c) => c.text(path),
            Job::Asks(c) => c.text(path),
        }
    }
}

pub fn jobs(prop: &str, thorough: bool, cat: &Catalogue) -> Vec<Job> {
    let mut v: Vec<Job> = seqjobs::jobs(prop, thorough, cat).into_iter().map(Job::Seq).collect();
    v.extend(big::jobs(prop, thorough, cat).into_iter().map(Job::Big));
    v.extend(wide::jobs(prop, thorough).into_iter().map(Job::Wide));
    v.extend(asks::jobs(prop, thorough, cat).into_iter().map(Job::Asks));
    v.extend(concjobs::jobs(prop, thorough).into_iter().map(Job::Conc));
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1..).unwrap_or(&[]) {
        ["check", prop] => sup::check(prop),
        ["worker", prop, tier, n, trace] => sup::worker(prop, *tier == "thorough", n.parse().unwrap(), trace),
        ["one", prop, tier, name, path, trace] => sup::one(prop, *tier == "thorough", name, path, trace),
        ["replay", file] => sup::replay(file),
        ["jobs", prop, tier] => {
            let cat = Catalogue::new();
            for (i, j) in jobs(prop, *tier == "thorough", &cat).iter().enumerate() {
                println!("{i} {}", j.name());
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <property> | mc replay <file> | mc jobs <property> quick|thorough");
            2
        }
    };
    std::process::exit(code);
}

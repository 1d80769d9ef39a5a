//! Symbolic executor for the LLVM IR which rustc generates for the repository's crate.
//!
//! symex FILE.ll --out OUT.json --entry NAME [--entry NAME ...] [--threads N] [--time SECS]
//!   [--z3-timeout MS] [--samples N] [--keep N] [--max-steps N] [--max-depth N] [--confirm]

mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      },
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn inputs(v: &[(u32, u128)]) -> String {
  let xs: Vec<String> = v.iter().map(|(w, x)| format!("[{w},\"{x:x}\"]")).collect();
  format!("[{}]", xs.join(","))
}

fn report(name: &str, r: &Report, wall: f64) -> String {
  let mut o = String::new();
  let _ = write!(
    o,
    "{{\"entry\":{},\"wall_s\":{:.3},\"paths\":{},\"assumed\":{},\"steps\":{},\"forks\":{},\"branches_sym\":{},\"fast_decided\":{},\"confirmed\":{},\"fp_queries\":{},\"asserts\":{},\"asserts_static\":{},\"assert_queries\":{},\"assert_unsat\":{},\"path_queries\":{},\"unknown\":{},\"truncated\":{},\"max_path_steps\":{}",
    js(name),
    wall,
    r.paths,
    r.assumed,
    r.steps,
    r.forks,
    r.branches_sym,
    r.fast_decided,
    r.confirmed,
    r.fp_queries,
    r.asserts,
    r.asserts_static,
    r.assert_queries,
    r.assert_unsat,
    r.path_queries,
    r.unknown,
    r.truncated,
    r.max_path_steps
  );
  let cov: Vec<String> = (0..128).filter(|i| r.covers >> i & 1 == 1).map(|i| i.to_string()).collect();
  let _ = write!(o, ",\"covers\":[{}]", cov.join(","));
  let ids: Vec<String> = r.assert_ids.iter().map(|i| i.to_string()).collect();
  let _ = write!(o, ",\"assert_ids\":[{}]", ids.join(","));
  let _ = write!(
    o,
    ",\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3},\"max_s\":{:.3}}}",
    r.z3.queries, r.z3.sat, r.z3.unsat, r.z3.unknown, r.z3.time, r.z3.max_time
  );
  let vs: Vec<String> = r
    .violations
    .iter()
    .map(|v| {
      format!(
        "{{\"kind\":{},\"id\":{},\"known\":{},\"site\":{},\"steps\":{},\"inputs\":{}}}",
        js(&v.kind),
        v.id,
        v.known,
        js(&v.site),
        v.steps,
        inputs(&v.inputs)
      )
    })
    .collect();
  let _ = write!(o, ",\"violations\":[{}]", vs.join(","));
  let nv: Vec<String> = r.nviol.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
  let _ = write!(o, ",\"violation_counts\":{{{}}}", nv.join(","));
  let ss: Vec<String> = r
    .samples
    .iter()
    .map(|s| {
      let ob: Vec<String> = s.obs.iter().map(|x| format!("\"{x:x}\"")).collect();
      let cov: Vec<String> = (0..128).filter(|i| s.covers >> i & 1 == 1).map(|i| i.to_string()).collect();
      format!("{{\"inputs\":{},\"obs\":[{}],\"covers\":[{}]}}", inputs(&s.inputs), ob.join(","), cov.join(","))
    })
    .collect();
  let _ = write!(o, ",\"samples\":[{}]", ss.join(","));
  let es: Vec<String> = r.errors.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
  let _ = write!(o, ",\"errors\":{{{}}}", es.join(","));
  let fs: Vec<String> = r.funcs.iter().map(|f| js(f)).collect();
  let _ = write!(o, ",\"funcs\":[{}]}}", fs.join(","));
  o
}

fn main() {
  let mut file = String::new();
  let mut out = String::new();
  let mut entries: Vec<String> = vec![];
  let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
  let mut time = 600.0f64;
  let mut z3t = 20000u32;
  let mut samples = 40;
  let mut keep = 3;
  let mut max_steps = 50_000_000u64;
  let mut max_depth = 3000u32;
  let mut confirm = false;
  let mut it = std::env::args().skip(1);
  while let Some(a) = it.next() {
    let mut val = || it.next().unwrap_or_else(|| panic!("value for {a}"));
    match a.as_str() {
      "--out" => out = val(),
      "--entry" => entries.push(val()),
      "--threads" => threads = val().parse().unwrap(),
      "--time" => time = val().parse().unwrap(),
      "--z3-timeout" => z3t = val().parse().unwrap(),
      "--samples" => samples = val().parse().unwrap(),
      "--keep" => keep = val().parse().unwrap(),
      "--max-steps" => max_steps = val().parse().unwrap(),
      "--max-depth" => max_depth = val().parse().unwrap(),
      "--confirm" => confirm = true,
      _ => file = a,
    }
  }
  let start = Instant::now();
  let deadline = start + Duration::from_secs_f64(time);
  let text = std::fs::read(&file).expect("read IR");
  let m = Arc::new(ir::Module::load(text));
  let load_s = start.elapsed().as_secs_f64();
  let bi = Arc::new(builtins(&m));
  let mut reports = vec![];
  for name in &entries {
    let t0 = Instant::now();
    let entry = *m.fn_ids.get(name).unwrap_or_else(|| {
      eprintln!("symex: no function {name}");
      std::process::exit(3)
    });
    let cfg = Arc::new(Config { max_steps, max_depth, deadline, samples: samples / threads + 2, keep, check_paths: true, confirm });
    let shared = Arc::new(Shared {
      queue: Mutex::new((vec![vec![]], 0)),
      cv: Condvar::new(),
      idle: AtomicUsize::new(0),
      stop: AtomicBool::new(false),
      nthreads: threads,
    });
    let hs: Vec<_> = (0..threads)
      .map(|_| {
        let (m, bi, cfg, shared) = (m.clone(), bi.clone(), cfg.clone(), shared.clone());
        std::thread::Builder::new()
          .stack_size(256 << 20)
          .spawn(move || {
            let mut ex = Exec::new(m, bi, cfg, shared, entry, z3t);
            ex.worker();
            std::mem::take(&mut ex.rep)
          })
          .unwrap()
      })
      .collect();
    let mut rep = Report::default();
    for h in hs {
      match h.join() {
        Ok(r) => rep.merge(r),
        Err(e) => {
          let msg = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
          *rep.errors.entry(format!("engine thread panicked: {msg}")).or_default() += 1;
        },
      }
    }
    let s = report(name, &rep, t0.elapsed().as_secs_f64());
    eprintln!(
      "symex: {name}: {} paths, {} assumed away, {} steps, {} asserts ({} solver), z3 {} queries {:.1}s, {} violations, {} errors, truncated {}, {:.1}s",
      rep.paths,
      rep.assumed,
      rep.steps,
      rep.asserts,
      rep.assert_queries,
      rep.z3.queries,
      rep.z3.time,
      rep.nviol.values().sum::<u64>(),
      rep.errors.values().sum::<u64>(),
      rep.truncated,
      t0.elapsed().as_secs_f64()
    );
    for (e, n) in rep.errors.iter().take(10) {
      eprintln!("symex:   error x{n}: {e}");
    }
    for (e, n) in rep.nviol.iter().take(20) {
      eprintln!("symex:   violation x{n}: {e}");
    }
    reports.push(s);
  }
  let o = format!("{{\"load_s\":{load_s:.3},\"threads\":{threads},\"runs\":[{}]}}\n", reports.join(",\n"));
  if out.is_empty() {
    println!("{o}");
  } else {
    std::fs::write(&out, o).expect("write report");
  }
  // skip destructors
  use std::io::Write;
  let _ = std::io::stdout().flush();
  std::process::exit(0);
}

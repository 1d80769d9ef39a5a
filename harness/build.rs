use std::{env, path::Path, process::Command};

fn main() {
  let out = env::var("OUT_DIR").unwrap();
  let obj = Path::new(&out).join("rt.o");
  let lib = Path::new(&out).join("libsymrt.a");
  let ok = Command::new("gcc").args(["-O1", "-g", "-c", "rt.c", "-o"]).arg(&obj).status().unwrap().success();
  assert!(ok);
  let _ = std::fs::remove_file(&lib);
  let ok = Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().unwrap().success();
  assert!(ok);
  println!("cargo:rustc-link-search=native={out}");
  println!("cargo:rustc-link-lib=static=symrt");
  println!("cargo:rerun-if-changed=rt.c");
}

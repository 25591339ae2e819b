//! The toy language is a binary crate: a copy of its modules is compiled here as a library.
use std::fs;
use std::path::Path;

/// Copies the modules. `a.rs` with submodules in `a/` becomes `a/mod.rs`, where a `path` attribute finds them.
fn copy(from: &Path, to: &Path) {
  fs::create_dir_all(to).unwrap();
  for entry in fs::read_dir(from).unwrap() {
    let path = entry.unwrap().path();
    let name = path.file_name().unwrap().to_owned();
    if path.is_dir() {
      copy(&path, &to.join(name));
    } else if path.extension().is_some_and(|e| e == "rs") && path.with_extension("").is_dir() {
      let dir = to.join(path.file_stem().unwrap());
      fs::create_dir_all(&dir).unwrap();
      fs::copy(&path, dir.join("mod.rs")).unwrap();
    } else {
      fs::copy(&path, to.join(name)).unwrap();
    }
  }
}

fn main() {
  let src = Path::new("/repo/toys/src");
  println!("cargo:rerun-if-changed={}", src.display());
  let out_dir = std::env::var("OUT_DIR").unwrap();
  let dir = Path::new(&out_dir).join("toys");
  let _ = fs::remove_dir_all(&dir);
  copy(src, &dir);
  let text = fs::read_to_string(src.join("main.rs")).expect("toys/src/main.rs");
  let mut out = String::new();
  for line in text.lines() {
    let t = line.trim();
    let m = t.strip_prefix("pub ").unwrap_or(t);
    let m = m.strip_prefix("pub(crate) ").unwrap_or(m);
    if let Some(name) = m.strip_prefix("mod ").and_then(|r| r.strip_suffix(';')) {
      let file = dir.join(format!("{}.rs", name.trim()));
      let file = if file.exists() { file } else { dir.join(name.trim()).join("mod.rs") };
      out.push_str(&format!("#[path = {:?}]\npub mod {};\n", file, name.trim()));
    } else if t.starts_with("#![") {
    } else {
      out.push_str(&line.replace("fn main()", "pub fn main_of_the_binary()"));
      out.push('\n');
    }
  }
  fs::write(Path::new(&out_dir).join("root.rs"), out).unwrap();
}

//! Fails in the ways the engine must survive (not registered anywhere).
use engine::{main_with, Suite};
#[allow(unconditional_recursion)]
fn deep(n: u64) -> u64 { if n == 0 { 1 } else { std::hint::black_box(deep(n + 1)) + 1 } }
fn main() {
  let mode = std::env::var("MODE").unwrap();
  let s = Suite::random("x", 1000, 1000, move |src, ctx| {
    let v = src.below(1000);
    let w = src.below(1000);
    ctx.nontrivial(&v);
    if v + w > 1500 {
      match &mode[..] {
        "stack" => { deep(v); }
        "lock" => { let m = std::sync::RwLock::new(1); let _a = m.write().unwrap(); let _b = m.write(); }
        "loop" => { loop { engine::tick() } }
        "alloc" => { let mut v = Vec::new(); loop { v.push(Box::new(1)) } }
        "panic" => panic!("x"),
        _ => return Err("bad".to_string()),
      }
    }
    Ok(())
  });
  main_with("SELF", "r", &[], vec![s]);
}

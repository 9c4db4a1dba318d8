//! Native replay: `native HARNESS PARAMS(comma) FILE` where FILE has one line of inputs per run.
//! Prints one line per run: `OK obs...`, `FAIL check N`, `PANIC msg`, `INFEASIBLE`.
use std::cell::RefCell;
use std::io::Write;

#[derive(Default)]
struct Rt {
    inputs: Vec<u64>,
    pos: usize,
    params: Vec<u64>,
    obs: Vec<u64>,
    verbose: bool,
}
thread_local!(static RT: RefCell<Rt> = RefCell::new(Rt::default()));
struct Fail(u32);
struct Done;
struct Infeasible;

fn next() -> u64 {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let p = r.pos;
        r.pos += 1;
        r.inputs.get(p).copied().unwrap_or(0)
    })
}
#[no_mangle]
extern "C-unwind" fn sx_bits(w: u32) -> u64 {
    let v = next();
    if w < 64 {
        v & ((1 << w) - 1)
    } else {
        v
    }
}
#[no_mangle]
extern "C-unwind" fn sx_below(n: u64) -> u64 {
    if n == 1 {
        return 0;
    }
    let v = next();
    if v >= n {
        std::panic::panic_any(Infeasible);
    }
    v
}
#[no_mangle]
extern "C-unwind" fn sx_assume(c: bool) {
    if !c {
        std::panic::panic_any(Infeasible);
    }
}
#[no_mangle]
extern "C-unwind" fn sx_check(c: bool, code: u32) {
    if !c {
        std::panic::panic_any(Fail(code));
    }
}
#[no_mangle]
extern "C-unwind" fn sx_cover(_: u32) {}
#[no_mangle]
extern "C-unwind" fn sx_observe(v: u64) {
    RT.with(|r| r.borrow_mut().obs.push(v));
}
#[no_mangle]
extern "C-unwind" fn sx_param(i: u32) -> u64 {
    RT.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C-unwind" fn sx_fix(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C-unwind" fn sx_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C-unwind" fn sx_fail(code: u32) -> ! {
    std::panic::panic_any(Fail(code))
}
#[no_mangle]
extern "C-unwind" fn sx_done() -> ! {
    std::panic::panic_any(Done)
}
#[no_mangle]
pub extern "C-unwind" fn sx_verbose() -> bool {
    RT.with(|r| r.borrow().verbose)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::lookup(&a[1]).expect("unknown harness");
    let params: Vec<u64> = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let text = std::fs::read_to_string(&a[3]).unwrap();
    let verbose = a.get(4).is_some();
    let msg: std::sync::Arc<std::sync::Mutex<String>> = Default::default();
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        if i.payload().downcast_ref::<Fail>().is_none() {
            *m2.lock().unwrap() = format!("{}", i).replace('\n', " ");
        }
    }));
    let mut bad = false;
    for line in text.lines() {
        let inputs: Vec<u64> = line.split_whitespace().map(|s| s.parse().unwrap()).collect();
        RT.with(|r| *r.borrow_mut() = Rt { inputs, params: params.clone(), verbose, ..Default::default() });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let obs = RT.with(|r| r.borrow().obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        match r {
            Ok(()) => println!("OK {}", obs),
            Err(e) => {
                if let Some(Fail(c)) = e.downcast_ref::<Fail>() {
                    bad = true;
                    println!("FAIL check {}", c)
                } else if e.downcast_ref::<Done>().is_some() {
                    println!("OK {}", obs)
                } else if e.downcast_ref::<Infeasible>().is_some() {
                    println!("INFEASIBLE")
                } else {
                    bad = true;
                    println!("PANIC {}", msg.lock().unwrap())
                }
            }
        }
        std::io::stdout().flush().unwrap();
    }
    std::process::exit(bad as i32)
}

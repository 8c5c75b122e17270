//! Executes scripts of calls of the Rust interface; one result line per operation.
use coco_rs::{observer, suite, LogLevel, Observer, Problem, RandomState, Suite};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct State {
    s: HashMap<String, Box<Suite>>,
    o: HashMap<String, Box<Observer>>,
    p: HashMap<String, Problem<'static>>,
    r: HashMap<String, RandomState>,
}

fn hx(v: f64) -> String {
    if v.is_nan() {
        "nan".to_string()
    } else {
        format!("{:x}", v.to_bits())
    }
}
fn arr(v: &[f64]) -> String {
    format!("[{}]", v.iter().map(|x| hx(*x)).collect::<Vec<_>>().join(","))
}
fn vec(s: &str) -> Vec<f64> {
    if s.is_empty() {
        return vec![];
    }
    s.split(',').map(|t| f64::from_bits(u64::from_str_radix(t, 16).unwrap())).collect()
}
fn sname(s: &str) -> suite::Name {
    use suite::Name::*;
    match s {
        "Bbob" => Bbob,
        "BbobBiobj" => BbobBiobj,
        "BbobBiobjExt" => BbobBiobjExt,
        "BbobLargescale" => BbobLargescale,
        "BbobConstrained" => BbobConstrained,
        "BbobMixint" => BbobMixint,
        "BbobBiobjMixint" => BbobBiobjMixint,
        "SboxCost" => SboxCost,
        _ => Toy,
    }
}
fn oname(s: &str) -> observer::Name {
    use observer::Name::*;
    match s {
        "Bbob" => Bbob,
        "BbobBiobj" => BbobBiobj,
        "Toy" => Toy,
        _ => None,
    }
}
fn all(p: &Problem) -> String {
    let mut x = vec![0.0; p.dimension()];
    p.initial_solution(&mut x);
    let r = p.ranges_of_interest();
    let lo: Vec<f64> = r.iter().map(|t| *t.start()).collect();
    let hi: Vec<f64> = r.iter().map(|t| *t.end()).collect();
    format!(
        "{}|{}|{}|{}|{}|{}|{}|{}|{}|{}|{}",
        p.id(), p.name(), p.typ(), p.dimension(), p.number_of_objectives(), p.number_of_constraints(), p.number_of_integer_variables(),
        p.suite_index().0, arr(&lo), arr(&hi), arr(&x)
    )
}
/// The borrow rules are kept by the scripts (at most one problem of a suite at a time).
fn suite_of(st: &mut State, k: &str) -> &'static mut Suite {
    let p: *mut Suite = &mut **st.s.get_mut(k).unwrap();
    unsafe { &mut *p }
}
fn keep(st: &mut State, slot: &str, p: Option<Problem<'static>>) -> String {
    st.p.remove(slot);
    match p {
        Some(p) => {
            let t = all(&p);
            st.p.insert(slot.to_string(), p);
            t
        }
        None => "none".to_string(),
    }
}
fn op(st: &mut State, f: &[&str]) -> String {
    match f[0] {
        "level" => {
            match f[1] {
                "error" => LogLevel::Error,
                "warning" => LogLevel::Warning,
                "info" => LogLevel::Info,
                "debug" => LogLevel::Debug,
                _ => LogLevel::default(),
            }
            .set();
            "ok".to_string()
        }
        "version" => coco_rs::version().to_string(),
        "suite" => match Suite::new(sname(f[2]), f[3], f[4]) {
            Some(s) => {
                let n = s.number_of_problems();
                st.s.insert(f[1].to_string(), Box::new(s));
                format!("{}", n)
            }
            None => "none".to_string(),
        },
        "clone" => {
            let s = (**st.s.get(f[1]).unwrap()).clone();
            let n = s.number_of_problems();
            st.s.insert(f[2].to_string(), Box::new(s));
            format!("{}", n)
        }
        "observer" => match Observer::new(oname(f[2]), f[3]) {
            Some(o) => {
                let t = o.result_folder().to_string();
                st.o.insert(f[1].to_string(), Box::new(o));
                t
            }
            None => "none".to_string(),
        },
        "index" => {
            let s = suite_of(st, f[1]);
            let k: usize = f[3].parse().unwrap();
            format!("{}", match f[2] {
                "f" => s.function_from_function_index(suite::FunctionIdx(k)),
                "d" => s.dimension_from_dimension_index(suite::DimensionIdx(k)),
                _ => s.instance_from_instance_index(suite::InstanceIdx(k)),
            })
        }
        "next" => {
            st.p.remove(f[3]);
            let s = suite_of(st, f[1]);
            let p = match st.o.get_mut(f[2]) {
                Some(o) => s.next_problem(Some(&mut **o)),
                None => s.next_problem(None),
            };
            keep(st, f[3], p)
        }
        "get" => {
            st.p.remove(f[3]);
            let s = suite_of(st, f[1]);
            let p = s.problem(suite::ProblemIdx(f[2].parse().unwrap()));
            keep(st, f[3], p)
        }
        "fdi" => {
            st.p.remove(f[5]);
            let s = suite_of(st, f[1]);
            let p = s.problem_by_function_dimension_instance(f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].parse().unwrap());
            keep(st, f[5], p)
        }
        "add" => {
            let o: *const Observer = &**st.o.get(f[2]).unwrap();
            let p = st.p.get_mut(f[1]).unwrap();
            p.add_observer(unsafe { &*o });
            all(p)
        }
        "rem" => {
            let o: *const Observer = &**st.o.get(f[2]).unwrap();
            let p = st.p.get_mut(f[1]).unwrap();
            p.remove_observer(unsafe { &*o });
            all(p)
        }
        "restart" => {
            st.o.get(f[1]).unwrap().signal_restart(st.p.get(f[2]).unwrap());
            "ok".to_string()
        }
        "eval" | "con" => {
            let p = st.p.get_mut(f[1]).unwrap();
            let x = vec(f[2]);
            let mut y = vec![7.0; f[3].parse().unwrap()];
            if f[0] == "eval" {
                p.evaluate_function(&x, &mut y);
            } else {
                p.evaluate_constraint(&x, &mut y);
            }
            arr(&y)
        }
        "init" => {
            let p = st.p.get(f[1]).unwrap();
            let mut x = vec![7.0; f[2].parse().unwrap()];
            p.initial_solution(&mut x);
            arr(&x)
        }
        "state" => {
            let p = st.p.get(f[1]).unwrap();
            format!("{}|{}|{}|{}", p.evaluations(), p.evaluations_constraints(), p.final_target_hit(), hx(p.best_observed_value()))
        }
        "target" => {
            let p = st.p.get(f[1]).unwrap();
            format!("{}|{}", hx(p.best_value()), hx(p.final_target_value()))
        }
        "info" => all(st.p.get(f[1]).unwrap()),
        "random" => {
            let seed: u32 = f[2].parse().unwrap();
            st.r.insert(f[1].to_string(), RandomState::new(seed));
            "ok".to_string()
        }
        "draw" => {
            let r = st.r.get_mut(f[1]).unwrap();
            arr(&f[2].chars().map(|c| if c == 'u' { r.uniform() } else { r.normal() }).collect::<Vec<_>>())
        }
        "drop" => {
            match &f[1][..1] {
                "p" => drop(st.p.remove(f[1])),
                "s" => drop(st.s.remove(f[1])),
                "o" => drop(st.o.remove(f[1])),
                _ => drop(st.r.remove(f[1])),
            }
            "ok".to_string()
        }
        _ => panic!("unknown operation"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = State { s: HashMap::new(), o: HashMap::new(), p: HashMap::new(), r: HashMap::new() };
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let r = catch_unwind(AssertUnwindSafe(|| op(&mut st, &f)));
        let mut o = out.lock();
        match r {
            Ok(t) => writeln!(o, "={}", t).unwrap(),
            Err(_) => writeln!(o, "!").unwrap(),
        }
        o.flush().unwrap();
    }
    st.p.clear();
    st.s.clear();
    st.o.clear();
}

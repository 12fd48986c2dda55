#[cfg(feature = "residues")]
use harness::gf::{Gf, Ring};
use harness::ops::{Regs, REGS};
use harness::types::*;
use std::io::{BufRead, Write};

struct Machine<N> {
    regs: Regs<N>,
    exec: fn(&[&str], &mut Regs<N>) -> Option<String>,
}
trait Dyn {
    fn step(&mut self, c: &[&str]) -> String;
}
impl<N: Clone> Dyn for Machine<N> {
    fn step(&mut self, c: &[&str]) -> String {
        (self.exec)(c, &mut self.regs).unwrap_or_else(|| "unsup".into())
    }
}
fn machine<N: Clone + 'static>(exec: fn(&[&str], &mut Regs<N>) -> Option<String>) -> Box<dyn Dyn> {
    Box::new(Machine { regs: vec![None; REGS], exec })
}
fn start(t: &str) -> Box<dyn Dyn> {
    match t {
        "i8" => machine::<i8>(t_i8::exec),
        "i16" => machine::<i16>(t_i16::exec),
        "i32" => machine::<i32>(t_i32::exec),
        "i64" => machine::<i64>(t_i64::exec),
        "i128" => machine::<i128>(t_i128::exec),
        "isize" => machine::<isize>(t_isize::exec),
        "usize" => machine::<usize>(t_usize::exec),
        "u8" => machine::<u8>(t_u8::exec),
        "u16" => machine::<u16>(t_u16::exec),
        "u32" => machine::<u32>(t_u32::exec),
        "u64" => machine::<u64>(t_u64::exec),
        "u128" => machine::<u128>(t_u128::exec),
        "f32" => machine::<f32>(t_f32::exec),
        "f64" => machine::<f64>(t_f64::exec),
        #[cfg(feature = "residues")]
        "ring" => machine::<Ring>(t_ring::exec),
        #[cfg(feature = "residues")]
        "gf" => machine::<Gf>(t_gf::exec),
        _ => panic!("type"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::io::stdin();
    let mut out = std::io::stdout().lock();
    let mut m = start("i32");
    for line in input.lock().lines() {
        let line = line.expect("input");
        let c: Vec<&str> = line.split(' ').collect();
        let answer = if c[0] == "H" {
            m = start(c[1]);
            "H".to_string()
        } else {
            m.step(&c)
        };
        writeln!(out, "{}", answer).expect("output");
        out.flush().expect("output");
    }
}

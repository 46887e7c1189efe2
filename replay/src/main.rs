//! replay PROPERTY SEED BUDGET_SECONDS OUT.json
//!
//! Calls the real crates of /repo with directed and seeded inputs and compares what they do with
//! independent oracles, to find a concrete failing input for a property. Bounded: it decides
//! nothing by itself when the verifier has discharged the property's obligations.
mod audit;
mod codec;
mod harness;
mod net;
mod noise;

use harness::Rec;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "C31-child") {
        return noise::c31_child();
    }
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let budget: u64 = a[3].parse().unwrap();
    let out = a[4].clone();
    let t = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut r = Rec::new(&prop, seed, budget, &out);
            match prop.as_str() {
                "C01" => codec::c01(&mut r),
                "C02" => codec::c02(&mut r),
                "C03" => codec::c03(&mut r),
                "C04" => codec::c04(&mut r),
                "C05" => codec::c05(&mut r),
                "C06" => codec::c06(&mut r),
                "C07" => codec::c07(&mut r),
                "C08" => codec::c08(&mut r),
                "C09" => codec::c09(&mut r),
                "C10" => codec::c10(&mut r),
                "C11" => codec::c11(&mut r),
                "C12" => net::c12(&mut r),
                "C13" => net::c13(&mut r),
                "C14" => noise::c14(&mut r),
                "C15" => noise::c15(&mut r),
                "C16" => noise::c16(&mut r),
                "C17" => noise::c17(&mut r),
                "C18" => noise::c18(&mut r),
                "C19" => noise::c19(&mut r),
                "C20" => net::c20(&mut r),
                "C21" => noise::c21(&mut r),
                "C22" => noise::c22(&mut r),
                "C23" => codec::c23(&mut r),
                "C30" => net::c30(&mut r),
                "C31" => noise::c31(&mut r),
                "AUDIT" => audit::run(&mut r),
                _ => {}
            }
            r.done()
        })
        .unwrap();
    t.join().unwrap();
}

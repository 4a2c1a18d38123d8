//! Runs the Rust monitor on a trace file: driver SPEC TRACE [names]. Lines with fields separated by commas, as many traces as
//! there are parts separated by empty lines; with names each trace ends with a line `-`. Output as that of the C monitor: number or name:time,verdict
//! (names: number|name:time,verdict), Contract NAME STATUS at TIME, overflow.
use r2u2_core::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let spec = std::fs::read(&a[1]).unwrap();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let mut out = String::new();
    for part in text.split("\n\n") {
        let mut m = Box::new(get_monitor(&spec));
        for l in part.lines() {
            if l.is_empty() || l.starts_with('#') { continue; }
            for (i, v) in l.split(',').enumerate() { load_string_signal(&mut m, i, v.trim()); }
            if !monitor_step(&mut m) { out += "overflow\n"; }
            for o in get_output_buffer(&m) {
                #[cfg(feature = "aux_string_specs")]
                let n = o.spec_str.to_string();
                #[cfg(not(feature = "aux_string_specs"))]
                let n = String::new();
                let n = if a.len() > 3 { format!("{}|{}", o.spec_num, n) } else if n.is_empty() { o.spec_num.to_string() } else { n };
                out += &format!("{}:{},{}\n", n, o.verdict.time, if o.verdict.truth { "T" } else { "F" });
            }
            #[cfg(feature = "aux_string_specs")]
            for o in get_contract_buffer(&m) {
                out += &format!("Contract {} {} at {}\n", o.spec_str, if o.status == AGC_VERIFIED { "verified" } else if o.status == AGC_INVALID { "invalid" } else if o.status == AGC_INACTIVE { "inactive" } else { "?" }, o.time);
            }
        }
        if a.len() > 3 { out += "-\n"; }
    }
    print!("{}", out);
}

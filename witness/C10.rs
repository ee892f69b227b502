// C10: delay filter window.  Oracle: mathematical distance to the clock reading taken around the call.
extern crate cernan;
#[path = "wit.rs"]
mod wit;
use cernan::filter::{DelayFilter, DelayFilterConfig, Filter};
use cernan::metric::{Encoding, Event, LogLine, Telemetry};
use wit::*;

fn window(r: &mut Rng) -> Res {
    let tol = match r.below(5) {
        0 => r.range(-3, 3),
        1 => r.range(0, 100_000),
        2 => *r.pick(&[i64::min_value(), i64::max_value(), 0, 1]),
        _ => r.range(1, 60),
    };
    let mut f = DelayFilter::new(&DelayFilterConfig { config_path: None, forwards: vec![], tolerance: tol });
    let mut out: Vec<Event> = Vec::new();
    let mut log = format!("tolerance={}", tol);
    let n = 1 + r.below(6);
    for _ in 0..n {
        let now0 = cernan::time::now();
        let ts = match r.below(6) {
            0 => *r.pick(&[i64::min_value(), i64::max_value(), i64::min_value() + now0, 0, -1, -now0]),
            1 => r.u64() as i64,
            2 => now0.wrapping_add(tol).wrapping_add(r.range(-1, 1)),
            3 => now0.wrapping_sub(tol).wrapping_add(r.range(-1, 1)),
            _ => now0 + r.range(-70, 70),
        };
        let ev = match r.below(5) {
            0 | 1 => Event::Telemetry(Telemetry::new().name("a").value(1.0).timestamp(ts).harden().unwrap()),
            2 => Event::Log(LogLine::new("p", "v").time(ts)),
            3 => Event::TimerFlush(r.u64()),
            _ => Event::Raw { order_by: r.u64(), encoding: Encoding::Raw, bytes: r.bytes(3), metadata: None, connection_id: None },
        };
        log.push_str(&format!(" now={} {}", now0, match &ev { Event::Telemetry(_) => format!("telemetry@{}", ts), Event::Log(_) => format!("log@{}", ts), e => format!("{:?}", e) }));
        note(&log);
        let before = out.clone();
        let res = f.process(ev.clone(), &mut out);
        let now1 = cernan::time::now();
        if res.is_err() {
            return fail("delay-error", log, "process returned an error".into());
        }
        let kept = out.len() == before.len() + 1;
        if out[..before.len()] != before[..] || !(kept || out.len() == before.len()) || (kept && out[before.len()] != ev) {
            return fail("delay-corrupt", log, "the output is neither the old output nor the old output followed by the event".into());
        }
        let want: Vec<bool> = match &ev {
            Event::Telemetry(_) | Event::Log(_) => [now0, now1].iter().map(|n| ((ts as i128) - (*n as i128)).abs() < tol as i128).collect(),
            _ => vec![true],
        };
        if !want.contains(&kept) {
            return fail("delay-window", log, format!("kept={} but |ts-now| < tolerance is {}", kept, !kept));
        }
    }
    ok(log, true)
}

fn main() {
    wit::main(&[Case { name: "window", every: 1, run: window }]);
}

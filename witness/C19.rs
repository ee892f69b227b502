// C19: the real adjacency matrix against ordered maps.
extern crate cernan;
#[path = "wit.rs"]
mod wit;
use cernan::matrix::Adjacency;
use std::collections::BTreeMap;
use wit::*;

type Ref = BTreeMap<String, BTreeMap<String, Option<u32>>>;
fn link(g: &mut Ref, a: &str, b: &str, m: Option<u32>) {
    g.entry(a.to_string()).or_insert_with(BTreeMap::new).insert(b.to_string(), m);
}
fn agree(m: &mut Adjacency<u32>, g: &Ref, names: &[String]) -> Result<(), (&'static str, String)> {
    let real: Ref = m.iter().map(|(k, v)| (k.clone(), v.iter().map(|(a, b)| (a.clone(), b.clone())).collect())).collect();
    if &real != g { return Err(("edges", format!("states {:?}, not {:?}", real, g))); }
    for n in names {
        let e = g.get(n).cloned().unwrap_or_default();
        if m.num_edges(n) != e.len() { return Err(("count", format!("{} edges counted at {}, not {}", m.num_edges(n), n, e.len()))); }
        if m.contains_node(n) != g.contains_key(n) { return Err(("contains", format!("contains_node({})", n))); }
        for want in &[true, false] {
            let mut r = m.filter_nodes(n, |&(_k, v)| v.is_none() == *want);
            r.sort();
            let w: Vec<String> = e.iter().filter(|&(_, v)| v.is_none() == *want).map(|(k, _)| k.clone()).collect();
            if r != w { return Err(("filter", format!("filter_nodes({}) yields {:?}, not {:?}", n, r, w))); }
        }
        let mut r = m.filter_nodes(n, |&(k, _v)| k.len() == 1);
        r.sort();
        let w: Vec<String> = e.keys().filter(|k| k.len() == 1).cloned().collect();
        if r != w { return Err(("filter", format!("filter_nodes({}) yields {:?}, not {:?}", n, r, w))); }
    }
    Ok(())
}
fn history(r: &mut Rng) -> Res {
    let names: Vec<String> = (0..1 + r.size(5, 300)).map(|i| if r.chance(1, 8) { String::new() } else { format!("{}{}", if r.chance(1, 2) { "" } else { "é" }, if i < 26 { ((b'a' + i as u8) as char).to_string() } else { r.text("ab", 1, 3, |_| true) }) }).collect();
    let mut m: Adjacency<u32> = if r.chance(1, 2) { Adjacency::new() } else { Adjacency::default() };
    let mut g: Ref = BTreeMap::new();
    let mut desc = String::new();
    let steps = r.size(13, 120);
    for _ in 0..steps {
        let a = r.pick(&names).clone();
        let meta = if r.chance(1, 2) { None } else { Some(r.below(50) as u32) };
        match r.below(8) {
            0 | 1 => {
                let b = r.pick(&names).clone();
                desc += &format!("edge {:?}->{:?} {:?}; ", a, b, meta);
                note(&desc);
                m.add_asymmetric_edge(&a, &b, meta);
                link(&mut g, &a, &b, meta);
            }
            2 | 3 | 4 => {
                let tos: Vec<String> = (0..r.size(3, 60)).map(|_| r.pick(&names).clone()).collect();
                desc += &format!("edges {:?}<->{:?} {:?}; ", a, tos, meta);
                note(&desc);
                m.add_edges(&a, tos.clone(), meta);
                for t in tos { link(&mut g, &a, &t, meta); link(&mut g, &t, &a, meta); }
            }
            5 => {
                desc += &format!("pop {:?}; ", a);
                note(&desc);
                let real: Option<BTreeMap<String, Option<u32>>> = m.pop(&a).map(|v| v.into_iter().collect());
                let want = g.remove(&a);
                if real != want { return fail("pop", desc, format!("yields {:?}, not {:?}", real, want)); }
            }
            6 => {
                desc += &format!("pop_nodes {:?}; ", a);
                note(&desc);
                let mut real = m.pop_nodes(&a);
                real.sort();
                let want: Vec<String> = g.remove(&a).unwrap_or_default().keys().cloned().collect();
                if real != want { return fail("pop", desc, format!("yields {:?}, not {:?}", real, want)); }
            }
            _ => {
                desc += &format!("pop_metadata {:?}; ", a);
                note(&desc);
                let mut real = m.pop_metadata(&a);
                real.sort();
                let mut want: Vec<u32> = g.remove(&a).unwrap_or_default().values().filter_map(|v| *v).collect();
                want.sort();
                if real != want { return fail("pop", desc, format!("yields {:?}, not {:?}", real, want)); }
            }
        }
        if let Err((k, e)) = agree(&mut m, &g, &names) { return fail(k, desc, e); }
    }
    ok(desc, g.len() > 1)
}
fn main() { wit::main(&[Case { name: "histories", every: 1, run: history }]); }

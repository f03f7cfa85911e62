#![allow(dead_code)]
mod core;
mod dump;
mod gen;
mod geo;
mod p_dist;
mod p_draw;
mod p_misc;
mod p_dyn;
mod p_joint;
mod p_joint2;
mod p_geom;
mod p_life;
mod p_sym;
mod p_manifold;
mod p_math;
mod p_rest;
mod p_rope;
mod p_robust;
mod p_tree;
mod p_world;
mod rec;
mod sim;

fn all() -> Vec<core::Property> {
    let mut v = vec![];
    v.extend(p_geom::props());
    v.extend(p_dyn::props());
    v.extend(p_rest::props());
    v.extend(p_joint::props());
    v.extend(p_life::props());
    v.extend(p_sym::props());
    v.extend(p_rope::props());
    v.extend(p_draw::props());
    v.extend(p_misc::props());
    v.extend(p_robust::props());
    v.extend(p_world::props());
    v.extend(p_manifold::props());
    v.extend(p_tree::props());
    v.extend(p_math::props());
    v.extend(p_dist::props());
    v
}

fn main() {
    core::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let props: &'static [core::Property] = Box::leak(all().into_boxed_slice());
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .map(|s| {
            let s = s.trim().to_string();
            s.parse::<i64>().map(|v| v as u64).or_else(|_| s.parse::<u64>()).unwrap_or_else(|_| s.bytes().fold(7u64, |h, b| core::mix(h ^ b as u64)) >> 1)
        })
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let mut root = std::path::PathBuf::from("/verif");
            if let Some(i) = args.iter().position(|a| a == "--root") {
                root = args[i + 1].clone().into();
            }
            match props.iter().find(|p| p.id == id) {
                Some(p) => core::run_property(p, seed, &tier, &root),
                None => {
                    println!("unknown property {}", id);
                    2
                }
            }
        }
        Some("large") => {
            p_life::large(args[2].parse().unwrap(), &args[3]);
            0
        }
        Some("replay") => core::replay(props, &args[2]),
        Some("list") => {
            for p in props.iter() {
                println!("{} {}", p.id, p.parts.iter().map(|q| q.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}

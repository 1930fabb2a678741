//! C16: a transcript of everything observable about a set of types, to be
//! compared between build configurations.

use crate::structs::base;
use crate::*;
use mcmodel::report::hex;

fn h(b: &[u8]) -> String {
    hex(b).replace(' ', "")
}

pub fn run(entries: &[Entry]) {
    quiet_panics();
    let mut n = 0u64;
    let mut lines = 0u64;
    for e in entries {
        let ty = Ty::decode(e.desc);
        for (l, f, _) in e.views() {
            n += 1;
            let stat = guarded(f.size_static);
            println!("T {} {} {} align {} size {} {stat:?}", l.name(), e.src, e.desc, f.align, f.size_of);
            for salt in 0..3 {
                let bits = base(&ty, salt);
                let enc = guarded(|| h(&(f.enc)(&bits)));
                let trip = guarded(|| (f.trip)(&bits));
                println!("T {} {} {salt} {enc:?} {trip:x?}", l.name(), e.src);
                lines += 1;
            }
            for g in [0x01u8, 0x80, 0xff] {
                let img: Vec<u8> = (0..f.size_of).map(|i| g.wrapping_mul(i as u8 | 1)).collect();
                let dec = guarded(|| (f.dec)(&img));
                let pod = guarded(|| h(&(f.pod)(&img)));
                println!("T {} {} read {g} {dec:x?} {pod:?}", l.name(), e.src);
                lines += 1;
            }
        }
    }
    println!("MC {{\"kind\":\"count\",\"key\":\"types\",\"n\":{n}}}");
    println!("MC {{\"kind\":\"count\",\"key\":\"observations\",\"n\":{lines}}}");
    println!("MC {{\"kind\":\"done\",\"violations\":0}}");
}

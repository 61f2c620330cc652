mod sym;

/// Defines harness entry points and the table that runs them natively.
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $n() $b)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

#[cfg(any(feature = "wire", feature = "recv", feature = "send", feature = "net"))]
mod wire;
#[cfg(feature = "recv")]
mod recv;
#[cfg(feature = "send")]
mod send;
#[cfg(feature = "net")]
mod net;
#[cfg(feature = "net")]
mod sock;

fn main() {
    let mut t: Vec<(&str, extern "C" fn())> = vec![];
    #[cfg(any(feature = "wire", feature = "recv", feature = "send", feature = "net"))]
    t.extend_from_slice(wire::TABLE);
    #[cfg(feature = "recv")]
    t.extend_from_slice(recv::TABLE);
    #[cfg(feature = "send")]
    t.extend_from_slice(send::TABLE);
    #[cfg(feature = "net")]
    {
        t.extend_from_slice(net::TABLE);
        t.extend_from_slice(sock::TABLE);
    }
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in &t {
            println!("{n}");
        }
        return;
    }
    sym::load(&a[2]);
    let (_, f) = t.iter().find(|x| x.0 == a[1]).expect("no such harness");
    f();
    sym::end();
}

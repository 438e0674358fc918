#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(feature = "c26")]
pub mod c26;
#[cfg(feature = "c27")]
mod c27;
#[cfg(feature = "conn")]
pub mod common;

use crate::engine::Law;

pub struct Prop {
    pub id: &'static str,
    pub laws: Vec<Law>,
}

pub fn all() -> Vec<Prop> {
    let p = |id, laws| Prop { id, laws };
    vec![
        #[cfg(feature = "c01")]
        p("C01", c01::laws()),
        #[cfg(feature = "c02")]
        p("C02", c02::laws()),
        #[cfg(feature = "c03")]
        p("C03", c03::laws()),
        #[cfg(feature = "c04")]
        p("C04", c04::laws()),
        #[cfg(feature = "c05")]
        p("C05", c05::laws()),
        #[cfg(feature = "c06")]
        p("C06", c06::laws()),
        #[cfg(feature = "c07")]
        p("C07", c07::laws()),
        #[cfg(feature = "c08")]
        p("C08", c08::laws()),
        #[cfg(feature = "c09")]
        p("C09", c09::laws()),
        #[cfg(feature = "c10")]
        p("C10", c10::laws()),
        #[cfg(feature = "c11")]
        p("C11", c11::laws()),
        #[cfg(feature = "c12")]
        p("C12", c12::laws()),
        #[cfg(feature = "c13")]
        p("C13", c13::laws()),
        #[cfg(feature = "c14")]
        p("C14", c14::laws()),
        #[cfg(feature = "c15")]
        p("C15", c15::laws()),
        #[cfg(feature = "c16")]
        p("C16", c16::laws()),
        #[cfg(feature = "c17")]
        p("C17", c17::laws()),
        #[cfg(feature = "c18")]
        p("C18", c18::laws()),
        #[cfg(feature = "c19")]
        p("C19", c19::laws()),
        #[cfg(feature = "c20")]
        p("C20", c20::laws()),
        #[cfg(feature = "c21")]
        p("C21", c21::laws()),
        #[cfg(feature = "c22")]
        p("C22", c22::laws()),
        #[cfg(feature = "c23")]
        p("C23", c23::laws()),
        #[cfg(feature = "c24")]
        p("C24", c24::laws()),
        #[cfg(feature = "c25")]
        p("C25", c25::laws()),
        #[cfg(feature = "c26")]
        p("C26", c26::laws()),
        #[cfg(feature = "c27")]
        p("C27", c27::laws()),
    ]
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "the reference model in harness/src/model is a faithful reading of RFC 9000/9001/8446/5869",
        "inputs outside the generators' ranges are not covered",
    ];
    match id {
        "C08" | "C09" | "C10" | "C11" | "C12" | "C16" | "C17" | "C24" | "C27" => {
            v.push("ring 0.16 implements HMAC-SHA256, AES-128-GCM and AES-128-ECB masks correctly")
        }
        "C21" => v.push("the loopback interface delivers a datagram before send_to returns, unless the receive buffer is full"),
        "C26" => v.push("addresses 127.64.0.0/10, ports 20011 to 20014, are bindable and unused by others; where they are not, cases are skipped and labelled so"),
        "C25" => v.push("statistical: a generator that passes the counts made here but is predictable is not noticed; a sound one fails once in more than 10^6 runs"),
        "C23" => v.push("python3 on PATH runs the tool as it would run for a user"),
        _ => {}
    }
    match id {
        "C03" | "C04" | "C05" | "C11" | "C12" | "C17" => {
            v.push("decoded frames are observed through serialize_frames and an independent parser; fields the library neither exposes nor serialises are not observed")
        }
        _ => {}
    }
    if matches!(id, "C13" | "C14" | "C11" | "C17" | "C27") {
        v.push("receive and acknowledgement state is set through the guarded hook, because no code path of the library updates it yet")
    }
    v
}

/// multiplier of the case counts written at the laws, so that a quick run is 10 to 30 s of work
pub fn scale(id: &str, thorough: bool) -> u32 {
    let q = match id {
        "C06" => 4,
        "C23" => 3,
        "C01" | "C02" | "C08" | "C09" | "C16" | "C19" => 40,
        "C22" => 10,
        _ => 15,
    };
    if thorough {
        10
    } else {
        q
    }
}

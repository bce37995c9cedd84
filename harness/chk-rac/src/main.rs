#![allow(deprecated)]
mod curves;
mod line;
mod schnorr;
use mon::Check;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut k = Check::new(&id);
    match id.as_str() {
        "R01" => {
            k.rule("values of 16 fixed-length types (arrays, empty, nested pairs, curve pairs) written and read as arrays, through serde in a binary and a text format, and from truncated, mistyped or invalid encodings; non-trivial = distinct byte string judged");
            k.family("lines", 60_000, 2_000_000, line::lines);
            k.family("validity", 20_000, 600_000, line::validity);
            k.family("serde", 20_000, 600_000, line::serde_lines);
            k.floor("lines round-tripped", 10_000);
            k.floor("invalid component rejected", 1_000);
            k.floor("truncations rejected", 10_000);
        }
        "R02" => {
            k.assume("the independent textbook model of the three curves in harness/models/src/curves.rs (it reproduces the standard base points and agrees on every execution observed)");
            k.rule("group and scalar-field operations on random, structured, small-order and derived operands compared with independent textbook arithmetic; both orders of key agreement; non-trivial = distinct operand set");
            k.family("edwards", 6_000, 150_000, curves::edwards);
            k.family("montgomery", 6_000, 150_000, curves::montgomery);
            k.family("secp256k1", 2_000, 60_000, curves::secp);
            k.floor("key agreements", 5_000);
            k.floor("scalar operations", 10_000);
        }
        "R03" => {
            k.assume("the independent textbook model of the three curves in harness/models/src/curves.rs");
            k.rule("byte strings offered as scalars, points, compressed points and compact signatures: random, boundary values around the field and group orders, small-order and non-canonical points, mutated valid encodings; acceptance and value compared with the model; non-trivial = distinct byte string");
            k.family("25519", 80_000, 3_000_000, curves::decode_25519);
            k.family("secp256k1", 60_000, 2_000_000, curves::decode_secp);
            k.family("reread", 2_000, 50_000, curves::reread_derived);
            k.floor("accepted", 3_000);
            k.floor("rejected", 3_000);
        }
        "R04" => {
            k.assume("the independent textbook model of the curves and SHA3-256 of the library");
            k.rule("signatures made by the signer or built by an independent model over random, structured and boundary keys, seeds and messages of 0..400 bytes and of many megabytes; verified as made and after being written and read; non-trivial = distinct (key, seed, message)");
            k.family("ed25519", 6_000, 200_000, schnorr::made);
            k.family("ed25519-wire", 3_000, 100_000, schnorr::wire_ed);
            k.family("secp256k1-wire", 2_500, 80_000, schnorr::wire_secp);
            k.family("ed25519-reread", 200, 5_000, schnorr::reread);
            k.family("huge", 24, 120, schnorr::huge);
            k.floor("signatures verified", 8_000);
            k.floor("formula compared", 4_000);
        }
        "R05" => {
            k.assume("the independent textbook model of the curves and SHA3-256 of the library");
            k.rule("genuine signatures verified under another message, key or altered signature bytes, and arbitrary bytes as signature and key; verdict compared with the model's and expected to be a rejection for every alteration; non-trivial = distinct altered triple");
            k.family("ed25519", 4_000, 150_000, schnorr::altered_ed);
            k.family("secp256k1", 1_500, 60_000, schnorr::altered_secp);
            k.family("hostile", 5_000, 200_000, schnorr::hostile);
            k.family("huge", 24, 120, schnorr::huge);
            k.family("forged", 3_000, 120_000, schnorr::forged);
            k.family("malicious-signer", 64, 2_000, schnorr::infinity);
            k.floor("alterations rejected", 4_000);
            k.floor("hostile verdicts", 1_000);
            k.floor("forgeries judged", 1_500);
        }
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    k.finish()
}

//! C24: varints and tags, for every 32-bit value.

use serde::{Deserialize, Serialize};
use steit::{
    de::{Deserialize as De, Reader},
    ser::Serialize as _,
    wire_fmt::{self, HasWireType, WireType},
};

use crate::{
    ensure,
    model::{put_varint, unzigzag, zigzag, FIELD_MAX},
    run::{hash, Check, Run},
};

/// Values of a type from one on.
#[derive(Serialize, Deserialize, Clone, Hash)]
struct Range {
    what: String,
    from: u64,
    to: u64,
}

/// The number of bytes of a varint, as defined: one for every seven bits, and at least one.
fn minimal(bits: u64) -> usize {
    let mut n = 1;
    let mut rest = bits >> 7;
    while rest != 0 {
        n += 1;
        rest >>= 7;
    }
    n
}

macro_rules! exact {
    ($name:ident, $t:ty, $to_bits:expr, $from_bits:expr) => {
        fn $name(bits: u64) -> Check {
            let from_bits: fn(u64) -> $t = $from_bits;
            let to_bits: fn($t) -> u64 = $to_bits;
            let x: $t = from_bits(bits);
            ensure!(to_bits(x) == bits, "harness: {} isn't {}", x, bits);
            let mut expected = [0u8; 10];
            let n = {
                let mut v = bits;
                let mut n = 0;
                while v >= 0x80 {
                    expected[n] = v as u8 | 0x80;
                    v >>= 7;
                    n += 1;
                }
                expected[n] = v as u8;
                n + 1
            };
            ensure!(n == minimal(bits), "harness: {} bytes of {}", n, bits);
            let size = x.compute_size() as usize;
            ensure!(size == n, "predicted {} bytes instead of {} for {}", size, n, x);
            let mut buf = [0x55u8; 16];
            let left = {
                let mut writer = &mut buf[..];
                x.steit_serialize(&mut writer).map_err(|e| format!("cannot encode {}: {}", x, e))?;
                writer.len()
            };
            ensure!(
                16 - left == n && buf[..n] == expected[..n],
                "{} encoded as {:?} instead of {:?}",
                x,
                &buf[..16 - left],
                &expected[..n]
            );
            // What follows is not to be consumed.
            buf[n] = 0x95;
            let mut reader = &buf[..n + 1];
            let y = <$t as De>::deserialize(&mut Reader::new(&mut reader)).map_err(|e| format!("cannot decode {}: {}", x, e))?;
            ensure!(y == x, "{} decoded as {}", x, y);
            ensure!(reader == [0x95], "decoding {} consumed {} bytes", x, n + 1 - reader.len());
            Ok(())
        }
    };
}

exact!(u8_, u8, |x| x as u64, |b| b as u8);
exact!(u16_, u16, |x| x as u64, |b| b as u16);
exact!(u32_, u32, |x| x as u64, |b| b as u32);
exact!(u64_, u64, |x| x, |b| b);
exact!(i8_, i8, |x| zigzag(x as i64), |b| unzigzag(b) as i8);
exact!(i16_, i16, |x| zigzag(x as i64), |b| unzigzag(b) as i16);
exact!(i32_, i32, |x| zigzag(x as i64), |b| unzigzag(b) as i32);
exact!(i64_, i64, zigzag, unzigzag);

fn bool_(bits: u64) -> Check {
    let x = bits != 0;
    ensure!(x.compute_size() == 1, "predicted {} bytes for {}", x.compute_size(), x);
    let bytes = x.to_bytes();
    ensure!(bytes == [bits as u8], "{} encoded as {:?}", x, bytes);
    let y = <bool as De>::deserialize(&mut Reader::new(&*bytes)).map_err(|e| e.to_string())?;
    ensure!(y == x, "{} decoded as {}", x, y);
    Ok(())
}

fn tag_(bits: u64) -> Check {
    let value = bits as u32;
    let number = (bits / 8) as u32;
    match wire_fmt::parse_tag(value) {
        Ok((n, wire_type)) => {
            let expected = match bits % 8 {
                0 => WireType::Varint,
                2 => WireType::Sized,
                other => return Err(format!("tag {} of wire type {} is accepted", value, other)),
            };
            ensure!(n == number && wire_type == expected, "tag {} split into {} and {:?}", value, n, wire_type);
            ensure!(wire_type.value() as u64 == bits % 8, "wire type {:?} is {}", wire_type, wire_type.value());
            for back in [wire_fmt::tag(n, wire_type), wire_type.tag(n)] {
                let back = back.map_err(|e| format!("cannot compose tag {}: {}", value, e))?;
                ensure!(back == value, "tag {} composed back as {}", value, back);
            }
        }
        Err(e) => {
            let legal = matches!(bits % 8, 0 | 2);
            ensure!(!legal, "tag {} is rejected: {}", value, e);
        }
    }
    Ok(())
}

/// Legal tags only: two for each field number.
fn legal_tag(bits: u64) -> Check {
    if bits < 1 << 30 {
        tag_((bits >> 1) * 8 + (bits & 1) * 2)
    } else {
        Ok(())
    }
}

fn field_(bits: u64) -> Check {
    let number = bits as u32;
    let valid = number <= FIELD_MAX;
    let res = wire_fmt::validate_field_number(number);
    ensure!(res.is_ok() == valid, "field number {} is {}", number, if valid { "rejected" } else { "accepted" });
    for (wire_type, low) in [(WireType::Varint, 0), (WireType::Sized, 2)] {
        for res in [wire_fmt::tag(number, wire_type), wire_type.tag(number)] {
            match res {
                Ok(tag) => ensure!(valid && tag as u64 == bits * 8 + low, "tag of field {} is {}", number, tag),
                Err(e) => ensure!(!valid, "field number {} is rejected: {}", number, e),
            }
        }
    }
    Ok(())
}

/// Tags as read from input.
fn read_tag(bits: u64) -> Check {
    let mut buf = Vec::with_capacity(6);
    put_varint(bits, &mut buf);
    buf.push(0xee);
    let mut reader = &*buf;
    let res = Reader::new(&mut reader).read_tag();
    match res {
        Ok((n, wire_type)) => ensure!(
            n as u64 == bits >> 3 && wire_type.value() as u64 == bits & 7 && reader == [0xee],
            "tag {} read as {} and {:?}",
            bits,
            n,
            wire_type
        ),
        Err(e) => ensure!(!matches!(bits & 7, 0 | 2), "tag {} is rejected: {}", bits, e),
    }
    Ok(())
}

fn wire_type(bits: u64) -> Check {
    match (WireType::from_value(bits as u32), bits) {
        (Ok(WireType::Varint), 0) | (Ok(WireType::Sized), 2) => Ok(()),
        (Err(_), x) if x != 0 && x != 2 => Ok(()),
        (res, x) => Err(format!("wire type {} is {:?}", x, res.ok())),
    }
}

/// The tag of the field of a value, as written.
fn nested_tag(bits: u64) -> Check {
    let number = bits as u32;
    let valid = number <= FIELD_MAX;
    let x = 1u8;
    let mut buf = [0u8; 16];
    let mut writer = &mut buf[..];
    let size = x.compute_size_nested(number, false);
    let res = x.serialize_nested(number, false, &mut writer);
    let left = writer.len();
    ensure!(size.is_ok() == valid && res.is_ok() == valid, "a value with field number {} is {:?}", number, res);
    ensure!(u8::WIRE_TYPE == WireType::Varint, "wire type of integers has changed");
    if valid {
        let mut expected = Vec::with_capacity(8);
        put_varint(bits * 8, &mut expected);
        expected.push(1);
        ensure!(size.unwrap() as usize == expected.len(), "predicted a wrong size for field number {}", number);
        ensure!(buf[..16 - left] == *expected, "field {} encoded as {:?}", number, &buf[..16 - left]);
    }
    Ok(())
}

type One = fn(u64) -> Check;

const KINDS: &[(&str, u64, One)] = &[
    ("bool", 2, bool_),
    ("u8", 1 << 8, u8_),
    ("i8", 1 << 8, i8_),
    ("u16", 1 << 16, u16_),
    ("i16", 1 << 16, i16_),
    ("u32", 1 << 32, u32_),
    ("i32", 1 << 32, i32_),
    ("u64", 0, u64_),
    ("i64", 0, i64_),
    ("tag", 1 << 32, tag_),
    ("legal_tag", 1 << 32, legal_tag),
    ("field", 1 << 32, field_),
    ("read_tag", 1 << 32, read_tag),
    ("wire_type", 1 << 32, wire_type),
    ("nested_tag", 1 << 32, nested_tag),
];

fn check(range: &Range) -> Check {
    let one = KINDS.iter().find(|k| k.0 == range.what).expect("harness: unknown kind").2;
    for bits in range.from..=range.to {
        one(bits)?;
    }
    Ok(())
}

/// Every 64-bit value with up to four runs of ones.
fn runs() -> Vec<u64> {
    let mut out = vec![0];
    let below = |n: u32| if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
    for a in 0..=64 {
        for b in 0..=a {
            let x = below(a) ^ below(b);
            for c in 0..=b {
                for d in 0..=c {
                    out.push(x ^ below(c) ^ below(d));
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

pub fn c24(run: &Run) {
    if run.replaying::<Range>("range", check) {
        return;
    }
    let mut values = 0;
    for (what, n, _) in KINDS {
        run.phase(what);
        let mut items = Vec::new();
        if *n == 0 {
            // Around each value of a pattern.
            for x in runs() {
                items.push(Range { what: what.to_string(), from: x.saturating_sub(2), to: x.saturating_add(2) });
            }
        } else if !run.thorough && !matches!(*what, "u32" | "i32") && *n == 1 << 32 {
            // All small values, all legal tags, and otherwise those with up to four runs of ones, and their
            // neighbours.
            let block = 1 << 18;
            let small = match *what {
                "legal_tag" => 1 << 30,
                "tag" => 1 << 26,
                _ => 1 << 24,
            };
            for i in 0..small / block {
                items.push(Range { what: what.to_string(), from: i * block, to: (i + 1) * block - 1 });
            }
            for x in runs().into_iter().filter(|x| *x >= small && *x < *n) {
                items.push(Range { what: what.to_string(), from: x - 8, to: (x + 8).min(n - 1) });
            }
        } else {
            let n = if *what == "legal_tag" { 1 << 30 } else { *n };
            let block = (1 << 18).min(n);
            let mut from = 0;
            while from < n {
                items.push(Range { what: what.to_string(), from, to: from + block - 1 });
                from += block;
            }
        }
        let count: u64 = items.iter().map(|r| r.to - r.from + 1).sum();
        values += count;
        run.note(&format!("values_{}", what), count);
        run.par(&items, |r| {
            let mut failed = None;
            run.case("range", r, |r| {
                let res = check(r);
                if res.is_err() {
                    failed = (r.from..=r.to).find(|x| check(&Range { from: *x, to: *x, ..r.clone() }).is_err());
                }
                res.map_err(|e| format!("{} (value {:?})", e, failed))
            });
            if hash(r) % 30011 == 5 {
                run.sample(r);
            }
        });
        if run.stopped() {
            return;
        }
    }
    run.states.store(values, std::sync::atomic::Ordering::Relaxed);
    run.transitions.store(values * 2, std::sync::atomic::Ordering::Relaxed);
    run.assume("64-bit values are covered up to four runs of one bits and their neighbours, 8- to 32-bit ones completely.");
}

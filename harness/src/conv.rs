//! Conversions between the library's types and JSON.

// the library's types may grow
#![allow(unreachable_patterns)]

use crate::json::J;
use crate::obj;
use crate::squeeze::Squeeze;
use mp4ameta::*;
use std::convert::TryFrom;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn b(v: &[u8]) -> J {
    J::from_bytes(v)
}

pub fn none() -> J {
    J::Arr(vec![])
}

/// An option is an array of at most one element.
pub fn opt(o: Option<J>) -> J {
    J::Arr(o.into_iter().collect())
}

pub fn id_out(i: &DataIdent) -> J {
    let e = none;
    match i {
        DataIdent::Fourcc(f) => {
            obj! {"k" => J::Str("f".into()), "b" => b(&f.0), "mean" => e(), "name" => e()}
        }
        DataIdent::Freeform { mean, name } => {
            obj! {"k" => J::Str("x".into()), "b" => e(), "mean" => J::from_text(mean), "name" => J::from_text(name)}
        }
    }
}

pub fn fourcc(j: &J) -> Fourcc {
    let v = j.bytes();
    Fourcc([v[0], v[1], v[2], v[3]])
}

pub fn id_in(j: &J) -> DataIdent {
    if j.get("k").str() == "f" {
        DataIdent::Fourcc(fourcc(j.get("b")))
    } else {
        DataIdent::freeform(j.get("mean").text(), j.get("name").text())
    }
}

/// Zeros that are left out of values of gigabytes, 0: none.
pub static SQUEEZE: AtomicU64 = AtomicU64::new(0);

/// Bytes, without the zeros that are left out.
fn content(v: &[u8]) -> J {
    let k = SQUEEZE.load(Ordering::Relaxed);
    if k == 0 || (v.len() as u64) < k {
        return b(v);
    }
    let mut s = Squeeze::new(k);
    s.bytes(v);
    s.end();
    b(&s.out)
}

pub fn data_out(d: &Data) -> J {
    let (t, v) = match d {
        Data::Reserved(v) => (0, content(v)),
        Data::Utf8(s) => (1, J::from_text(s)),
        Data::Utf16(s) => (2, J::from_text(s)),
        Data::Jpeg(v) => (13, content(v)),
        Data::Png(v) => (14, content(v)),
        Data::BeSigned(v) => (21, content(v)),
        Data::Bmp(v) => (27, content(v)),
        _ => (-1, none()),
    };
    obj! {"t" => J::Int(t), "v" => v}
}

pub fn data_in(j: &J) -> Data {
    let v = j.get("v");
    let image = || {
        let mut b = v.bytes();
        if j.has("huge") {
            let h = j.get("huge").arr();
            let (p, k) = (h[0].int() as usize, h[1].int() as usize);
            let mut big = vec![0; b.len() + k]; // costs no memory
            big[..p].copy_from_slice(&b[..p]);
            big[p + k..].copy_from_slice(&b[p..]);
            return big;
        }
        if let J::Int(z) = j.get("z") {
            b.resize(b.len() + *z as usize, 0);
        }
        b
    };
    match j.get("t").int() {
        0 => Data::Reserved(image()),
        1 => Data::Utf8(v.text()),
        2 => Data::Utf16(v.text()),
        13 => Data::Jpeg(image()),
        14 => Data::Png(image()),
        21 => Data::BeSigned(image()),
        27 => Data::Bmp(image()),
        t => panic!("type {}", t),
    }
}

pub fn img_code(f: &ImgFmt) -> i64 {
    match f {
        ImgFmt::Jpeg => 13,
        ImgFmt::Png => 14,
        ImgFmt::Bmp => 27,
    }
}

pub fn img_out(f: &ImgFmt, d: &[u8]) -> J {
    obj! {"t" => J::Int(img_code(f)), "v" => b(d)}
}

pub fn img_in(j: &J) -> ImgBuf {
    let v = j.get("v").bytes();
    match j.get("t").int() {
        13 => Img::jpeg(v),
        14 => Img::png(v),
        _ => Img::bmp(v),
    }
}

/// The items of a tag, as its iterator over all data shows them.
pub fn items_out(tag: &Tag) -> J {
    let mut out: Vec<(DataIdent, Vec<J>)> = Vec::new();
    for (i, d) in tag.data() {
        match out.last_mut() {
            Some((l, v)) if l == i => v.push(data_out(d)),
            _ => out.push((i.clone(), vec![data_out(d)])),
        }
    }
    J::Arr(
        out.into_iter().map(|(i, v)| obj! {"id" => id_out(&i), "data" => J::Arr(v)}).collect(),
    )
}

pub fn load_items(tag: &mut Tag, items: &J) {
    for it in items.arr() {
        let id = id_in(it.get("id"));
        for d in it.get("data").arr() {
            tag.add_data(id.clone(), data_in(d));
        }
    }
}

pub const CHANNELS: [ChannelConfig; 7] = [
    ChannelConfig::Mono,
    ChannelConfig::Stereo,
    ChannelConfig::Three,
    ChannelConfig::Four,
    ChannelConfig::Five,
    ChannelConfig::FiveOne,
    ChannelConfig::SevenOne,
];
pub const RATES: [SampleRate; 13] = [
    SampleRate::Hz96000,
    SampleRate::Hz88200,
    SampleRate::Hz64000,
    SampleRate::Hz48000,
    SampleRate::Hz44100,
    SampleRate::Hz32000,
    SampleRate::Hz24000,
    SampleRate::Hz22050,
    SampleRate::Hz16000,
    SampleRate::Hz12000,
    SampleRate::Hz11025,
    SampleRate::Hz8000,
    SampleRate::Hz7350,
];
pub const MEDIA: [MediaType; 8] = [
    MediaType::Movie,
    MediaType::Normal,
    MediaType::AudioBook,
    MediaType::WhackedBookmark,
    MediaType::MusicVideo,
    MediaType::ShortFilm,
    MediaType::TvShow,
    MediaType::Booklet,
];
pub const RATINGS: [AdvisoryRating; 3] =
    [AdvisoryRating::Clean, AdvisoryRating::Inoffensive, AdvisoryRating::Explicit];

pub fn index<T: PartialEq>(a: &[T], x: &T) -> J {
    J::Int(a.iter().position(|y| y == x).unwrap() as i64)
}

pub fn u32b(v: u32) -> J {
    b(&v.to_be_bytes())
}

/// Audio information: channel configuration as position in the enumeration from 1, sample rate
/// from 0, -1 if absent; numbers as big-endian bytes.
pub fn info_out(tag: &Tag) -> J {
    let i = tag.audio_info();
    let same = i.duration == tag.duration()
        && i.channel_config == tag.channel_config()
        && i.sample_rate == tag.sample_rate()
        && i.max_bitrate == tag.max_bitrate()
        && i.avg_bitrate == tag.avg_bitrate();
    obj! {
        "dur" => opt(i.duration.map(|d| obj!{"s" => b(&d.as_secs().to_be_bytes()), "n" => u32b(d.subsec_nanos())})),
        "ch" => i.channel_config.map_or(J::Int(-1), |c| J::Int(1 + CHANNELS.iter().position(|x| *x == c).unwrap() as i64)),
        "sr" => i.sample_rate.map_or(J::Int(-1), |c| index(&RATES, &c)),
        "maxb" => i.max_bitrate.map_or(none(), u32b),
        "avgb" => i.avg_bitrate.map_or(none(), u32b),
        "same" => J::Bool(same),
    }
}

pub fn info_in(j: &J) -> AudioInfo {
    let u = |j: &J| {
        let v = j.bytes();
        if v.is_empty() {
            None
        } else {
            Some(u32::from_be_bytes([v[0], v[1], v[2], v[3]]))
        }
    };
    let mut i = AudioInfo::default();
    if let Some(d) = j.get("dur").arr().first() {
        let s = <[u8; 8]>::try_from(d.get("s").bytes().as_slice()).unwrap();
        i.duration =
            Some(std::time::Duration::new(u64::from_be_bytes(s), u(d.get("n")).unwrap()));
    }
    let ch = j.get("ch").int();
    if ch >= 1 {
        i.channel_config = Some(CHANNELS[ch as usize - 1]);
    }
    let sr = j.get("sr").int();
    if sr >= 0 {
        i.sample_rate = Some(RATES[sr as usize]);
    }
    i.max_bitrate = u(j.get("maxb"));
    i.avg_bitrate = u(j.get("avgb"));
    i
}

pub fn tag_out(tag: &Tag) -> J {
    obj! {
        "ftyp" => J::from_text(tag.filetype()),
        "items" => items_out(tag),
        "info" => info_out(tag),
    }
}

/// The first characters written, without those that'd need escaping.
struct Shown(String);

impl std::fmt::Write for Shown {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.0.len() >= 300 {
                return Err(std::fmt::Error);
            }
            self.0.push(if (' '..='~').contains(&c) && c != '"' && c != '\\' { c } else { '?' });
        }
        Ok(())
    }
}

pub fn err_out(e: &Error) -> J {
    let (k, a) = match &e.kind {
        ErrorKind::AtomNotFound(f) => ("AtomNotFound", b(&f.0)),
        ErrorKind::DescriptorNotFound(t) => ("DescriptorNotFound", b(&[*t])),
        ErrorKind::Io(e) => {
            ("Io", J::Arr(vec![J::Int(e.raw_os_error().unwrap_or(0) as i64)]))
        }
        ErrorKind::NoTag => ("NoTag", none()),
        ErrorKind::Parsing => ("Parsing", none()),
        ErrorKind::UnknownChannelConfig(v) => ("UnknownChannelConfig", b(&[*v])),
        ErrorKind::UnknownDataType(t) => ("UnknownDataType", J::Arr(vec![J::Int(*t as i64)])),
        ErrorKind::UnknownMediaType(v) => ("UnknownMediaType", b(&[*v])),
        ErrorKind::UnknownVersion(v) => ("UnknownVersion", b(&[*v])),
        ErrorKind::Utf8StringDecoding(e) => ("Utf8StringDecoding", b(e.as_bytes())),
        ErrorKind::Utf16StringDecoding(_) => ("Utf16StringDecoding", none()),
        ErrorKind::UnwritableData => ("UnwritableData", none()),
        _ => ("other", none()),
    };
    // the operating system's error the error was caused by
    #[allow(deprecated)]
    let c = match (std::error::Error::cause(e), &e.kind) {
        // told from its description, as causes can't be downcast
        (Some(c), ErrorKind::Io(i)) if c.to_string() == i.to_string() => i.raw_os_error(),
        _ => None,
    };
    // what a user is shown, its beginning
    let mut d = Shown(String::new());
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::fmt::Write::write_fmt(&mut d, format_args!("{}", e))));
    let d = d.0;
    obj! {"k" => J::Str(k.into()), "a" => a, "c" => opt(c.map(|c| J::Int(c as i64))), "d" => J::Str(d)}
}

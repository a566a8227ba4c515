//! Operations on tags.

use crate::conv::*;
use crate::json::J;
use crate::obj;
use mp4ameta::*;
use std::convert::TryFrom;

// Predicates over values: all, none, content equal to v, content not longer than n (bytes, or
// characters of text), type t, identifier id (only for operations over all items), and the
// negation of each.
fn pred(p: &J, id: Option<&DataIdent>, t: i64, content: &[u32]) -> bool {
    let r = match p.get("k").str() {
        "all" => true,
        "none" => false,
        "eq" => {
            let v: Vec<u32> = p.get("v").arr().iter().map(|x| x.int() as u32).collect();
            v == content
        }
        "le" => content.len() as i64 <= p.get("n").int(),
        "type" => t == p.get("n").int(),
        "id" => id.map_or(false, |i| *i == id_in(p.get("id"))),
        k => panic!("predicate {}", k),
    };
    r != p.get("not").bool()
}

fn cb(v: &[u8]) -> Vec<u32> {
    v.iter().map(|x| *x as u32).collect()
}
fn cs(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
fn cd(d: &Data) -> (i64, Vec<u32>) {
    match d {
        Data::Reserved(v) => (0, cb(v)),
        Data::Utf8(s) => (1, cs(s)),
        Data::Utf16(s) => (2, cs(s)),
        Data::Jpeg(v) => (13, cb(v)),
        Data::Png(v) => (14, cb(v)),
        Data::BeSigned(v) => (21, cb(v)),
        Data::Bmp(v) => (27, cb(v)),
    }
}

fn text(s: &str) -> J {
    J::from_text(s)
}
fn img(i: Img<&[u8]>) -> J {
    img_out(&i.fmt, i.data)
}
fn imgbuf(i: ImgBuf) -> J {
    img_out(&i.fmt, &i.data)
}
fn at<T>(i: &DataIdent, f: T) -> J
where
    T: Into<J>,
{
    obj! {"id" => id_out(i), "v" => f.into()}
}

fn arr(i: impl Iterator<Item = J>) -> J {
    J::Arr(i.collect())
}

/// The first k elements, then the iterator is dropped; all if k is negative.
fn first(i: impl Iterator<Item = J>, k: i64) -> J {
    if k < 0 {
        J::Arr(i.collect())
    } else {
        J::Arr(i.take(k as usize).collect())
    }
}

macro_rules! with_id {
    ($j:expr, $id:ident, $e:expr) => {{
        let j = $j.get("id");
        match ($j.get("idk").str(), j.get("k").str()) {
            ("n", "f") => {
                let $id = fourcc(j.get("b"));
                $e
            }
            ("n", _) => {
                let (mean, name) = (j.get("mean").text(), j.get("name").text());
                let $id = FreeformIdent::new(&mean, &name);
                $e
            }
            _ => {
                let $id = id_in(j);
                $e
            }
        }
    }};
}

macro_rules! single {
    ($t:expr, $m:expr, $j:expr, $($f:literal $get:ident $take:ident $set:ident $rem:ident;)*) => {
        match ($j.get("fld").str(), $m) {
            $(
                ($f, "get") => opt($t.$get().map(text)),
                ($f, "take") => opt($t.$take().map(|s| text(&s))),
                ($f, "set") => { $t.$set($j.get("v").text()); none() }
                ($f, "remove") => { $t.$rem(); none() }
            )*
            (f, m) => panic!("{} {}", f, m),
        }
    };
}

macro_rules! multi {
    ($t:expr, $m:expr, $j:expr, $($f:literal $get:ident $gets:ident $take:ident $takes:ident $set:ident $sets:ident $add:ident $adds:ident $rem:ident;)*) => {
        match ($j.get("fld").str(), $m) {
            $(
                ($f, "get") => opt($t.$get().map(text)),
                ($f, "getall") => arr($t.$gets().map(text)),
                ($f, "take") => opt($t.$take().map(|s| text(&s))),
                ($f, "takeall") => first($t.$takes().map(|s| text(&s)), $j.get("n").int()),
                ($f, "set") => { $t.$set($j.get("v").text()); none() }
                ($f, "setall") => { $t.$sets($j.get("vs").arr().iter().map(|v| v.text())); none() }
                ($f, "add") => { $t.$add($j.get("v").text()); none() }
                ($f, "addall") => { $t.$adds($j.get("vs").arr().iter().map(|v| v.text())); none() }
                ($f, "remove") => { $t.$rem(); none() }
            )*
            (f, m) => panic!("{} {}", f, m),
        }
    };
}

macro_rules! flag {
    ($t:expr, $m:expr, $j:expr, $($f:literal $get:ident $set:ident $rem:ident;)*) => {
        match ($j.get("fld").str(), $m) {
            $(
                ($f, "get") => J::Int($t.$get() as i64),
                ($f, "set") => { $t.$set(); none() }
                ($f, "remove") => { $t.$rem(); none() }
            )*
            (f, m) => panic!("{} {}", f, m),
        }
    };
}

fn u16v(j: &J) -> u16 {
    let v = j.bytes();
    u16::from_be_bytes(<[u8; 2]>::try_from(v.as_slice()).unwrap())
}
fn u32v(j: &J) -> u32 {
    let v = j.bytes();
    u32::from_be_bytes(<[u8; 4]>::try_from(v.as_slice()).unwrap())
}

macro_rules! num {
    ($t:expr, $m:expr, $j:expr, $conv:ident, $($f:literal $get:ident $set:ident $rem:ident;)*) => {
        match ($j.get("fld").str(), $m) {
            $(
                ($f, "get") => opt($t.$get().map(|v| b(&v.to_be_bytes()))),
                ($f, "set") => { $t.$set($conv($j.get("v"))); none() }
                ($f, "remove") => { $t.$rem(); none() }
            )*
            (f, m) => panic!("{} {}", f, m),
        }
    };
}

fn field(t: &mut Tag, m: &str, j: &J) -> J {
    match j.get("cls").str() {
        "single" => single! {t, m, j,
            "album" album take_album set_album remove_album;
            "copyright" copyright take_copyright set_copyright remove_copyright;
            "encoder" encoder take_encoder set_encoder remove_encoder;
            "lyrics" lyrics take_lyrics set_lyrics remove_lyrics;
            "movement" movement take_movement set_movement remove_movement;
            "title" title take_title set_title remove_title;
            "tv_episode_name" tv_episode_name take_tv_episode_name set_tv_episode_name remove_tv_episode_name;
            "tv_network_name" tv_network_name take_tv_network_name set_tv_network_name remove_tv_network_name;
            "tv_show_name" tv_show_name take_tv_show_name set_tv_show_name remove_tv_show_name;
            "work" work take_work set_work remove_work;
            "year" year take_year set_year remove_year;
            "isrc" isrc take_isrc set_isrc remove_isrc;
        },
        "multi" => multi! {t, m, j,
            "album_artist" album_artist album_artists take_album_artist take_album_artists set_album_artist set_album_artists add_album_artist add_album_artists remove_album_artists;
            "artist" artist artists take_artist take_artists set_artist set_artists add_artist add_artists remove_artists;
            "category" category categories take_category take_categories set_category set_categories add_category add_categories remove_categories;
            "comment" comment comments take_comment take_comments set_comment set_comments add_comment add_comments remove_comments;
            "composer" composer composers take_composer take_composers set_composer set_composers add_composer add_composers remove_composers;
            "custom_genre" custom_genre custom_genres take_custom_genre take_custom_genres set_custom_genre set_custom_genres add_custom_genre add_custom_genres remove_custom_genres;
            "description" description descriptions take_description take_descriptions set_description set_descriptions add_description add_descriptions remove_descriptions;
            "grouping" grouping groupings take_grouping take_groupings set_grouping set_groupings add_grouping add_groupings remove_groupings;
            "keyword" keyword keywords take_keyword take_keywords set_keyword set_keywords add_keyword add_keywords remove_keywords;
            "lyricist" lyricist lyricists take_lyricist take_lyricists set_lyricist set_lyricists add_lyricist add_lyricists remove_lyricists;
        },
        "flag" => flag! {t, m, j,
            "compilation" compilation set_compilation remove_compilation;
            "gapless_playback" gapless_playback set_gapless_playback remove_gapless_playback;
            "show_movement" show_movement set_show_movement remove_show_movement;
        },
        "u16" => num! {t, m, j, u16v,
            "bpm" bpm set_bpm remove_bpm;
            "movement_count" movement_count set_movement_count remove_movement_count;
            "movement_index" movement_index set_movement_index remove_movement_index;
        },
        "u32" => num! {t, m, j, u32v,
            "tv_episode" tv_episode set_tv_episode remove_tv_episode;
            "tv_season" tv_season set_tv_season remove_tv_season;
        },
        "art" => match m {
            "get" => opt(t.artwork().map(img)),
            "getall" => arr(t.artworks().map(img)),
            "take" => opt(t.take_artwork().map(imgbuf)),
            "takeall" => first(t.take_artworks().map(imgbuf), j.get("n").int()),
            "set" => {
                t.set_artwork(img_in(j.get("v")));
                none()
            }
            "setall" => {
                t.set_artworks(j.get("vs").arr().iter().map(img_in));
                none()
            }
            "add" => {
                t.add_artwork(img_in(j.get("v")));
                none()
            }
            "addall" => {
                t.add_artworks(j.get("vs").arr().iter().map(img_in));
                none()
            }
            "remove" => {
                t.remove_artworks();
                none()
            }
            m => panic!("art {}", m),
        },
        // enumerations are given and shown by their position in the declaration
        "media" => match m {
            "get" => opt(t.media_type().map(|x| index(&MEDIA, &x))),
            "set" => {
                t.set_media_type(MEDIA[j.get("v").int() as usize]);
                none()
            }
            "remove" => {
                t.remove_media_type();
                none()
            }
            m => panic!("media {}", m),
        },
        "rating" => match m {
            "get" => opt(t.advisory_rating().map(|x| index(&RATINGS, &x))),
            "set" => {
                t.set_advisory_rating(RATINGS[j.get("v").int() as usize]);
                none()
            }
            "remove" => {
                t.remove_advisory_rating();
                none()
            }
            m => panic!("rating {}", m),
        },
        c => panic!("class {}", c),
    }
}

macro_rules! pair {
    ($t:expr, $m:expr, $j:expr, $get:ident $num:ident $tot:ident $set:ident $setn:ident $sett:ident $rem:ident $remn:ident $remt:ident) => {{
        let v = |x: Option<u16>| opt(x.map(|v| J::Int(v as i64)));
        match $m {
            "both" => {
                let (n, o) = $t.$get();
                J::Arr(vec![v(n), v(o)])
            }
            "number" => v($t.$num()),
            "total" => v($t.$tot()),
            "set" => {
                $t.$set($j.get("n").int() as u16, $j.get("o").int() as u16);
                none()
            }
            "setnumber" => {
                $t.$setn($j.get("n").int() as u16);
                none()
            }
            "settotal" => {
                $t.$sett($j.get("n").int() as u16);
                none()
            }
            "remove" => {
                $t.$rem();
                none()
            }
            "removenumber" => {
                $t.$remn();
                none()
            }
            "removetotal" => {
                $t.$remt();
                none()
            }
            m => panic!("pair {}", m),
        }
    }};
}

fn genre(t: &mut Tag, m: &str, j: &J) -> J {
    let code = |j: &J| j.int() as u16;
    let codes = || -> Vec<u16> { j.get("vs").arr().iter().map(code).collect() };
    let texts = || -> Vec<String> { j.get("vs").arr().iter().map(|v| v.text()).collect() };
    match m {
        "std" => opt(t.standard_genre().map(|v| J::Int(v as i64))),
        "stds" => arr(t.standard_genres().map(|v| J::Int(v as i64))),
        "setstd" => {
            t.set_standard_genre(code(j.get("v")));
            none()
        }
        "setstds" => {
            t.set_standard_genres(codes());
            none()
        }
        "addstd" => {
            t.add_standard_genre(code(j.get("v")));
            none()
        }
        "addstds" => {
            t.add_standard_genres(codes());
            none()
        }
        "removestds" => {
            t.remove_standard_genres();
            none()
        }
        "get" => opt(t.genre().map(text)),
        "getall" => arr(t.genres().map(text)),
        "take" => opt(t.take_genre().map(|s| text(&s))),
        "takeall" => first(t.take_genres().map(|s| text(&s)), j.get("n").int()),
        "set" => {
            t.set_genre(j.get("v").text());
            none()
        }
        "setall" => {
            t.set_genres(texts());
            none()
        }
        "add" => {
            t.add_genre(j.get("v").text());
            none()
        }
        "remove" => {
            t.remove_genres();
            none()
        }
        m => panic!("genre {}", m),
    }
}

/// Appends to the content of a value.
fn mutate(d: &mut Vec<u8>, j: &J) {
    d.extend(j.get("v").bytes());
}

fn collection(t: &mut Tag, m: &str, j: &J) -> J {
    let n = j.get("n").int();
    let vs = || -> Vec<Data> { j.get("vs").arr().iter().map(data_in).collect() };
    match m {
        "load" => {
            load_items(t, j.get("vs"));
            none()
        }
        "clear" => {
            t.clear();
            none()
        }
        "isempty" => J::Int(t.is_empty() as i64),
        "clone" => {
            let c = t.clone();
            let same = c == *t;
            *t = c;
            J::Int(same as i64)
        }

        "set_data" => with_id!(j, id, {
            t.set_data(id, data_in(j.get("v")));
            none()
        }),
        "set_all_data" => with_id!(j, id, {
            t.set_all_data(id, vs());
            none()
        }),
        "add_data" => with_id!(j, id, {
            t.add_data(id, data_in(j.get("v")));
            none()
        }),
        "add_all_data" => with_id!(j, id, {
            t.add_all_data(id, vs());
            none()
        }),

        "data_of" => with_id!(j, id, arr(t.data_of(&id).map(data_out))),
        "bytes_of" => with_id!(j, id, arr(t.bytes_of(&id).map(b))),
        "strings_of" => with_id!(j, id, arr(t.strings_of(&id).map(text))),
        "images_of" => with_id!(j, id, arr(t.images_of(&id).map(img))),

        "take_data_of" => with_id!(j, id, first(t.take_data_of(&id).map(|d| data_out(&d)), n)),
        "take_bytes_of" => with_id!(j, id, first(t.take_bytes_of(&id).map(|d| b(&d)), n)),
        "take_strings_of" => with_id!(j, id, first(t.take_strings_of(&id).map(|d| text(&d)), n)),
        "take_images_of" => with_id!(j, id, first(t.take_images_of(&id).map(imgbuf), n)),

        // shows what the iterator yields and appends to each
        "bytes_mut_of" => with_id!(j, id, {
            arr(t.bytes_mut_of(&id).map(|d| {
                let r = b(d);
                mutate(d, j);
                r
            }))
        }),
        "strings_mut_of" => with_id!(j, id, {
            arr(t.strings_mut_of(&id).map(|d| {
                let r = text(d);
                d.push_str(&j.get("v").text());
                r
            }))
        }),
        "images_mut_of" => with_id!(j, id, {
            arr(t.images_mut_of(&id).map(|d| {
                let r = img_out(&d.fmt, d.data);
                mutate(d.data, j);
                r
            }))
        }),
        // replaces each
        "data_mut_of" => with_id!(j, id, {
            arr(t.data_mut_of(&id).map(|d| {
                let r = data_out(d);
                *d = data_in(j.get("v"));
                r
            }))
        }),

        "data" => arr(t.data().map(|(i, d)| at(i, data_out(d)))),
        "bytes" => arr(t.bytes().map(|(i, d)| at(i, b(d)))),
        "strings" => arr(t.strings().map(|(i, d)| at(i, text(d)))),
        "images" => arr(t.images().map(|(i, d)| at(i, img(d)))),

        "take_data" => first(t.clone().take_data().map(|(i, d)| at(&i, data_out(&d))), n),
        "take_bytes" => first(t.clone().take_bytes().map(|(i, d)| at(&i, b(&d))), n),
        "take_strings" => first(t.clone().take_strings().map(|(i, d)| at(&i, text(&d))), n),
        "take_images" => first(t.clone().take_images().map(|(i, d)| at(&i, imgbuf(d))), n),

        "bytes_mut" => arr(t.bytes_mut().map(|(i, d)| {
            let r = at(i, b(d));
            mutate(d, j);
            r
        })),
        "strings_mut" => arr(t.strings_mut().map(|(i, d)| {
            let r = at(i, text(d));
            d.push_str(&j.get("v").text());
            r
        })),
        "images_mut" => arr(t.images_mut().map(|(i, d)| {
            let r = at(i, img_out(&d.fmt, d.data));
            mutate(d.data, j);
            r
        })),
        "data_mut" => arr(t.data_mut().map(|(i, d)| {
            let r = at(i, data_out(d));
            *d = data_in(j.get("v"));
            r
        })),

        "remove_data_of" => with_id!(j, id, {
            t.remove_data_of(&id);
            none()
        }),
        "remove_bytes_of" => with_id!(j, id, {
            t.remove_bytes_of(&id);
            none()
        }),
        "remove_strings_of" => with_id!(j, id, {
            t.remove_strings_of(&id);
            none()
        }),
        "remove_images_of" => with_id!(j, id, {
            t.remove_images_of(&id);
            none()
        }),

        "retain_data_of" => with_id!(j, id, {
            t.retain_data_of(&id, |d| {
                let (ty, c) = cd(d);
                pred(j.get("p"), None, ty, &c)
            });
            none()
        }),
        "retain_bytes_of" => with_id!(j, id, {
            t.retain_bytes_of(&id, |d| pred(j.get("p"), None, -1, &cb(d)));
            none()
        }),
        "retain_strings_of" => with_id!(j, id, {
            t.retain_strings_of(&id, |d| pred(j.get("p"), None, -1, &cs(d)));
            none()
        }),
        "retain_images_of" => with_id!(j, id, {
            t.retain_images_of(&id, |d| pred(j.get("p"), None, img_code(&d.fmt), &cb(d.data)));
            none()
        }),

        "retain_data" => {
            t.retain_data(|i, d| {
                let (ty, c) = cd(d);
                pred(j.get("p"), Some(i), ty, &c)
            });
            none()
        }
        "retain_bytes" => {
            t.retain_bytes(|i, d| pred(j.get("p"), Some(i), -1, &cb(d)));
            none()
        }
        "retain_strings" => {
            t.retain_strings(|i, d| pred(j.get("p"), Some(i), -1, &cs(d)));
            none()
        }
        "retain_images" => {
            t.retain_images(|i, d| pred(j.get("p"), Some(i), img_code(&d.fmt), &cb(d.data)));
            none()
        }
        m => panic!("method {}", m),
    }
}

pub fn run(t: &mut Tag, j: &J) -> J {
    let m = j.get("m").str();
    match j.get("g").str() {
        "c" => collection(t, m, j),
        "f" => field(t, m, j),
        "track" => {
            pair!(t, m, j, track track_number total_tracks set_track set_track_number set_total_tracks remove_track remove_track_number remove_total_tracks)
        }
        "disc" => {
            pair!(t, m, j, disc disc_number total_discs set_disc set_disc_number set_total_discs remove_disc remove_disc_number remove_total_discs)
        }
        "genre" => genre(t, m, j),
        g => panic!("group {}", g),
    }
}

fn be32(v: &[u8], p: usize) -> usize {
    u32::from_be_bytes([v[p], v[p + 1], v[p + 2], v[p + 3]]) as usize
}

/// The number of items and of values that the item list of a dump consists of, or nothing if it is
/// not found where expected.
pub fn count_items(t: &Tag) -> J {
    let mut v = Vec::new();
    if t.dump_to(&mut v).is_err() {
        return none();
    }
    fn child(v: &[u8], mut p: usize, end: usize, name: &[u8]) -> Option<(usize, usize)> {
        while p + 8 <= end && end <= v.len() {
            let l = be32(v, p);
            if l < 8 || p + l > end {
                return None;
            }
            if &v[p + 4..p + 8] == name {
                return Some((p + 8, p + l));
            }
            p += l;
        }
        None
    }
    let r = child(&v, 0, v.len(), b"moov")
        .and_then(|(p, e)| child(&v, p, e, b"udta"))
        .and_then(|(p, e)| child(&v, p, e, b"meta"))
        .and_then(|(p, e)| child(&v, p + 4, e, b"ilst"));
    let (mut p, e) = match r {
        Some(x) => x,
        None => return none(),
    };
    let mut n = 0;
    while p < e {
        if p + 8 > e || be32(&v, p) < 8 || p + be32(&v, p) > e {
            return none();
        }
        n += 1;
        p += be32(&v, p);
    }
    J::Arr(vec![J::Int(n)])
}

/// All views of a value.
pub fn views(j: &J) -> J {
    let d = data_in(j);
    let mut m = d.clone();
    let fi = |b: bool| J::Int(b as i64);
    let mut v = Vec::new();
    let mut add = |k: &str, x: J| v.push((k.to_string(), x));
    add("len", J::from_bytes(&(d.len() as u32).to_be_bytes()));
    add("is_empty", fi(d.is_empty()));
    add("is_bytes", fi(d.is_bytes()));
    add("is_string", fi(d.is_string()));
    add("is_image", fi(d.is_image()));
    add("is_reserved", fi(d.is_reserved()));
    add("is_utf8", fi(d.is_utf8()));
    add("is_utf16", fi(d.is_utf16()));
    add("is_jpeg", fi(d.is_jpeg()));
    add("is_png", fi(d.is_png()));
    add("is_be_signed", fi(d.is_be_signed()));
    add("is_bmp", fi(d.is_bmp()));
    add("bytes", opt(d.bytes().map(b)));
    add("bytes_mut", opt(m.bytes_mut().map(|x| b(x))));
    add("into_bytes", opt(d.clone().into_bytes().map(|x| b(&x))));
    add("string", opt(d.string().map(text)));
    add("string_mut", opt(m.string_mut().map(|x| text(x))));
    add("into_string", opt(d.clone().into_string().map(|x| text(&x))));
    add("image", opt(d.image().map(img)));
    add("image_mut", opt(m.image_mut().map(|x| img_out(&x.fmt, x.data))));
    add("into_image", opt(d.clone().into_image().map(imgbuf)));
    add("image_data", opt(d.image_data().map(b)));
    add("image_data_mut", opt(m.image_data_mut().map(|x| b(x))));
    add("into_image_data", opt(d.clone().into_image_data().map(|x| b(&x))));
    add("reserved", opt(d.reserved().map(b)));
    add("utf8", opt(d.utf8().map(text)));
    add("utf16", opt(d.utf16().map(text)));
    add("jpeg", opt(d.jpeg().map(b)));
    add("png", opt(d.png().map(b)));
    add("be_signed", opt(d.be_signed().map(b)));
    add("bmp", opt(d.bmp().map(b)));
    add("after", data_out(&m));
    // what a change through a mutable view does
    let mut w = d.clone();
    if let Some(x) = w.bytes_mut() {
        x.push(7);
    }
    if let Some(x) = w.string_mut() {
        x.push('7');
    }
    if let Some(x) = w.image_mut() {
        x.data.push(7);
    }
    add("grown", data_out(&w));
    let mut w = d.clone();
    if let Some(x) = w.image_data_mut() {
        x.push(9);
    }
    add("grownimg", data_out(&w));
    add("fromimg", opt(d.clone().into_image().map(|i| data_out(&Data::from(i)))));
    add("fmts", opt(d.image().map(|i| J::Arr(vec![fi(i.fmt.is_jpeg()), fi(i.fmt.is_png()), fi(i.fmt.is_bmp())]))));
    // number of bytes occupied when stored
    let mut t = Tag::default();
    t.set_data(Fourcc(*b"test"), d);
    let mut o = Vec::new();
    t.dump_to(&mut o).unwrap();
    let mut t0 = Tag::default();
    t0.set_data(Fourcc(*b"test"), Data::Reserved(vec![]));
    let mut o0 = Vec::new();
    t0.dump_to(&mut o0).unwrap();
    add("stored", J::Int(o.len() as i64 - o0.len() as i64));
    J::Obj(v)
}

/// Code conversions for one code.
pub fn codes(c: u8) -> J {
    let media = MediaType::try_from(c);
    let chan = ChannelConfig::try_from(c);
    let rate = SampleRate::try_from(c);
    // its kind and code
    let e = |e: &Error| match err_out(e) {
        J::Obj(m) => J::Obj(m.into_iter().filter(|(k, _)| k != "d").collect()),
        j => j,
    };
    let mut t = Tag::default();
    let one = |id: Fourcc| -> Tag {
        let mut t = Tag::default();
        t.set_data(id, Data::Reserved(vec![c]));
        t
    };
    let tm = one(ident::MEDIA_TYPE).media_type();
    let tr = one(ident::ADVISORY_RATING).advisory_rating();
    let stored = |t: &Tag| arr(t.data().map(|(i, d)| at(i, data_out(d))));
    let mset = match (c as usize) < MEDIA.len() {
        true => {
            t.set_media_type(MEDIA[c as usize]);
            stored(&t)
        }
        false => none(),
    };
    t = Tag::default();
    let rset = match (c as usize) < RATINGS.len() {
        true => {
            t.set_advisory_rating(RATINGS[c as usize]);
            stored(&t)
        }
        false => none(),
    };
    t = Tag::default();
    let iset = match (c as usize) < 3 {
        true => {
            let f = [ImgFmt::Jpeg, ImgFmt::Png, ImgFmt::Bmp][c as usize].clone();
            t.set_artwork(Img::new(f, vec![c]));
            stored(&t)
        }
        false => none(),
    };
    obj! {
        "media" => opt(media.as_ref().ok().map(|m| index(&MEDIA, m))),
        "mediaerr" => opt(media.as_ref().err().map(e)),
        "mediatag" => opt(tm.map(|m| index(&MEDIA, &m))),
        "mediaset" => mset,
        "medianame" => opt(media.as_ref().ok().map(|m| text(&m.to_string()))),
        "rating" => index(&RATINGS, &AdvisoryRating::from(c)),
        "ratingtag" => opt(tr.map(|m| index(&RATINGS, &m))),
        "ratingset" => rset,
        "ratingname" => text(&AdvisoryRating::from(c).to_string()),
        "chan" => opt(chan.as_ref().ok().map(|m| index(&CHANNELS, m))),
        "chanerr" => opt(chan.as_ref().err().map(e)),
        "count" => opt(chan.as_ref().ok().map(|m| J::Int(m.channel_count() as i64))),
        "channame" => opt(chan.as_ref().ok().map(|m| text(&m.to_string()))),
        "rate" => opt(rate.as_ref().ok().map(|m| index(&RATES, m))),
        "rateerr" => opt(rate.as_ref().err().map(e)),
        "hz" => opt(rate.as_ref().ok().map(|m| J::Int(m.hz() as i64))),
        "ratename" => opt(rate.as_ref().ok().map(|m| text(&m.to_string()))),
        "imgset" => iset,
        "genre" => opt(STANDARD_GENRES.get(c as usize).map(|g| text(g))),
    }
}

/// An identifier in one of its forms.
enum Form {
    Code(Fourcc),
    Free(String, String),
    Any(DataIdent),
}

/// Evaluates an expression with the identifier in its form.
macro_rules! with {
    ($f:expr, |$x:ident| $e:expr) => {
        match $f {
            Form::Code($x) => $e,
            Form::Free(m, n) => {
                let $x = &FreeformIdent::new(m, n);
                $e
            }
            Form::Any($x) => $e,
        }
    };
}

fn forms(j: &J) -> Vec<Form> {
    if j.get("k").str() == "f" {
        let f = fourcc(j.get("b"));
        vec![
            Form::Code(f),
            Form::Any(DataIdent::Fourcc(f)),
            Form::Any(DataIdent::fourcc(f.0)),
            Form::Any(DataIdent::from(f)),
            Form::Any(f.into()),
        ]
    } else {
        let (m, n) = (j.get("mean").text(), j.get("name").text());
        let x = FreeformIdent::new(&m, &n);
        let v = vec![
            Form::Any(DataIdent::Freeform { mean: m.clone(), name: n.clone() }),
            Form::Any(DataIdent::freeform(m.as_str(), n.clone())),
            Form::Any(DataIdent::from(&x)),
            Form::Any(x.clone().into()),
        ];
        let mut v = v;
        v.insert(0, Form::Free(m.clone(), n.clone()));
        v
    }
}

/// Everything that can be asked about two identifiers.
pub fn idents(ja: &J, jb: &J) -> J {
    let (va, vb) = (forms(ja), forms(jb));
    let fi = |b: bool| J::Int(b as i64);
    let (mut eqs, mut nes, mut found, mut removed, mut conv) = (vec![], vec![], vec![], vec![], vec![]);
    for a in &va {
        for b in &vb {
            eqs.push(fi(with!(a, |x| with!(b, |y| ident::idents_match(x, y)))));
            if let Form::Any(y) = b {
                eqs.push(fi(with!(a, |x| x == y)));
                nes.push(fi(with!(a, |x| x != y)));
            }
            match (a, b) {
                (Form::Code(x), Form::Code(y)) => {
                    eqs.push(fi(x == y));
                    nes.push(fi(x != y));
                }
                (Form::Free(m, n), Form::Free(k, l)) => {
                    let (x, y) = (FreeformIdent::new(m, n), FreeformIdent::new(k, l));
                    eqs.push(fi(x == y));
                    nes.push(fi(x != y));
                }
                _ => (),
            }
            // stored under the one, looked up under the other
            let mut t = Tag::default();
            match a {
                Form::Code(x) => t.set_data(*x, Data::Utf8("v".into())),
                Form::Free(m, n) => t.set_data(FreeformIdent::new(m, n), Data::Utf8("v".into())),
                Form::Any(x) => t.set_data(x.clone(), Data::Utf8("v".into())),
            }
            found.push(J::Int(with!(b, |y| t.data_of(y).count()) as i64));
            found.push(J::Int(with!(b, |y| t.strings_of(y).count()) as i64));
            let mut u = t.clone();
            with!(b, |y| u.remove_data_of(y));
            removed.push(fi(u.is_empty()));
            match b {
                Form::Code(x) => t.add_data(*x, Data::Utf8("w".into())),
                Form::Free(m, n) => t.add_data(FreeformIdent::new(m, n), Data::Utf8("w".into())),
                Form::Any(x) => t.add_data(x.clone(), Data::Utf8("w".into())),
            }
            removed.push(J::Int((tagops_count(&t) == 1) as i64));
        }
        conv.push(match a {
            Form::Code(x) => id_out(&DataIdent::from(*x)),
            Form::Free(m, n) => id_out(&DataIdent::from(&FreeformIdent::new(m, n))),
            Form::Any(x) => id_out(x),
        });
        conv.push(match a {
            Form::Any(x) => id_out(&x.clone()),
            Form::Code(x) => id_out(&DataIdent::from(Clone::clone(x))),
            Form::Free(m, n) => id_out(&DataIdent::from(FreeformIdent::new(m, n))),
        });
    }
    let mut raw = Vec::new();
    for a in &va {
        if let Form::Code(x) = a {
            let mut y = *x;
            y[3] = !y[3];
            raw.push(b(&**x));
            raw.push(b(&x.0));
            y[3] = !y[3];
            raw.push(b(&*y));
        }
    }
    obj! {
        "eq" => J::Arr(eqs),
        "ne" => J::Arr(nes),
        "found" => J::Arr(found),
        "removed" => J::Arr(removed),
        "conv" => J::Arr(conv),
        "raw" => J::Arr(raw),
        "code" => J::Arr(va.iter().map(|a| opt(with!(a, |x| x.fourcc()).map(|f| b(&f.0)))).collect()),
        "free" => J::Arr(va.iter().map(|a| with!(a, |x| opt(x.freeform().map(|f| J::Arr(vec![text(f.mean), text(f.name)]))))).collect()),
        "shown" => J::Arr(va.iter().map(|a| text(&with!(a, |x| x.to_string()))).collect()),
        "debug" => J::Arr(va.iter().filter_map(|a| match a {
            Form::Code(x) => Some(text(&format!("{:?}", x))),
            _ => None,
        }).collect()),
    }
}

fn tagops_count(t: &Tag) -> usize {
    let mut ids: Vec<&DataIdent> = Vec::new();
    for (i, _) in t.data() {
        if !ids.contains(&i) {
            ids.push(i);
        }
    }
    ids.len()
}

/// Two tags compared, copied, and changed.
pub fn twins(ja: &J, jb: &J) -> J {
    let fi = |b: bool| J::Int(b as i64);
    let make = |j: &J| {
        let mut t = Tag::new(j.get("ftyp").text(), info_in(j.get("info")), vec![]);
        load_items(&mut t, j.get("items"));
        t
    };
    let spoil = |t: &mut Tag| {
        t.bytes_mut().for_each(|(_, b)| b.push(1));
        t.strings_mut().for_each(|(_, s)| s.push('!'));
        t.images_mut().for_each(|(_, i)| i.data.push(2));
    };
    let (mut x, y) = (make(ja), make(jb));
    let eq = vec![fi(x == y), fi(y == x), fi(!(x != y))];
    let info = vec![fi(x.audio_info() == y.audio_info()), fi(!(y.audio_info() != x.audio_info()))];
    let (mut values, mut images) = (vec![], vec![]);
    for (_, v) in x.data() {
        for (_, w) in y.data() {
            values.push(fi(v == w && !(v != w)));
            images.push(fi(v.image() == w.image()));
        }
    }
    let mut copy = x.clone();
    let mut own = vec![fi(copy == x), fi(x == copy), fi(x == x), fi(make(ja) == x), fi(!(copy != x))];
    let mut copies = vec![tag_out(&copy)];
    // each of them changes in turn
    spoil(&mut copy);
    load_items(&mut copy, jb.get("items"));
    copies.push(tag_out(&x));
    own.push(fi(make(ja) == x));
    let mut other = y.clone();
    other.clone_from(&x);
    copies.push(tag_out(&other));
    own.push(fi(other == x));
    spoil(&mut x);
    copies.push(tag_out(&other));
    x.clear();
    copies.push(tag_out(&other));
    own.push(fi(other == make(ja)));
    let taken: Vec<_> = other.clone().take_data().collect();
    drop(taken);
    copies.push(tag_out(&other));
    obj! {
        "eq" => J::Arr(eq),
        "info" => J::Arr(info),
        "values" => J::Arr(values),
        "images" => J::Arr(images),
        "own" => J::Arr(own),
        "copies" => J::Arr(copies),
    }
}

/// The predefined identifiers.
pub fn consts() -> J {
    use mp4ameta::ident::*;
    let mut v = Vec::new();
    macro_rules! add {
        ($($c:ident),*) => {
            $(v.push(obj! {"n" => J::Str(stringify!($c).into()), "id" => id_out(&DataIdent::from($c))});)*
        };
    }
    add!(FREEFORM, ADVISORY_RATING, ALBUM, ALBUM_ARTIST, ARTIST, ARTWORK, BPM, COMMENT, COMPILATION, COMPOSER, COPYRIGHT, CUSTOM_GENRE, DISC_NUMBER, ENCODER, STANDARD_GENRE, TITLE, TRACK_NUMBER, YEAR, GROUPING, MEDIA_TYPE, CATEGORY, KEYWORD, PODCAST, PODCAST_EPISODE_GLOBAL_UNIQUE_ID, PODCAST_URL, DESCRIPTION, LYRICS, TV_EPISODE, TV_EPISODE_NAME, TV_NETWORK_NAME, TV_SEASON, TV_SHOW_NAME, PURCHASE_DATE, GAPLESS_PLAYBACK, MOVEMENT, MOVEMENT_COUNT, MOVEMENT_INDEX, WORK, SHOW_MOVEMENT, ISRC, LYRICIST);
    obj! {"list" => J::Arr(v), "mean" => text(APPLE_ITUNES_MEAN)}
}

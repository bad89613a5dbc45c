//! MQTT 3.1.1 as the specification says it, written without looking at the broker's codec.
use std::str;

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (data.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

/// The payload of message `uid`: its number, then bytes that depend on it
pub fn payload(uid: u32, len: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(len as usize + 8);
    v.extend_from_slice(&uid.to_be_bytes());
    let mut s = uid as u64 ^ 0x5851_F42D_4C95_7F2D;
    while v.len() < len as usize {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.extend_from_slice(&(s >> 29).to_le_bytes()[..]);
    }
    v.truncate(len as usize);
    v
}

pub fn put_len(out: &mut Vec<u8>, mut n: usize) {
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        out.push(if n > 0 { b | 128 } else { b });
        if n == 0 {
            return;
        }
    }
}

pub fn put_str(out: &mut Vec<u8>, s: &[u8]) {
    out.extend_from_slice(&(s.len() as u16).to_be_bytes());
    out.extend_from_slice(s);
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    put_len(&mut v, body.len());
    v.extend_from_slice(body);
    v
}

pub struct ConnectArgs<'a> {
    pub cid: &'a str,
    pub clean: bool,
    pub ka: u16,
    pub user: bool,
    pub will: Option<(&'a str, Vec<u8>, u8, bool)>,
}

pub fn connect(a: &ConnectArgs) -> Vec<u8> {
    let mut b = vec![];
    put_str(&mut b, b"MQTT");
    b.push(4);
    let mut f = (a.clean as u8) << 1;
    if let Some((_, _, q, r)) = &a.will {
        f |= 4 | q << 3 | (*r as u8) << 5;
    }
    if a.user {
        f |= 0xC0;
    }
    b.push(f);
    b.extend_from_slice(&a.ka.to_be_bytes());
    put_str(&mut b, a.cid.as_bytes());
    if let Some((t, m, _, _)) = &a.will {
        put_str(&mut b, t.as_bytes());
        put_str(&mut b, m);
    }
    if a.user {
        put_str(&mut b, b"user");
        put_str(&mut b, &[0, 255, 1, 128]);
    }
    frame(0x10, &b)
}

pub fn subscribe(pid: u16, filters: &[(String, u8)]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    for (f, q) in filters {
        put_str(&mut b, f.as_bytes());
        b.push(*q);
    }
    frame(0x82, &b)
}

pub fn unsubscribe(pid: u16, filters: &[String]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    for f in filters {
        put_str(&mut b, f.as_bytes());
    }
    frame(0xA2, &b)
}

pub fn publish(topic: &str, pid: u16, qos: u8, dup: bool, retain: bool, payload: &[u8]) -> Vec<u8> {
    let mut b = Vec::with_capacity(payload.len() + topic.len() + 8);
    put_str(&mut b, topic.as_bytes());
    if qos > 0 {
        b.extend_from_slice(&pid.to_be_bytes());
    }
    b.extend_from_slice(payload);
    frame(0x30 | (dup as u8) << 3 | qos << 1 | retain as u8, &b)
}

pub fn ack(first: u8, pid: u16) -> Vec<u8> {
    frame(first, &pid.to_be_bytes())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pkt {
    Connect { clean: bool, ka: u16, cid: String, level: u8, will: Option<(String, Vec<u8>, u8, bool)> },
    ConnAck { present: bool, code: u8 },
    Publish { topic: String, pid: u16, qos: u8, dup: bool, retain: bool, hash: u64, len: usize, uid: u32 },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    Subscribe { pid: u16, filters: Vec<(String, u8)> },
    SubAck { pid: u16, codes: Vec<u8> },
    Unsubscribe { pid: u16, filters: Vec<String> },
    UnsubAck(u16),
    PingReq,
    PingResp,
    Disconnect,
}

impl Pkt {
    pub fn short(&self) -> String {
        match self {
            Pkt::Publish { topic, pid, qos, dup, retain, len, uid, .. } => format!(
                "PUBLISH(#{uid} {} q{qos} id{pid}{}{} {len}B)",
                if topic.len() > 60 { format!("{}..({})", topic.chars().take(40).collect::<String>(), topic.len()) } else { format!("{topic:?}") },
                if *dup { " dup" } else { "" },
                if *retain { " retain" } else { "" }
            ),
            Pkt::Connect { clean, ka, cid, level, .. } => format!("CONNECT({cid:?} clean={clean} ka={ka} level={level})"),
            p => format!("{p:?}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// a packet and how many bytes it takes
    Packet(Pkt, usize),
    /// not all of it is there
    Need,
    /// it breaks the rules
    Bad(String, usize),
    /// the specification does not say what must happen
    Unclear(String),
}

struct Rd<'a>(&'a [u8]);
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return Err("field runs past the end of the packet".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn pid(&mut self) -> R<u16> {
        match self.u16()? {
            0 => Err("packet identifier 0".into()),
            n => Ok(n),
        }
    }
    fn bin(&mut self) -> R<&'a [u8]> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    fn str(&mut self) -> R<String> {
        let b = self.bin()?;
        let s = str::from_utf8(b).map_err(|_| "not UTF-8".to_string())?;
        if s.contains('\0') {
            return Err("U+0000 in a string".into());
        }
        Ok(s.to_string())
    }
    fn end(&self) -> R<()> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} bytes too many", self.0.len()))
        }
    }
}

/// (remaining length, bytes of the fixed header)
fn header(data: &[u8]) -> Result<Option<(usize, usize)>, Step> {
    let mut n = 0usize;
    for i in 0..4 {
        let Some(&b) = data.get(1 + i) else { return Ok(None) };
        n |= ((b & 127) as usize) << (7 * i);
        if b & 128 == 0 {
            if i > 0 && b == 0 {
                return Err(Step::Unclear("remaining length not in its shortest form".into()));
            }
            return Ok(Some((n, 2 + i)));
        }
    }
    // some know with the fourth byte, some with the fifth
    if data.len() < 6 {
        return Err(Step::Unclear("remaining length goes on after four bytes".into()));
    }
    Err(Step::Bad("remaining length takes more than four bytes".into(), 6))
}

/// May the first byte of a client's packet be enough to refuse it
pub fn refusable(first: u8, connected: bool) -> bool {
    let flags = match first >> 4 {
        1 => return connected || first & 15 != 0,
        3 => return !connected || first & 6 == 6 || first & 14 == 8,
        4 | 5 | 7 | 12 | 14 => 0,
        6 | 8 | 10 => 2,
        _ => return true,
    };
    !connected || first & 15 != flags
}

/// Take the first packet off `data`
pub fn decode(data: &[u8], from_client: bool) -> Step {
    if data.is_empty() {
        return Step::Need;
    }
    let (len, hdr) = match header(data) {
        Ok(None) => return Step::Need,
        Ok(Some(x)) => x,
        Err(s) => return s,
    };
    if data.len() < hdr + len {
        return Step::Need;
    }
    let total = hdr + len;
    match body(data[0], &data[hdr..total], from_client) {
        Ok(Ok(p)) => Step::Packet(p, total),
        Ok(Err(unclear)) => Step::Unclear(unclear),
        Err(e) => Step::Bad(e, total),
    }
}

fn body(first: u8, b: &[u8], from_client: bool) -> R<Result<Pkt, String>> {
    let mut r = Rd(b);
    let flags = first & 15;
    let ty = first >> 4;
    let want = |f: u8| if flags == f { Ok(()) } else { Err(format!("flags {flags:#x} on packet type {ty}")) };
    let dir = |c: bool| {
        if c == from_client {
            Ok(())
        } else {
            Err(format!("packet type {ty} from the wrong side"))
        }
    };
    let p = match ty {
        1 => {
            dir(true)?;
            want(0)?;
            let name = r.bin()?;
            if name != b"MQTT" {
                return Err("protocol name".into());
            }
            let level = r.u8()?;
            if level != 4 {
                return Ok(Ok(Pkt::Connect { clean: true, ka: 0, cid: String::new(), level, will: None }));
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err("reserved CONNECT flag".into());
            }
            let wq = f >> 3 & 3;
            if wq == 3 || (f & 4 == 0 && f & 0x38 != 0) {
                return Err("will flags".into());
            }
            if f & 0x40 != 0 && f & 0x80 == 0 {
                return Err("password without user name".into());
            }
            let ka = r.u16()?;
            let cid = r.str()?;
            let mut will = None;
            let mut odd = None;
            if f & 4 != 0 {
                let t = r.str()?;
                if t.is_empty() || t.contains(['+', '#']) {
                    odd = Some("odd will topic".to_string());
                }
                will = Some((t, r.bin()?.to_vec(), wq, f & 0x20 != 0));
            }
            if f & 0x80 != 0 {
                r.str()?;
            }
            if f & 0x40 != 0 {
                r.bin()?;
            }
            r.end()?;
            if let Some(o) = odd {
                return Ok(Err(o));
            }
            Pkt::Connect { clean: f & 2 != 0, ka, cid, level, will }
        }
        2 => {
            dir(false)?;
            want(0)?;
            let a = r.u8()?;
            let code = r.u8()?;
            if a > 1 || code > 5 || (a == 1 && code != 0) {
                return Err(format!("CONNACK {a} {code}"));
            }
            r.end()?;
            Pkt::ConnAck { present: a == 1, code }
        }
        3 => {
            let qos = flags >> 1 & 3;
            if qos == 3 {
                return Err("QoS 3".into());
            }
            if qos == 0 && flags & 8 != 0 {
                return Err("DUP with QoS 0".into());
            }
            let topic = r.str()?;
            if topic.is_empty() || topic.contains(['+', '#']) {
                return Err("topic name".into());
            }
            let pid = if qos > 0 { r.pid()? } else { 0 };
            let pl = r.0;
            let uid = if pl.len() >= 4 { u32::from_be_bytes(pl[..4].try_into().unwrap()) } else { 0 };
            Pkt::Publish { topic, pid, qos, dup: flags & 8 != 0, retain: flags & 1 != 0, hash: fnv(pl), len: pl.len(), uid }
        }
        4 | 5 | 6 | 7 => {
            want(if ty == 6 { 2 } else { 0 })?;
            let pid = r.pid()?;
            r.end()?;
            match ty {
                4 => Pkt::PubAck(pid),
                5 => Pkt::PubRec(pid),
                6 => Pkt::PubRel(pid),
                _ => Pkt::PubComp(pid),
            }
        }
        8 => {
            dir(true)?;
            want(2)?;
            let pid = r.pid()?;
            let mut filters = vec![];
            let mut odd = false;
            while !r.0.is_empty() {
                let f = r.str()?;
                let q = r.u8()?;
                if q > 2 {
                    return Err("requested QoS".into());
                }
                odd |= f == "$share" || f.starts_with("$share/");
                filters.push((f, q));
            }
            if filters.is_empty() {
                return Err("SUBSCRIBE without a filter".into());
            }
            if odd {
                return Ok(Err("shared subscription".into()));
            }
            Pkt::Subscribe { pid, filters }
        }
        9 => {
            dir(false)?;
            want(0)?;
            let pid = r.pid()?;
            let codes = r.0.to_vec();
            if codes.is_empty() || codes.iter().any(|c| *c > 2 && *c != 0x80) {
                return Err("SUBACK codes".into());
            }
            Pkt::SubAck { pid, codes }
        }
        10 => {
            dir(true)?;
            want(2)?;
            let pid = r.pid()?;
            let mut filters = vec![];
            while !r.0.is_empty() {
                filters.push(r.str()?);
            }
            if filters.is_empty() {
                return Err("UNSUBSCRIBE without a filter".into());
            }
            Pkt::Unsubscribe { pid, filters }
        }
        11 => {
            dir(false)?;
            want(0)?;
            let pid = r.pid()?;
            r.end()?;
            Pkt::UnsubAck(pid)
        }
        12 | 13 | 14 => {
            dir(ty != 13)?;
            want(0)?;
            r.end()?;
            match ty {
                12 => Pkt::PingReq,
                13 => Pkt::PingResp,
                _ => Pkt::Disconnect,
            }
        }
        _ => return Err(format!("packet type {ty}")),
    };
    Ok(Ok(p))
}

pub fn valid_filter(f: &str) -> bool {
    if f.is_empty() {
        return false;
    }
    let levels: Vec<&str> = f.split('/').collect();
    levels.iter().enumerate().all(|(i, l)| match *l {
        "#" => i + 1 == levels.len(),
        "+" => true,
        l => !l.contains('+') && !l.contains('#'),
    })
}

/// Does the filter match the topic, by section 4.7
pub fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) {
        return false;
    }
    let mut f = filter.split('/');
    let mut t = topic.split('/');
    loop {
        match (f.next(), t.next()) {
            (Some("#"), _) => return true,
            (Some("+"), Some(_)) => {}
            (Some(a), Some(b)) if a == b => {}
            (None, None) => return true,
            _ => return false,
        }
    }
}

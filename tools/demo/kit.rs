//! Builds binlog bytes and plays a small MySQL server for the demonstrations.
#![allow(dead_code)]
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::replica_options::ReplicaOptions;
use mysql_cdc::ssl_mode::SslMode;
use std::fs::File;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type Item = Result<(EventHeader, BinlogEvent), Error>;

pub fn le(value: u64, bytes: usize) -> Vec<u8> {
    value.to_le_bytes()[..bytes].to_vec()
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// Event with its header; `crc` appends four checksum bytes.
pub fn event(code: u8, next: u32, body: &[u8], crc: bool) -> Vec<u8> {
    let mut body = body.to_vec();
    if crc {
        body.extend([0xA1, 0xB2, 0xC3, 0xD4]);
    }
    let mut v = le(1, 4);
    v.push(code);
    v.extend(le(7, 4));
    v.extend(le(19 + body.len() as u64, 4));
    v.extend(le(next as u64, 4));
    v.extend(le(0, 2));
    v.extend(body);
    v
}
/// Format description body of MySQL 5.7, without the checksum bytes.
pub fn fde_body(crc: bool) -> Vec<u8> {
    let mut v = le(4, 2);
    let mut version = b"5.7.44-log".to_vec();
    version.resize(50, 0);
    v.extend(version);
    v.extend(le(0, 4));
    v.push(19);
    let mut lengths = vec![0u8; 38];
    lengths[14] = 95;
    v.extend(lengths);
    v.push(crc as u8);
    v
}
/// Format description events carry four checksum bytes whatever the algorithm.
pub fn fde(crc: bool) -> Vec<u8> {
    event(15, 0, &cat(&[&fde_body(crc), &[1, 2, 3, 4]]), false)
}
/// Format description event of a server before checksums.
pub fn old_fde() -> Vec<u8> {
    let mut v = le(4, 2);
    let mut version = b"5.5.62-log".to_vec();
    version.resize(50, 0);
    v.extend(version);
    v.extend(le(0, 4));
    v.push(19);
    let mut lengths = vec![0u8; 27];
    lengths[14] = 84;
    v.extend(lengths);
    event(15, 0, &v, false)
}
pub fn query_body(sql: &str) -> Vec<u8> {
    let mut v = le(1, 4);
    v.extend(le(0, 4));
    v.push(1);
    v.extend(le(0, 2));
    v.extend(le(0, 2));
    v.extend(b"d\0");
    v.extend(sql.as_bytes());
    v
}
pub fn query(sql: &str) -> Vec<u8> {
    event(2, 0, &query_body(sql), false)
}
pub fn rotate(file: &str, position: u64) -> Vec<u8> {
    event(4, 0, &cat(&[&le(position, 8), file.as_bytes()]), false)
}
pub fn xid(n: u64, next: u32) -> Vec<u8> {
    event(16, next, &le(n, 8), false)
}
pub fn bits(flags: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (flags.len() + 7) / 8];
    for (i, f) in flags.iter().enumerate() {
        v[i / 8] |= (*f as u8) << (i % 8);
    }
    v
}
/// Table map body: types and metadata bytes, fewer than 251 columns.
pub fn table_body(id: u64, types: &[u8], metadata: &[u8], optional: &[u8]) -> Vec<u8> {
    let mut v = le(id, 6);
    v.extend(le(1, 2));
    v.extend(b"\x01d\0\x01t\0");
    v.push(types.len() as u8);
    v.extend(types);
    v.push(metadata.len() as u8);
    v.extend(metadata);
    v.extend(vec![0xFF; (types.len() + 7) / 8]);
    v.extend(optional);
    v
}
pub fn table(id: u64, types: &[u8], metadata: &[u8]) -> Vec<u8> {
    event(19, 0, &table_body(id, types, metadata, &[]), false)
}
/// Row event of version 2; `images` holds the presence of each column, once or (for updates) twice.
pub fn rows(code: u8, id: u64, flags: u16, images: &[&[bool]], data: &[u8]) -> Vec<u8> {
    let mut v = le(id, 6);
    v.extend(le(flags as u64, 2));
    v.extend(le(2, 2));
    v.push(images[0].len() as u8);
    for image in images {
        v.extend(bits(image));
    }
    v.extend(data);
    event(code, 0, &v, false)
}
/// One inserted row with all its columns and no NULL.
pub fn insert(id: u64, columns: usize, cells: &[u8]) -> Vec<u8> {
    let all = vec![true; columns];
    rows(30, id, 1, &[&all], &cat(&[&vec![0; (columns + 7) / 8], cells]))
}

/// A binlog file of these events, read to its end (or to `limit` items).
pub fn file(events: &[Vec<u8>]) -> Vec<u8> {
    cat(&[&[0xfe, 0x62, 0x69, 0x6e], &events.concat()])
}
pub fn read_file(bytes: &[u8]) -> Vec<Item> {
    let path = std::env::temp_dir().join(format!("demo-{}.bin", std::process::id()));
    std::fs::write(&path, bytes).unwrap();
    let reader = BinlogReader::new(File::open(&path).unwrap()).unwrap();
    let items = reader.read_events().take(10_000).collect();
    std::fs::remove_file(&path).unwrap();
    items
}
pub fn read_all(events: &[Vec<u8>]) -> Vec<Item> {
    read_file(&file(events))
}
pub fn text(item: &Item) -> String {
    match item {
        Ok((_, e)) => format!("{:?}", e),
        Err(e) => format!("ERROR {:?}", e),
    }
}
/// The last item as text.
pub fn last(events: &[Vec<u8>]) -> String {
    text(read_all(events).last().unwrap())
}
pub fn expect(condition: bool, what: &str) {
    if !condition {
        println!("WRONG: {}", what);
        std::process::exit(1);
    }
}
pub fn contains(text: &str, part: &str) {
    expect(text.contains(part), &format!("{} is not in {}", part, text));
}

// ---------------------------------------------------------------- server

pub struct Wire {
    pub stream: TcpStream,
}
impl Wire {
    pub fn send(&mut self, seq: u8, payload: &[u8]) {
        let mut v = le(payload.len() as u64, 3);
        v.push(seq);
        v.extend(payload);
        let _ = self.stream.write_all(&v);
    }
    pub fn recv(&mut self) -> Option<(u8, Vec<u8>)> {
        let mut head = [0u8; 4];
        self.stream.read_exact(&mut head).ok()?;
        let mut v = vec![0; head[0] as usize | (head[1] as usize) << 8 | (head[2] as usize) << 16];
        self.stream.read_exact(&mut v).ok()?;
        Some((head[3], v))
    }
    pub fn greet(&mut self, version: &str, plugin: &str) {
        let mut v = vec![10];
        v.extend(version.as_bytes());
        v.push(0);
        v.extend(le(1, 4));
        v.extend(b"abcdefgh\0");
        let flags: u64 = 1 << 9 | 1 << 15 | 1 << 19 | 1 << 3;
        v.extend(le(flags & 0xFFFF, 2));
        v.push(45);
        v.extend(le(2, 2));
        v.extend(le(flags >> 16, 2));
        v.push(21);
        v.extend([0; 10]);
        v.extend(b"ijklmnopqrst\0");
        v.extend(plugin.as_bytes());
        v.push(0);
        self.send(0, &v);
    }
    pub fn ok(&mut self, seq: u8) {
        self.send(seq, &[0, 0, 0, 2, 0, 0, 0]);
    }
    pub fn eof(&mut self, seq: u8) {
        self.send(seq, &[0xFE, 0, 0, 2, 0]);
    }
    pub fn error(&mut self, seq: u8, code: u16, text: &str) {
        self.send(seq, &cat(&[&[0xFF], &le(code as u64, 2), text.as_bytes()]));
    }
    pub fn row(&mut self, cells: &[&str]) {
        self.send(1, &[cells.len() as u8]);
        for i in 0..cells.len() {
            self.send(2 + i as u8, b"\x03def\0\0\0\x01c\0\x0c\x2d\0\0\0\0\0\xfd\0\0\x1f\0\0");
        }
        self.eof(10);
        let mut v = Vec::new();
        for cell in cells {
            v.push(cell.len() as u8);
            v.extend(cell.as_bytes());
        }
        self.send(11, &v);
        self.eof(12);
    }
}

#[derive(Clone)]
pub struct Plan {
    pub version: String,
    pub checksum: String,
    pub master: (String, String),
    /// packets of the stream of every connection in turn
    pub streams: Vec<Vec<Vec<u8>>>,
    /// statement (or its part) answered with an error
    pub refuse: Option<(String, String)>,
}
impl Plan {
    pub fn new(streams: Vec<Vec<Vec<u8>>>) -> Self {
        Plan {
            version: "5.7.44-log".into(),
            checksum: "NONE".into(),
            master: ("bin.000007".into(), "4711".into()),
            streams,
            refuse: None,
        }
    }
    pub fn mariadb(mut self) -> Self {
        self.version = "5.5.5-10.6.1-MariaDB-log".into();
        self
    }
}
/// Packet of the stream that carries an event.
pub fn sent(event: Vec<u8>) -> Vec<u8> {
    cat(&[&[0], &event])
}
pub fn end() -> Vec<u8> {
    vec![0xFE, 0, 0, 2, 0]
}

/// Every packet the client sent, connection by connection.
pub type Log = Arc<Mutex<Vec<Vec<Vec<u8>>>>>;

pub fn server(plan: Plan) -> (u16, Log) {
    let listener = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = listener.local_addr().unwrap().port();
    let log: Log = Arc::new(Mutex::new(Vec::new()));
    let log2 = log.clone();
    std::thread::spawn(move || {
        for packets in plan.streams.clone() {
            let (stream, _) = listener.accept().unwrap();
            let mut w = Wire { stream };
            let n = log2.lock().unwrap().len();
            log2.lock().unwrap().push(Vec::new());
            w.greet(&plan.version, "mysql_native_password");
            let login = match w.recv() {
                Some(x) => x,
                None => continue,
            };
            log2.lock().unwrap()[n].push(login.1);
            w.ok(2);
            while let Some((_, p)) = w.recv() {
                log2.lock().unwrap()[n].push(p.clone());
                let sql = String::from_utf8_lossy(&p[1..]).to_string();
                if let Some((what, message)) = &plan.refuse {
                    if p[0] == 3 && sql.contains(what) {
                        w.error(1, 1193, message);
                        continue;
                    }
                }
                match p[0] {
                    3 if sql == "show master status" => w.row(&[&plan.master.0, &plan.master.1, "", "", ""]),
                    3 if sql.starts_with("SELECT") => w.row(&[&plan.checksum]),
                    3 | 21 => w.ok(1),
                    18 | 30 => {
                        for (i, packet) in packets.iter().enumerate() {
                            w.send(1u8.wrapping_add(i as u8), packet);
                        }
                        break;
                    }
                    _ => break,
                }
            }
        }
    });
    (port, log)
}
pub fn options(port: u16, binlog: BinlogOptions) -> ReplicaOptions {
    ReplicaOptions {
        hostname: "127.0.0.1".into(),
        port,
        username: "root".into(),
        password: "Qwertyu1".into(),
        blocking: true,
        ssl_mode: SslMode::Disabled,
        heartbeat_interval: Duration::from_secs(5),
        binlog,
        ..Default::default()
    }
}
/// A server of a login of its own.
pub fn serve(act: impl FnOnce(&mut Wire) + Send + 'static) -> u16 {
    let listener = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = listener.local_addr().unwrap().port();
    std::thread::spawn(move || {
        let (stream, _) = listener.accept().unwrap();
        act(&mut Wire { stream });
    });
    port
}

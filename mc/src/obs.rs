//! What the code under test delivered, in types of our own that can be compared and hashed.
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::row_events::mysql_value::MySqlValue;
use mysql_cdc::events::row_events::row_data::RowData;
use mysql_cdc::events::table_map_event::TableMapEvent;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hdr {
    pub ts: u32,
    pub typ: u8,
    pub server_id: u32,
    pub len: u32,
    pub next: u32,
    pub flags: u16,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MVal {
    Tiny(u8),
    Small(u16),
    Medium(u32),
    Int(u32),
    Big(u64),
    Float(u32),
    Double(u64),
    Decimal(String),
    Str(String),
    Bit(Vec<bool>),
    Enum(u32),
    Set(u64),
    Blob(Vec<u8>),
    Year(u16),
    Date(u16, u8, u8),
    Time(i16, u8, u8, u32),
    DateTime(u16, u8, u8, u8, u8, u8, u32),
    Timestamp(u64),
}
pub type Row = Vec<Option<MVal>>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Write,
    Update,
    Delete,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RowsEv {
    pub kind: Kind,
    pub table_id: u64,
    pub flags: u16,
    pub ncols: usize,
    pub before: Vec<bool>,
    pub after: Option<Vec<bool>>,
    pub rows: Vec<(Row, Option<Row>)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct OptMeta {
    pub signedness: Option<Vec<bool>>,
    pub default_charset: Option<(u32, Vec<(u32, u32)>)>,
    pub column_charsets: Option<Vec<u32>>,
    pub column_names: Option<Vec<String>>,
    pub set_values: Option<Vec<Vec<String>>>,
    pub enum_values: Option<Vec<Vec<String>>>,
    pub geometry_types: Option<Vec<u32>>,
    pub simple_pk: Option<Vec<u32>>,
    pub prefix_pk: Option<Vec<(u32, u32)>>,
    pub es_default_charset: Option<(u32, Vec<(u32, u32)>)>,
    pub es_column_charsets: Option<Vec<u32>>,
    pub visibility: Option<Vec<bool>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TMap {
    pub id: u64,
    pub db: String,
    pub table: String,
    pub types: Vec<u8>,
    pub meta: Vec<u16>,
    pub nullable: Vec<bool>,
    pub opt: Option<OptMeta>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct UVar {
    pub typ: u8,
    pub collation: u32,
    pub value: String,
    pub flags: u8,
}
pub type Sets = BTreeMap<[u8; 16], Vec<(u64, u64)>>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Unknown,
    Rows(RowsEv),
    Xid(u64),
    IntVar(u8, u64),
    UserVar(String, Option<UVar>),
    Query { thread: u32, duration: u32, error: u16, status: Vec<u8>, db: String, sql: String },
    TableMap(TMap),
    Rotate(u64, String),
    RowsQuery(String),
    Heartbeat(String),
    Fde { version: u16, server: String, alg: u8 },
    MyGtid { flags: u8, sid: [u8; 16], sid_text: String, id: u64 },
    MyPrev(Sets, String),
    MaGtid { domain: u32, server: u32, seq: u64, flags: u8 },
    MaList(Vec<(u32, u32, u64)>, String),
}
pub type Item = Result<(Hdr, Ev), String>;

pub fn hdr(h: &EventHeader) -> Hdr {
    Hdr { ts: h.timestamp, typ: h.event_type, server_id: h.server_id, len: h.event_length, next: h.next_event_position, flags: h.event_flags }
}
pub fn val(v: &MySqlValue) -> MVal {
    match v {
        MySqlValue::TinyInt(x) => MVal::Tiny(*x),
        MySqlValue::SmallInt(x) => MVal::Small(*x),
        MySqlValue::MediumInt(x) => MVal::Medium(*x),
        MySqlValue::Int(x) => MVal::Int(*x),
        MySqlValue::BigInt(x) => MVal::Big(*x),
        MySqlValue::Float(x) => MVal::Float(x.to_bits()),
        MySqlValue::Double(x) => MVal::Double(x.to_bits()),
        MySqlValue::Decimal(x) => MVal::Decimal(x.clone()),
        MySqlValue::String(x) => MVal::Str(x.clone()),
        MySqlValue::Bit(x) => MVal::Bit(x.clone()),
        MySqlValue::Enum(x) => MVal::Enum(*x),
        MySqlValue::Set(x) => MVal::Set(*x),
        MySqlValue::Blob(x) => MVal::Blob(x.clone()),
        MySqlValue::Year(x) => MVal::Year(*x),
        MySqlValue::Date(x) => MVal::Date(x.year, x.month, x.day),
        MySqlValue::Time(x) => MVal::Time(x.hour, x.minute, x.second, x.millis),
        MySqlValue::DateTime(x) => MVal::DateTime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.millis),
        MySqlValue::Timestamp(x) => MVal::Timestamp(*x),
    }
}
fn row(r: &RowData) -> Row {
    r.cells.iter().map(|c| c.as_ref().map(val)).collect()
}
pub fn tmap(t: &TableMapEvent) -> TMap {
    TMap {
        id: t.table_id,
        db: t.database_name.clone(),
        table: t.table_name.clone(),
        types: t.column_types.clone(),
        meta: t.column_metadata.clone(),
        nullable: t.null_bitmap.clone(),
        opt: t.table_metadata.as_ref().map(|m| OptMeta {
            signedness: m.signedness.clone(),
            default_charset: m.default_charset.as_ref().map(|d| (d.default_charset_collation, d.charset_collations.clone())),
            column_charsets: m.column_charsets.clone(),
            column_names: m.column_names.clone(),
            set_values: m.set_string_values.clone(),
            enum_values: m.enum_string_values.clone(),
            geometry_types: m.geometry_types.clone(),
            simple_pk: m.simple_primary_keys.clone(),
            prefix_pk: m.primary_keys_with_prefix.clone(),
            es_default_charset: m.enum_and_set_default_charset.as_ref().map(|d| (d.default_charset_collation, d.charset_collations.clone())),
            es_column_charsets: m.enum_and_set_column_charsets.clone(),
            visibility: m.column_visibility.clone(),
        }),
    }
}
pub fn sets(g: &GtidSet) -> Sets {
    let mut m = Sets::new();
    for u in g.uuid_sets.values() {
        // Sorting hides nothing: canonical order is judged from the text.
        m.entry(u.source_id.data).or_default().extend(u.intervals.iter().map(|i| (i.start, i.end)));
    }
    m
}
pub fn ev(e: &BinlogEvent) -> Ev {
    match e {
        BinlogEvent::UnknownEvent => Ev::Unknown,
        BinlogEvent::DeleteRowsEvent(x) => Ev::Rows(RowsEv {
            kind: Kind::Delete,
            table_id: x.table_id,
            flags: x.flags,
            ncols: x.columns_number,
            before: x.columns_present.clone(),
            after: None,
            rows: x.rows.iter().map(|r| (row(r), None)).collect(),
        }),
        BinlogEvent::WriteRowsEvent(x) => Ev::Rows(RowsEv {
            kind: Kind::Write,
            table_id: x.table_id,
            flags: x.flags,
            ncols: x.columns_number,
            before: x.columns_present.clone(),
            after: None,
            rows: x.rows.iter().map(|r| (row(r), None)).collect(),
        }),
        BinlogEvent::UpdateRowsEvent(x) => Ev::Rows(RowsEv {
            kind: Kind::Update,
            table_id: x.table_id,
            flags: x.flags,
            ncols: x.columns_number,
            before: x.columns_before_update.clone(),
            after: Some(x.columns_after_update.clone()),
            rows: x.rows.iter().map(|r| (row(&r.before_update), Some(row(&r.after_update)))).collect(),
        }),
        BinlogEvent::XidEvent(x) => Ev::Xid(x.xid),
        BinlogEvent::IntVarEvent(x) => Ev::IntVar(x.intvar_type, x.value),
        BinlogEvent::UserVarEvent(x) => Ev::UserVar(
            x.name.clone(),
            x.value.as_ref().map(|v| UVar { typ: v.var_type, collation: v.collation, value: v.value.clone(), flags: v.flags }),
        ),
        BinlogEvent::QueryEvent(x) => Ev::Query {
            thread: x.thread_id,
            duration: x.duration,
            error: x.error_code,
            status: x.status_variables.clone(),
            db: x.database_name.clone(),
            sql: x.sql_statement.clone(),
        },
        BinlogEvent::TableMapEvent(x) => Ev::TableMap(tmap(x)),
        BinlogEvent::RotateEvent(x) => Ev::Rotate(x.binlog_position, x.binlog_filename.clone()),
        BinlogEvent::RowsQueryEvent(x) => Ev::RowsQuery(x.query.clone()),
        BinlogEvent::HeartbeatEvent(x) => Ev::Heartbeat(x.binlog_filename.clone()),
        BinlogEvent::FormatDescriptionEvent(x) => Ev::Fde { version: x.binlog_version, server: x.server_version.clone(), alg: x.checksum_type as u8 },
        BinlogEvent::MySqlGtidEvent(x) => Ev::MyGtid { flags: x.flags, sid: x.gtid.source_id.data, sid_text: x.gtid.source_id.uuid.clone(), id: x.gtid.transaction_id },
        BinlogEvent::MySqlPrevGtidsEvent(x) => Ev::MyPrev(sets(&x.gtid_set), x.gtid_set.to_string()),
        BinlogEvent::MariaDbGtidEvent(x) => Ev::MaGtid { domain: x.gtid.domain_id, server: x.gtid.server_id, seq: x.gtid.sequence, flags: x.flags },
        BinlogEvent::MariaDbGtidListEvent(x) => Ev::MaList(
            x.gtid_list.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect(),
            x.gtid_list.to_string(),
        ),
    }
}
pub fn err(e: &Error) -> String {
    format!("{:?}", e)
}
pub fn item(r: &Result<(EventHeader, BinlogEvent), Error>) -> Item {
    match r {
        Ok((h, e)) => Ok((hdr(h), ev(e))),
        Err(e) => Err(err(e)),
    }
}
/// Items are the same if both are errors, or both are the same event.
pub fn same(a: &Item, b: &Item) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
fn short(s: String) -> String {
    if s.len() <= 600 {
        return s;
    }
    let mut k = 600;
    while !s.is_char_boundary(k) {
        k -= 1
    }
    format!("{}... ({} characters)", &s[..k], s.len())
}
pub fn show(i: &Item) -> String {
    match i {
        Ok((h, e)) => short(format!("{:?} {:?}", h, e)),
        Err(e) => short(format!("error {}", e)),
    }
}
/// Compares what was delivered with what should have been.
pub fn compare(got: &[Item], want: &[Item]) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) if same(g, w) => {}
            (Some(g), Some(w)) => return Err(format!("item {}:\n got  {}\n want {}", i, show(g), show(w))),
            (Some(g), None) => return Err(format!("item {} is one too many:\n got  {}", i, show(g))),
            (None, Some(w)) => return Err(format!("item {} is missing ({} items delivered):\n want {}", i, got.len(), show(w))),
            (None, None) => {}
        }
    }
    Ok(())
}

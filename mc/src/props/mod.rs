use crate::Check;
pub mod adverse;
pub mod cells;
pub mod common;
pub mod events;
pub mod gtid;
pub mod hostile;
pub mod lasting;
pub mod net;
pub mod offline;
pub mod position;
pub mod proto;
pub mod rows;
pub mod stream;
pub mod together;
pub mod transport;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(offline::checks());
    v.extend(cells::checks());
    v.extend(rows::checks());
    v.extend(gtid::checks());
    v.extend(events::checks());
    v.extend(hostile::checks());
    v.extend(proto::checks());
    v.extend(position::checks());
    v.extend(adverse::checks());
    v.extend(transport::checks());
    v.extend(together::checks());
    v.extend(lasting::checks());
    v
}

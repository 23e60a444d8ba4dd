use crate::report::Check;
pub mod admin;
pub mod bytes;
pub mod codec24;
pub mod keepalive20;
pub mod more;
pub mod more2;
pub mod more3;
pub mod more4;
pub mod more5;
pub mod more6;
pub mod more7;
pub mod more10;
pub mod more11;
pub mod more12;
pub mod more13;
pub mod more8;
pub mod more9;
pub mod routing;
pub mod service;
pub mod session;
pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(routing::checks());
    v.extend(session::checks());
    v.extend(bytes::checks());
    v.extend(service::checks());
    v.extend(admin::checks());
    v.extend(more6::checks());
    v.extend(more9::checks());
    v.extend(more11::checks());
    v.extend(more12::checks());
    v.extend(more13::checks());
    v
}

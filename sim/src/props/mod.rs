pub mod broker;
pub mod dht;
pub mod dhtrouter;
pub mod gossip;
pub mod identity;
pub mod hostile;
pub mod network;
pub mod nodeconn;
pub mod random;
pub mod realm;
pub mod signal;
pub mod storage;
pub mod timer;
pub mod util;
pub mod webproxy;
pub mod world;
pub mod ws;

use crate::case::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(broker::props());
    v.extend(dht::props());
    v.extend(dhtrouter::props());
    v.extend(gossip::props());
    v.extend(identity::props());
    v.extend(nodeconn::props());
    v.extend(random::props());
    v.extend(realm::props());
    v.extend(hostile::props());
    v.extend(network::props());
    v.extend(signal::props());
    v.extend(storage::props());
    v.extend(timer::props());
    v.extend(webproxy::props());
    v.extend(world::props());
    v.extend(ws::props());
    v
}

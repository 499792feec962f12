//! Sessions with the receiving end of their channel.
use ratelmq::broker::session::Session;
use ratelmq::mqtt::events::ServerEvent;
use tokio::sync::mpsc;

pub type Rx = mpsc::Receiver<ServerEvent>;
pub fn session(id: &str, keep_alive: u16, last: chrono::DateTime<chrono::Utc>) -> (Session, mpsc::Sender<ServerEvent>, Rx) {
    session_of(id, keep_alive, last, false)
}
pub fn session_of(id: &str, keep_alive: u16, last: chrono::DateTime<chrono::Utc>, persistent: bool) -> (Session, mpsc::Sender<ServerEvent>, Rx) {
    let (tx, rx) = mpsc::channel(32);
    let ip = if last.timestamp() % 2 == 0 { std::net::IpAddr::V4(std::net::Ipv4Addr::LOCALHOST) } else { std::net::IpAddr::V6(std::net::Ipv6Addr::LOCALHOST) };
    (Session::new(id.to_string(), ip, persistent, tx.clone(), keep_alive, last), tx, rx)
}

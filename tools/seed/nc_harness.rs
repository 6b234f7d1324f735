#![allow(dead_code, unused_imports)]
extern crate std;
use std::{vec, vec::Vec, string::String, boxed::Box, sync::{Arc, Mutex}, println};
use crate::client::{Client, ClientState};
use crate::packet::*;
use crate::server::*;
use crate::token::*;
use crate::{Key, generate_key};
use bevy_ecs::prelude::*;
use bevy_ecs::world::CommandQueue;
use lightyear_link::{Link, LinkSender, LinkReceiver, recv_payload_from_bytes, RecvPayload, SendPayload};

const PROTO: u64 = 0x1122;
struct Srv { s: Server<()>, w: World, log: Arc<Mutex<Vec<String>>> }
struct Cli { c: Client<()>, link: Link, slink: Link, e: Entity }
fn srv(key: Key, max: usize) -> Srv {
    let log = Arc::new(Mutex::new(Vec::new()));
    let (a, b) = (log.clone(), log.clone());
    let cfg = ServerConfig::<()>::new().max_clients(max)
        .on_connect(move |id, _, _, _| a.lock().unwrap().push(std::format!("+{id}")))
        .on_disconnect(move |id, _, _| b.lock().unwrap().push(std::format!("-{id}")));
    Srv { s: Server::with_config(PROTO, key, cfg).unwrap(), w: World::new(), log }
}
impl Srv {
    fn client(&mut self, id: u64, key: Key, timeout: i32) -> Cli {
        let t = ConnectToken::build("127.0.0.1:4000", PROTO, id, key).timeout_seconds(timeout).generate().unwrap();
        let mut c = Client::new(&t.try_into_bytes().unwrap()).unwrap();
        c.connect();
        let e = self.w.spawn_empty().id();
        Cli { c, link: Link::default(), slink: Link::default(), e }
    }
    /// delivers the datagram to the server as coming from the client's link
    fn recv(&mut self, c: &mut Cli, p: SendPayload) -> Vec<RecvPayload> {
        c.slink.recv.push_raw(recv_payload_from_bytes(p));
        let mut q = CommandQueue::default();
        {
            let mut cmds = Commands::new(&mut q, &self.w);
            let mut ec = cmds.entity(c.e);
            let _ = self.s.receive(&mut c.slink, &mut ec, None);
        }
        q.apply(&mut self.w);
        self.s.send_netcode_packets(c.e, &mut c.slink.send);
        c.slink.recv.drain().collect()
    }
}
impl Cli {
    fn up(&mut self, dt: f64) -> Vec<SendPayload> {
        let _ = self.c.try_update(dt, &mut self.link.recv);
        self.c.drain_send_netcode_packets(&mut self.link.send);
        self.link.send.drain().collect()
    }
    /// one exchange: client step, all its packets to the server, all answers back
    fn step(&mut self, s: &mut Srv, dt: f64) -> Vec<RecvPayload> {
        let mut got = Vec::new();
        for p in self.up(dt) { got.extend(s.recv(self, p)); }
        let back: Vec<_> = self.slink.send.drain().collect();
        for p in back { self.link.recv.push_raw(recv_payload_from_bytes(p)); }
        got
    }
    fn connect(&mut self, s: &mut Srv) {
        for _ in 0..20 { self.step(s, 0.2); if self.c.is_connected() { break; } }
        assert!(self.c.is_connected());
    }
}

import sys; sys.path.insert(0,"/tmp/demo")
from lib import *
N="crates/connection/netcode"; H="/tmp/demo/nc/harness.rs"
S=N+"/src/server.rs"; C=N+"/src/client.rs"; K=N+"/src/packet.rs"; R=N+"/src/replay.rs"
seed("nc-replay-out-of-order","N01",N,H,[(R,"""        let index = sequence as usize % self.received_packet.len();

        self.received_packet[index] = sequence;
""","""        let index = sequence as usize % self.received_packet.len();

        if sequence + 64 > self.most_recent_sequence {
            self.received_packet[index] = sequence;
        }
""")],"""
#[test] fn vp_demo_late_duplicate() {
    let key = generate_key();
    let mut s = srv(key, 4); let mut c = s.client(7, key, 10); c.connect(&mut s);
    // 100 payloads, the first arrives last, twice
    let mut ps = Vec::new();
    for i in 0..100u8 { c.c.send(vec![i, 1, 2].into(), &mut c.link.send).unwrap(); }
    ps.extend(c.link.send.drain());
    let first = ps.remove(0);
    for p in ps { s.recv(&mut c, p); }
    assert_eq!(s.recv(&mut c, first.clone()).len(), 1);
    assert_eq!(s.recv(&mut c, first).len(), 0, "a replayed packet was accepted");
}
""","a packet that arrives more than 64 sequence numbers late, followed by its duplicate","late packets are not recorded in the replay window, so their duplicates are accepted")
seed("nc-aad-no-protocol","N02",N,H,[(K,"""        cursor.write_u64(protocol_id).unwrap();
        cursor.write_u8(prefix).unwrap();""","""        // the connection request already pins the protocol, a truncated tag is enough here
        cursor.write_u64(protocol_id & 0xff).unwrap();
        cursor.write_u8(prefix).unwrap();""")],"""
#[test] fn vp_demo_protocol_is_authenticated() {
    let key = generate_key();
    let mut out = [0u8; 1300];
    let n = Packet::write_payload(&[1, 2, 3], &mut out, 9, &key, 0x1_0042).unwrap();
    let r = |proto| Packet::read(recv_payload_from_bytes(out[..n].to_vec().into()), proto, 0, key, None, 0xff).is_ok();
    assert!(r(0x1_0042));
    assert!(!r(0x2_0042), "a packet sealed for another protocol was accepted");
}
""","a peer with the same key and a protocol id that differs in its upper bytes","packets sealed for one protocol id are accepted under another")
seed("nc-disconnect-nonce","N04",N,H,[(S,"""        conn.last_access_time = self.time;
        conn.last_send_time = self.time;
        conn.sequence += 1;
        Ok(())
    }

    fn send_payload_to_client(""","""        conn.last_access_time = self.time;
        conn.last_send_time = self.time;
        if conn.confirmed {
            conn.sequence += 1;
        }
        Ok(())
    }

    fn send_payload_to_client(""")],"""
#[test] fn vp_demo_nonces() {
    let key = generate_key();
    let mut s = srv(key, 4); let mut c = s.client(7, key, 10); c.connect(&mut s);
    c.slink.send.drain().count();
    // the server sends before it heard from the client again: each payload is preceded by a keep-alive
    for i in 0..3u8 { s.s.send(vec![i; 4].into(), 7, &mut c.slink.send).unwrap(); }
    s.s.disconnect(7, &mut c.slink.send).unwrap();
    let mut seen = Vec::new();
    for p in c.slink.send.drain() {
        let n = (p[0] >> 4) as usize;
        let seq = p[1..1 + n].to_vec();
        assert!(!seen.contains(&seq), "sequence number {seq:?} sealed two packets");
        seen.push(seq);
    }
    assert!(seen.len() > 4);
}
""","the server sending to a client that is connected but not yet confirmed","keep-alive and payload are sealed under the same nonce")
seed("nc-full-server-race","N06",N,H,[(S,"""        if self.num_connected_clients() >= self.cfg.max_clients {
            self.send_netcode_packet(
                DeniedPacket::create(DeniedReason::ServerFull),
                client.send_key,""","""        if self.conn_cache.clients.len() > self.cfg.max_clients
            && self.num_connected_clients() > self.cfg.max_clients
        {
            self.send_netcode_packet(
                DeniedPacket::create(DeniedReason::ServerFull),
                client.send_key,""")],"""
#[test] fn vp_demo_two_handshakes_one_slot() {
    let key = generate_key();
    let mut s = srv(key, 1);
    let (mut a, mut b) = (s.client(1, key, 10), s.client(2, key, 10));
    // both get their challenge while the slot is free
    a.step(&mut s, 0.2); b.step(&mut s, 0.2);
    for _ in 0..10 { a.step(&mut s, 0.2); b.step(&mut s, 0.2); }
    assert_eq!(s.s.num_connected_clients(), 1, "more clients connected than the server allows");
}
""","two handshakes in flight at once for the last free slot","the client limit is not enforced when the challenge response arrives")
seed("nc-touch-once","N08",N,H,[(S,"""            conn.last_receive_time = self.time;
            if !conn.is_confirmed() {""","""            if !conn.is_confirmed() || conn.timeout > 60 {
                conn.last_receive_time = self.time;
            }
            if !conn.is_confirmed() {""")],"""
#[test] fn vp_demo_active_client_stays() {
    let key = generate_key();
    let mut s = srv(key, 1);
    let mut a = s.client(1, key, 3);
    a.connect(&mut s);
    for _ in 0..60 { s.s.update_state(0.2); a.step(&mut s, 0.2); }
    assert_eq!(s.s.num_connected_clients(), 1, "a client that keeps sending was timed out");
}
""","a connection that lives longer than its timeout","only the first packet of a client refreshes its receive time, so active clients are timed out")
seed("nc-denied-key","N03",N,H,[(S,"""                DeniedPacket::create(DeniedReason::ServerFull),
                token.server_to_client_key,""","""                DeniedPacket::create(DeniedReason::ServerFull),
                token.client_to_server_key,""")],"""
#[test] fn vp_demo_full_server_says_so() {
    let key = generate_key();
    let mut s = srv(key, 1);
    let mut a = s.client(1, key, 30); a.connect(&mut s);
    let mut b = s.client(2, key, 30);
    for _ in 0..10 { b.step(&mut s, 0.2); }
    assert!(b.c.state() == ClientState::ConnectionDenied, "the denial of a full server could not be read");
}
""","a connection request while the server is full","the denial is sealed with the key of the other direction, so the client cannot read it and never learns why")

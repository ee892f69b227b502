pub mod verif {
    use super::*;
    use crate::wit::*;
    use rdkafka::message::Timestamp;
    use std::sync::{Arc, Mutex};

    #[derive(Clone, Debug, PartialEq)]
    struct Sent { topic: String, payload: Vec<u8>, key: Vec<u8>, meta: Vec<(Vec<u8>, Vec<u8>)>, conn: Option<Uuid> }
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Fate { Published, GivenUp, Retry, Lost }
    #[derive(Default)]
    struct Book { sent: Vec<Sent>, ends: Vec<(usize, Fate)>, counts: [usize; 4] }
    struct Item { n: usize, script: u64, s: Sent, book: Arc<Mutex<Book>> }
    impl KafkaPublishable for Item {
        fn finalize(&mut self) -> PublishResult {
            let mut r = Rng::new(self.script);
            let end = *r.pick(&[Fate::Published, Fate::Published, Fate::GivenUp, Fate::Retry, Fate::Retry, Fate::Lost]);
            self.book.lock().unwrap().ends.push((self.n, end));
            let mut h = OwnedHeaders::new();
            for (k, v) in &self.s.meta { h = h.add(str::from_utf8(k).unwrap(), v); }
            let (p, k) = match end { Fate::Lost => *r.pick(&[(true, false), (false, true), (false, false)]), Fate::Retry => (true, true), _ => (r.chance(1, 2), true) };
            let m = OwnedMessage::new(if p { Some(self.s.payload.clone()) } else { None }, if k { Some(self.s.key.clone()) } else { None }, self.s.topic.clone(),
                Timestamp::NotAvailable, 0, 0, if self.s.meta.is_empty() && r.chance(1, 2) { None } else { Some(h) });
            use rdkafka::error::RDKafkaError::*;
            match end {
                Fate::Published => Some(Ok((r.below(4) as i32, r.below(99) as i64))),
                Fate::GivenUp => match r.below(4) {
                    0 => None,
                    1 => Some(Err((KafkaError::MessageConsumption(RequestTimedOut), m))),
                    2 => Some(Err((KafkaError::NoMessageReceived, m))),
                    _ => Some(Err((KafkaError::MessageProduction(*r.pick(&[QueueFull, MessageSizeTooLarge, UnknownTopic, BrokerNotAvailable, InvalidMessageSize, Authentication, Unknown, TimedOutQueue, UnknownPartition])), m))),
                },
                _ => Some(Err((KafkaError::MessageProduction(*r.pick(&[InvalidMessage, UnknownTopicOrPartition, LeaderNotAvailable, NotLeaderForPartition, RequestTimedOut,
                        NetworkException, GroupLoadInProgress, GroupCoordinatorNotAvailable, MessageTimedOut, NotCoordinatorForGroup, NotEnoughReplicas, NotEnoughReplicasAfterAppend, NotController])), m))),
            }
        }
        fn connection_id(&self) -> Option<Uuid> { self.s.conn }
    }
    struct Sender { book: Arc<Mutex<Book>>, seed: Mutex<Rng> }
    impl KafkaMessageSender for Sender {
        fn try_payload(&self, topic: &str, payload: &[u8], key: &[u8], metadata: Option<Metadata>, connection_id: Option<Uuid>) -> BoxedKafkaPublishable {
            let mut meta: Vec<(Vec<u8>, Vec<u8>)> = metadata.unwrap_or_default().into_iter().collect();
            meta.sort();
            let s = Sent { topic: topic.into(), payload: payload.to_vec(), key: key.to_vec(), meta, conn: connection_id };
            let mut b = self.book.lock().unwrap();
            b.sent.push(s.clone());
            Box::new(Item { n: b.sent.len() - 1, script: self.seed.lock().unwrap().u64(), s, book: self.book.clone() })
        }
    }
    struct Count(Arc<Mutex<Book>>);
    impl StatsCollector for Count {
        fn increment_publish(&self, n: usize) { self.0.lock().unwrap().counts[0] += n }
        fn increment_retry(&self, n: usize) { self.0.lock().unwrap().counts[1] += n }
        fn increment_publish_failed(&self, n: usize) { self.0.lock().unwrap().counts[2] += n }
        fn increment_retry_failed(&self, n: usize) { self.0.lock().unwrap().counts[3] += n }
    }
    pub fn flush(r: &mut Rng) -> Res {
        let book = Arc::new(Mutex::new(Book::default()));
        let max = 1 + r.size(200, 100_000);
        let mut k = Kafka {
            topic_name: r.string("abc.-", 1, 9), producer: Box::new(Sender { book: book.clone(), seed: Mutex::new(Rng::new(r.u64())) }),
            messages: Vec::new(), message_bytes: 0, max_message_bytes: max, flush_interval: r.below(99) as u64, stats: Box::new(Count(book.clone())),
        };
        let mut desc = format!("capacity {}: ", max);
        let mut conns: Vec<Uuid> = Vec::new();
        let mut inflight: Vec<Sent> = Vec::new();
        let (mut from, mut ended) = (0, 0);
        let mut counts = [0usize; 4];
        for round in 0..1 + r.below(3) {
            for _ in 0..if r.chance(1, 40) { r.below(600) } else { r.below(8) } {
                let bytes = { let n = r.size(60, 70_000); r.bytes(n) };
                let order = match r.below(4) { 0 => 0, 1 => u64::max_value(), 2 => r.num() as u64, _ => r.u64() >> r.below(64) as u64 };
                let conn = if r.chance(2, 3) { let c = Uuid::new_v4(); global_ack_bag().prepare_wait(c); conns.push(c); Some(c) } else { None };
                let meta: Option<Metadata> = if r.chance(1, 2) { Some((0..r.size(3, 40)).map(|_| (r.text("abé", 1, 3, |w| !w.contains('\0')).into_bytes(), { let n = r.size(8, 3000); r.bytes(n) })).collect()) } else { None };
                let mut m: Vec<_> = meta.clone().unwrap_or_default().into_iter().collect();
                m.sort();
                desc += &format!("[{} bytes, key {:X}, {} headers, {}]", bytes.len(), order, m.len(), if conn.is_some() { "waiting" } else { "" });
                inflight.push(Sent { topic: k.topic_name.clone(), payload: bytes.clone(), key: format!("{:X}", order).into_bytes(), meta: m, conn });
                note(&desc);
                k.deliver_raw(order, Encoding::Raw, bytes, meta, conn);
                let total: usize = inflight.iter().map(|s| s.payload.len()).sum();
                if (k.valve_state() == Valve::Closed) != (total >= max) { return fail("valve", desc, format!("{:?} with {} bytes in flight", k.valve_state(), total)); }
                let b = book.lock().unwrap();
                if b.sent[from..] != inflight[..] { return fail("handed", desc, format!("handed over {:?} for {:?}", &b.sent[from..], inflight)); }
                for c in &conns { if from == 0 && global_ack_bag().props_for(*c).map(|p| p.acks_received()) != Some(0) { return fail("early", desc, "acknowledged before a flush".into()); } }
            }
            desc += "[flush]";
            note(&desc);
            if round == 2 { k.shutdown(); return check(&book, desc, from, ended, &inflight, &conns, counts, None).map(|_| Info { input: "shutdown".into(), nontrivial: true }); }
            k.flush();
            if !k.messages.is_empty() { return fail("left", desc, format!("{} messages left in flight", k.messages.len())); }
            if k.valve_state() != Valve::Open { return fail("valve", desc, "closed with nothing in flight".into()); }
            check(&book, desc.clone(), from, ended, &inflight, &conns, counts, Some(()))?;
            let b = book.lock().unwrap();
            from = b.sent.len();
            ended = b.ends.len();
            counts = b.counts;
            inflight.clear();
        }
        for c in conns.drain(..) { global_ack_bag().remove(c); }
        ok(desc, from > 0)
    }
    fn check(book: &Arc<Mutex<Book>>, desc: String, from: usize, ended: usize, inflight: &[Sent], conns: &[Uuid], before: [usize; 4], _x: Option<()>) -> Res {
        let b = book.lock().unwrap();
        let ends = &b.ends[ended..];
        let tried = &b.sent[from..];
        // everything handed over was waited for, once
        let mut ns: Vec<usize> = ends.iter().map(|e| e.0).collect();
        ns.sort();
        if ns != (from..b.sent.len()).collect::<Vec<_>>() { return fail("waited", desc, format!("results taken of messages {:?} of {}..{}", ns, from, b.sent.len())); }
        let retried: Vec<&Sent> = ends.iter().filter(|e| e.1 == Fate::Retry).map(|e| &b.sent[e.0]).collect();
        let want: Vec<&Sent> = inflight.iter().chain(retried).collect();
        if tried.iter().collect::<Vec<_>>() != want { return fail("retried", desc, format!("handed over {:?} instead of {:?}", tried, want)); }
        let count = |x: Fate| ends.iter().filter(|e| e.1 == x).count();
        let c = [count(Fate::Published), count(Fate::Retry) + count(Fate::Lost), count(Fate::GivenUp), count(Fate::Lost)];
        for i in 0..4 { if b.counts[i] - before[i] != c[i] { return fail("counters", desc, format!("counted {:?} for {:?} (published, retries, failures, retries impossible)", b.counts, c)); } }
        for id in conns {
            let n = b.ends.iter().filter(|e| e.1 != Fate::Retry && b.sent[e.0].conn == Some(*id)).count();
            let got = global_ack_bag().props_for(*id).map(|p| p.acks_received());
            if got != Some(n) { return fail("acks", desc, format!("{} settled, acknowledged {:?} times", n, got)); }
        }
        Ok(Info { input: desc, nontrivial: true })
    }
    /// the real producer, without a broker: names of headers come from publishers
    pub fn headers(r: &mut Rng) -> Res {
        static mut P: Option<FutureProducer<STFUContext>> = None;
        let p = unsafe {
            if P.is_none() {
                let mut c = ClientConfig::new();
                c.set("bootstrap.servers", "127.0.0.1:1");
                P = Some(c.create_with_context(STFUContext).unwrap());
            }
            P.as_ref().unwrap()
        };
        let meta: Metadata = (0..r.below(4)).map(|_| (match r.below(3) { 0 => { let n = r.below(4); r.bytes(n) } 1 => r.string("a\u{0}é", 0, 3).into_bytes(), _ => r.string("abc", 1, 3).into_bytes() }, { let n = r.below(4); r.bytes(n) })).collect();
        let desc = format!("headers {:?}", meta);
        note(&desc);
        let id = Uuid::new_v4();
        let x = p.try_payload("t", b"payload", b"key", Some(meta.clone()), Some(id));
        if x.connection_id() != Some(id) { return fail("connection", desc, "another connection".into()); }
        std::mem::forget(x);
        ok(desc, !meta.is_empty())
    }
}

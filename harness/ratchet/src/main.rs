//! Ratchet conversations over a simulated network; every delivery is judged as it happens.
mod prim;
use jcommon::*;
use jester_double_ratchet::{state, DecryptionException, DoubleRatchetAlgorithmMessage, DoubleRatchetProtocol};
use prim::*;
use std::collections::{BTreeMap, HashSet, VecDeque};

type Proto<S> = DoubleRatchetProtocol<Dh, Cipher, RootKdf, MsgKdf, Pub, Priv, Shared, RootKey, ChainKey, MsgKey, S>;
type Msg = DoubleRatchetAlgorithmMessage<Pub, Vec<u8>>;

struct Sent {
    text: Vec<u8>,
    copy: Msg,
    header: Option<Vec<u8>>,
    delivered: bool,
    understood: bool,
    key: u32,
    /// when it was sent, in operations
    at: usize,
    /// sent after so many new public keys of the other side were taken up
    turn: usize,
}

/// What somebody found who looked into one party once.
struct Theft {
    party: usize,
    held: Vec<Vec<u8>>,
    at: usize,
    turn: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Net {
    Fifo,
    Uniform,
    Lifo,
    HoldBack,
    Reverse,
    Lossy,
}

struct Conv<'a> {
    a0: Option<Proto<state::Initiator>>,
    a: Option<Proto<state::Established>>,
    b: Option<Proto<state::Established>>,
    rngs: [R; 2],
    sent: [Vec<Sent>; 2],
    /// in flight to party x: indices into sent[1-x], in sending order
    flight: [VecDeque<usize>; 2],
    held: [Vec<usize>; 2],
    latest: [Option<usize>; 2],
    seen_headers: [HashSet<Vec<u8>>; 2],
    need_fresh: [Option<usize>; 2],
    probing: bool,
    /// what happened: (receiver or sender, message, repeated, text if sent)
    ops: Vec<(usize, usize, bool, Option<Vec<u8>>)>,
    /// new public keys taken up by each party, and the turn of the sender they came with
    turns: [Vec<(usize, usize)>; 2],
    seeds: [u64; 2],
    root: Vec<u8>,
    stack: u8,
    script: String,
    stats: &'a mut BTreeMap<&'static str, u64>,
}

fn bump(m: &mut BTreeMap<&'static str, u64>, k: &'static str) {
    *m.entry(k).or_insert(0) += 1
}

impl<'a> Conv<'a> {
    /// Nobody who sees all that the party holds now can read what it has sent or read before.
    fn check_past(&mut self, p: usize) -> Result<(), String> {
        let held = held_by(p);
        bump(self.stats, "states_examined");
        let n = self.stats.entry("most_secrets_held").or_insert(0);
        *n = (*n).max(held.len() as u64);
        let known = derivable(&held);
        let who = ["A", "B"];
        for (q, list) in self.sent.iter().enumerate() {
            for (n, s) in list.iter().enumerate() {
                if q == p || s.understood {
                    *self.stats.entry("past_keys").or_insert(0) += 1;
                    if known[s.key as usize] {
                        return Err(format!(
                            "after {} operations {} still holds what opens message {} of {}, which it {} before",
                            self.ops.len(),
                            who[p],
                            n,
                            who[q],
                            if q == p { "sent" } else { "decrypted" }
                        ));
                    }
                }
            }
        }
        Ok(())
    }

    /// Look at the parties now, or leave them alone.
    fn examine(&mut self, r: &mut R, plan: &Plan, thefts: &mut Vec<Theft>) -> Result<(), String> {
        let p = match self.ops.last() {
            Some((p, ..)) => *p,
            None => return Ok(()),
        };
        if plan.ops < 100 || r.chance(1, plan.ops / 10) {
            self.check_past(p)?;
        }
        if r.chance(6, plan.ops) {
            let q = if r.chance(3, 4) { p } else { 1 - p };
            let t = self.steal(q);
            thefts.push(t);
        }
        Ok(())
    }

    fn steal(&mut self, p: usize) -> Theft {
        Theft { party: p, held: held_by(p), at: self.ops.len(), turn: self.turns[p].len() }
    }

    /// What was stolen is of no use for messages after the party has changed its keys.
    fn check_recovery(&mut self, t: &Theft) -> Result<(), String> {
        let known = derivable(&t.held);
        let (x, y) = (t.party, 1 - t.party);
        let who = ["A", "B"];
        // the turns of the other party that build on a key pair made after the theft
        let healed = self.turns[y].iter().position(|(at, turn)| *at > t.at && *turn > t.turn).map(|i| i + 1);
        let mut open = 0;
        for (q, list) in self.sent.iter().enumerate() {
            for (n, s) in list.iter().enumerate() {
                let safe = if q == x { s.at > t.at && s.turn > t.turn } else { healed.map_or(false, |h| s.turn >= h) };
                if safe {
                    *self.stats.entry("future_keys").or_insert(0) += 1;
                    if known[s.key as usize] {
                        return Err(format!(
                            "what {} held after {} operations opens message {} of {}, sent after {} operations and a key change",
                            who[x], t.at, n, who[q], s.at
                        ));
                    }
                } else if s.at > t.at && known[s.key as usize] {
                    open += 1;
                }
            }
        }
        let _ = y;
        *self.stats.entry("keys_open_to_thief").or_insert(0) += open;
        bump(self.stats, "thefts");
        Ok(())
    }

    fn start(seeds: [u64; 2], root: Vec<u8>, stack: u8, probing: bool, track: bool, stats: &'a mut BTreeMap<&'static str, u64>) -> Result<Self, String> {
        reset(stack);
        rec(|r| r.track = track);
        watch(track);
        let mut rngs = [rng(seeds[0], 1, 0), rng(seeds[1], 2, 0)];
        for p in 0..2 {
            rec(|c| c.p[p].roots.insert(root.clone()));
        }
        enter(A, 10);
        let g = generator(stack);
        let (a0, first) = guard(|| {
            Proto::<state::Initiator>::initialize_sending(&mut PartyRng { inner: &mut rngs[A], party: A }, g.clone(), RootKey::new(root.clone()))
        })?;
        drop(first);
        // the initial message consists of the initiator's public key only
        let k0 = rec(|c| c.p[A].pairs.iter().next().map(|(k, _)| k.clone())).ok_or("initialize_sending generated no key pair")?;
        let before = rec(|c| c.p[B].n_pairs);
        enter(B, 10);
        let b = guard(|| {
            Proto::<state::Established>::initialize_receiving(
                &mut PartyRng { inner: &mut rngs[B], party: B },
                g.clone(),
                Pub(k0.clone()),
                RootKey::new(root.clone()),
            )
        })?;
        let mut seen = [HashSet::new(), HashSet::new()];
        seen[B].insert(k0);
        Ok(Conv {
            a0: Some(a0),
            a: None,
            b: Some(b),
            rngs,
            sent: [vec![], vec![]],
            flight: [VecDeque::new(), VecDeque::new()],
            held: [vec![], vec![]],
            latest: [None, None],
            seen_headers: seen,
            need_fresh: [None, Some(before)],
            probing,
            ops: vec![],
            turns: [vec![], vec![]],
            seeds,
            root,
            stack,
            script: String::new(),
            stats,
        })
    }

    fn can_send(&self, p: usize) -> bool {
        p == B || self.a.is_some()
    }

    fn send(&mut self, p: usize, text: Vec<u8>) -> Result<usize, String> {
        let n = self.sent[p].len();
        self.script.push_str(&format!("{}s{} ", ["A", "B"][p], n));
        self.ops.push((p, n, false, Some(text.clone())));
        enter(p, 10);
        let proto = if p == A { self.a.as_mut() } else { self.b.as_mut() }.unwrap();
        let m = guard(|| proto.encrypt_message(&text)).map_err(|e| format!("encrypting panicked: {}", e))?;
        let header = if self.probing { Some(self.probe(&m)?) } else { None };
        if let Some(h) = &header {
            let pair = rec(|c| c.p[p].pairs.get(h).cloned());
            match pair {
                None => rec(|c| c.bad.push(format!("message {} of {} carries a public key the party never generated", n, ["A", "B"][p]))),
                Some((serial, own)) => {
                    if let Some(mark) = self.need_fresh[p].take() {
                        bump(self.stats, "answers");
                        if serial < mark {
                            rec(|c| c.bad.push(format!("message {} of {} answers a new public key with an old key pair", n, ["A", "B"][p])));
                        }
                    }
                    if !own {
                        rec(|c| c.bad.push("key pair not drawn from the party's generator".into()));
                    }
                }
            }
        }
        let key = rec(|c| c.last_enc_key);
        let turn = self.turns[p].len();
        self.sent[p].push(Sent { text, copy: m, header, delivered: false, understood: false, key, at: self.ops.len(), turn });
        self.flight[1 - p].push_back(n);
        bump(self.stats, "sent");
        Ok(n)
    }

    /// Let a scratch initiator receive the message and watch which public key it is given.
    fn probe(&mut self, m: &Msg) -> Result<Vec<u8>, String> {
        let mut scratch = rng(3, 3, 3);
        enter(PROBE, 10);
        rec(|c| c.probe = Some(vec![]));
        let (i, _) = Proto::<state::Initiator>::initialize_sending(&mut scratch, generator(self.stack), RootKey::new(vec![1]));
        rec(|c| c.probe = None);
        let m = m.clone();
        let _ = guard(move || i.decrypt_first_message(&mut scratch, m));
        let k = rec(|c| c.probe.take());
        rec(|c| {
            c.p[PROBE] = Party::default();
        });
        k.ok_or_else(|| "probe saw no public key".to_string())
    }

    /// Message n of the other party arrives at p (for the first time or again).
    fn deliver(&mut self, p: usize, n: usize) -> Result<(), String> {
        let other = 1 - p;
        let dup = self.sent[other][n].delivered;
        self.script.push_str(&format!("{}{}{} ", ["A", "B"][p], if dup { "!" } else { "<" }, n));
        self.ops.push((p, n, dup, None));
        let late = self.latest[p].map_or(false, |l| n < l);
        let total = (self.sent[0].len() + self.sent[1].len()) as u64;
        let pairs = rec(|c| c.p[p].n_pairs);
        enter(p, 4 * total + 50);
        let m = self.sent[other][n].copy.clone();
        let rngs = &mut self.rngs;
        let who = ["A", "B"][p];
        let res: Result<Vec<u8>, Option<Vec<u8>>> = if p == A && self.a.is_none() {
            let a0 = self.a0.take().unwrap();
            let (a, text) = guard(|| a0.decrypt_first_message(&mut PartyRng { inner: &mut rngs[A], party: A }, m))
                .map_err(|e| format!("first reception (message {} at {}) panicked: {}", n, who, e))?;
            self.a = Some(a);
            bump(self.stats, "first_receptions");
            Ok(text)
        } else {
            let proto = if p == A { self.a.as_mut() } else { self.b.as_mut() }.unwrap();
            match guard(|| proto.decrypt_message(&mut PartyRng { inner: &mut rngs[p], party: p }, m))
                .map_err(|e| format!("{} message {} at {} panicked: {}", if dup { "repeated" } else { "receiving" }, n, who, e))?
            {
                Ok(t) => Ok(t),
                Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => Err(Some(decrypted_message)),
                Err(_) => Err(None),
            }
        };
        if dup {
            bump(self.stats, "replays");
            return match res {
                Err(None) => Ok(()),
                Ok(t) => Err(format!("replay of message {} accepted at {} ({})", n, who, show(&t, &self.sent[other][n].text))),
                Err(Some(t)) => Err(format!("replay of message {} accepted as out of order at {} ({})", n, who, show(&t, &self.sent[other][n].text))),
            };
        }
        let s = &mut self.sent[other][n];
        s.delivered = true;
        if !late {
            self.latest[p] = Some(n);
        }
        let understood = match &res {
            Ok(t) | Err(Some(t)) => *t == s.text,
            Err(None) => false,
        };
        s.understood = understood;
        if let (Some(h), true) = (&s.header, understood) {
            if self.seen_headers[p].insert(h.clone()) {
                self.need_fresh[p] = Some(pairs);
                self.turns[p].push((self.ops.len(), s.turn));
                bump(self.stats, "key_changes");
            }
        }
        bump(self.stats, if late { "late" } else { "in_time" });
        if self.probing {
            // the text is the business of other properties
            return Ok(());
        }
        match res {
            Ok(t) if t == s.text && !late => Ok(()),
            Err(Some(ref t)) if *t == s.text && late => Ok(()),
            Ok(t) if t == s.text => Err(format!("message {} at {} arrived after a later one but was not reported out of order", n, who)),
            Err(Some(t)) if t == s.text => Err(format!("message {} at {} arrived before all later ones but was reported out of order", n, who)),
            Ok(t) | Err(Some(t)) => Err(format!("message {} at {} ({}) decrypted to something else ({})", n, who, if late { "late" } else { "in time" }, show(&t, &s.text))),
            Err(None) => Err(format!("message {} at {} ({}) was refused", n, who, if late { "late" } else { "in time" })),
        }
    }

    fn check_keys(&mut self) -> Result<(), String> {
        match rec(|c| c.bad.pop()) {
            Some(b) => Err(b),
            None => Ok(()),
        }
    }
}

/// Did the conversation go wrong only because of the repeated messages? Run it again without them.
fn fails_without_replays(c: &Conv, stats: &mut BTreeMap<&'static str, u64>) -> bool {
    let mut d = match Conv::start(c.seeds, c.root.clone(), c.stack, false, false, stats) {
        Ok(d) => d,
        Err(_) => return true,
    };
    for (p, n, dup, text) in &c.ops {
        let r = match text {
            Some(t) => d.can_send(*p) && d.send(*p, t.clone()).is_ok(),
            None => *dup || d.deliver(*p, *n).is_ok(),
        };
        if !r {
            return true;
        }
    }
    false
}

fn show(got: &[u8], want: &[u8]) -> String {
    if got == SENTINEL {
        "wrong key".into()
    } else if got == want {
        "the text".into()
    } else {
        format!("{} bytes instead of {}", got.len(), want.len())
    }
}

fn text(r: &mut R) -> Vec<u8> {
    match r.below(12) {
        0 => vec![],
        1 => vec![0; r.below(40) as usize],
        2 => {
            let n = r.below(3000) as usize;
            r.bytes(n)
        }
        3 => b"same".to_vec(),
        _ => {
            let n = r.below(60) as usize;
            r.bytes(n)
        }
    }
}

struct Plan {
    mode: u8,
    net: Net,
    ops: u64,
    burst: u64,
    p_deliver: u64,
    p_hold: u64,
    p_lose: u64,
    p_replay: u64,
}

fn conversation(r: &mut R, plan: &Plan, c: &mut Conv) -> Result<(), String> {
    let keys = plan.mode == 29;
    let secrets = plan.mode == 32;
    let mut thefts = vec![];
    let mut speaker = B;
    let mut left = 0;
    for _ in 0..plan.ops {
        let any = !c.flight[0].is_empty() || !c.flight[1].is_empty() || !c.held[0].is_empty() || !c.held[1].is_empty();
        if any && r.chance(plan.p_deliver, 100) {
            let p = if c.flight[0].is_empty() && c.held[0].is_empty() {
                1
            } else if c.flight[1].is_empty() && c.held[1].is_empty() {
                0
            } else {
                r.below(2) as usize
            };
            step_net(r, plan, c, p)?;
        } else if plan.p_replay > 0 && r.chance(plan.p_replay, 100) {
            replay(r, c)?;
        } else {
            if left == 0 {
                speaker = if r.chance(3, 4) { 1 - speaker } else { speaker };
                left = 1 + r.below(plan.burst);
            }
            left -= 1;
            let p = if c.can_send(speaker) { speaker } else { B };
            let t = text(r);
            c.send(p, t)?;
        }
        if keys {
            c.check_keys()?;
        }
        if secrets {
            c.examine(r, plan, &mut thefts)?;
        }
    }
    // everything not lost arrives in the end
    for round in 0..3 {
        for p in 0..2 {
            while !c.flight[p].is_empty() || (round > 0 && !c.held[p].is_empty()) {
                if c.flight[p].is_empty() {
                    let i = r.below(c.held[p].len() as u64) as usize;
                    let n = c.held[p].swap_remove(i);
                    c.deliver(p, n)?;
                } else {
                    step_net(r, plan, c, p)?;
                }
                if plan.p_replay > 0 && r.chance(1, 3) {
                    replay(r, c)?;
                }
                if keys {
                    c.check_keys()?;
                }
                if secrets {
                    c.examine(r, plan, &mut thefts)?;
                }
            }
        }
        // and the conversation goes on
        if round < 2 {
            for p in [B, A].iter().cloned() {
                if c.can_send(p) {
                    let t = text(r);
                    c.send(p, t)?;
                }
            }
        }
    }
    if plan.p_replay > 0 {
        for p in 0..2 {
            let mut all: Vec<usize> = (0..c.sent[1 - p].len()).filter(|n| c.sent[1 - p][*n].delivered).collect();
            r.shuffle(&mut all);
            all.truncate(60);
            for n in all {
                c.deliver(p, n)?;
            }
        }
        // still working in both directions
        for p in [B, A, B].iter().cloned() {
            if c.can_send(p) {
                let t = text(r);
                let n = c.send(p, t)?;
                c.flight[1 - p].clear();
                c.deliver(1 - p, n)?;
                c.deliver(1 - p, n)?;
            }
        }
    }
    if keys {
        c.check_keys()?;
    }
    if secrets {
        for p in [B, A, B, A].iter().cloned() {
            if c.can_send(p) {
                pass(c, p, b"and so on".to_vec())?;
                c.check_past(p)?;
                c.check_past(1 - p)?;
            }
        }
        for t in &thefts {
            c.check_recovery(t)?;
        }
    }
    Ok(())
}

/// Runs and turn counts beyond 16 bits.
fn marathon(r: &mut R, plan: &Plan, kind: u64, c: &mut Conv) -> Result<(), String> {
    let n = 65_536 + 20 + r.below(2000) as usize;
    let late = plan.mode == 27 || plan.mode == 28;
    for p in [B, A, B].iter().take(1 + kind as usize % 3).cloned() {
        pass(c, p, b"hello".to_vec())?;
    }
    if kind == 2 {
        // that many turns, a few of their messages late
        let mut waiting: VecDeque<(usize, usize)> = VecDeque::new();
        let mut some_late = late && r.chance(1, 2);
        for k in 0..n {
            let p = k % 2;
            if late && k % 3000 == 2999 {
                // stretches with and without late messages, and old messages once more at any time
                for (q, m) in waiting.drain(..) {
                    c.deliver(q, m)?;
                }
                some_late = !some_late;
            }
            if plan.p_replay > 0 && k % 100 == 99 {
                let all = c.sent[p].len() as u64;
                for back in [2 + r.below(6), r.below(all), r.below(all), r.below(1 + all / 8)].iter() {
                    if *back < all {
                        let m = (all - 1 - back) as usize;
                        if c.sent[p][m].delivered {
                            c.deliver(1 - p, m)?;
                        }
                    }
                }
            }
            let m = c.send(p, (k as u32).to_le_bytes().to_vec())?;
            c.flight[1 - p].clear();
            if some_late && r.chance(1, 50) {
                // an answer in between, so that the other side knows the newest key
                waiting.push_back((1 - p, m));
                let m = c.send(p, b"second".to_vec())?;
                c.flight[1 - p].clear();
                c.deliver(1 - p, m)?;
            } else {
                c.deliver(1 - p, m)?;
            }
            if waiting.len() > 200 {
                let (q, m) = waiting.pop_front().unwrap();
                c.deliver(q, m)?;
            }
        }
        for (q, m) in waiting {
            c.deliver(q, m)?;
        }
    } else {
        let ps: &[usize] = match kind {
            0 => &[A],
            1 => &[B],
            _ => &[A, B],
        };
        let mut backlog = [vec![], vec![]];
        for p in ps.iter().cloned() {
            for k in 0..n {
                let m = c.send(p, (k as u32).to_le_bytes().to_vec())?;
                c.flight[1 - p].clear();
                if kind == 3 || late {
                    backlog[1 - p].push(m);
                } else {
                    c.deliver(1 - p, m)?;
                    if plan.mode == 29 && k % 256 == 0 {
                        c.check_keys()?;
                    }
                }
            }
        }
        for q in 0..2 {
            let mut l = std::mem::take(&mut backlog[q]);
            if late {
                if r.chance(1, 2) {
                    l.reverse();
                } else if let Some(last) = l.pop() {
                    c.deliver(q, last)?;
                    r.shuffle(&mut l);
                }
                l.truncate(20_000);
            }
            for m in l {
                c.deliver(q, m)?;
            }
        }
    }
    *c.stats.entry("beyond_16_bits").or_insert(0) += n as u64;
    if plan.p_replay > 0 {
        for p in 0..2 {
            let all: Vec<usize> = (0..c.sent[1 - p].len()).filter(|n| c.sent[1 - p][*n].delivered).collect();
            for _ in 0..all.len().min(2000) {
                c.deliver(p, *r.pick(&all))?;
            }
        }
    }
    for p in [B, A, B, A].iter().cloned() {
        pass(c, p, b"still there".to_vec())?;
    }
    c.check_keys()
}

/// one message, delivered at once
fn pass(c: &mut Conv, p: usize, t: Vec<u8>) -> Result<(), String> {
    let m = c.send(p, t)?;
    c.flight[1 - p].clear();
    c.deliver(1 - p, m)
}

fn replay(r: &mut R, c: &mut Conv) -> Result<(), String> {
    let p = r.below(2) as usize;
    let other = 1 - p;
    let total = c.sent[other].len() as u64;
    if total == 0 || (p == A && c.a.is_none()) {
        return Ok(());
    }
    for _ in 0..4 {
        // mostly recent messages, sometimes any
        let n = if r.chance(1, 2) { total - 1 - r.below(total.min(6)) } else { r.below(total) } as usize;
        if c.sent[other][n].delivered {
            return c.deliver(p, n);
        }
    }
    Ok(())
}

fn step_net(r: &mut R, plan: &Plan, c: &mut Conv, p: usize) -> Result<(), String> {
    if plan.net != Net::Fifo {
        if !c.held[p].is_empty() && (c.flight[p].is_empty() || r.chance(1, 12)) {
            let i = r.below(c.held[p].len() as u64) as usize;
            let n = c.held[p].swap_remove(i);
            return c.deliver(p, n);
        }
    }
    let len = c.flight[p].len();
    if len == 0 {
        return Ok(());
    }
    let i = match plan.net {
        Net::Fifo => 0,
        Net::Uniform => r.below(len as u64) as usize,
        Net::Lifo => len - 1,
        Net::HoldBack | Net::Lossy => (r.below(2) * r.below(2)).min(len as u64 - 1) as usize,
        Net::Reverse => {
            // the whole backlog backwards
            let v: Vec<usize> = c.flight[p].drain(..).collect();
            for n in v.into_iter().rev() {
                c.deliver(p, n)?;
            }
            return Ok(());
        }
    };
    let n = c.flight[p].remove(i).unwrap();
    if plan.net == Net::Lossy && r.chance(plan.p_lose, 100) {
        bump(c.stats, "lost");
        c.script.push_str(&format!("{}x{} ", ["A", "B"][p], n));
        return Ok(());
    }
    if plan.net != Net::Fifo && r.chance(plan.p_hold, 100) {
        c.held[p].push(n);
        return Ok(());
    }
    c.deliver(p, n)
}

fn main() {
    quiet_panics();
    let a = args();
    let mode: u8 = a.mode[1..].parse().unwrap();
    let mut log = Log::new(&a);
    let n = if a.thorough { 60000 } else { 12000 } * a.scale / a.shards * 8;
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut bad = 0;
    let from = a.only.unwrap_or(0);
    let to = a.only.map_or(n + 1, |x| x + 1);
    for i in from..to {
        let mut r = rng(a.seed, 2600 + mode as u64, i * a.shards + a.shard);
        let stack = match i % 40 {
            _ if i == n => 0,
            0 => 2,
            x if x % 8 == 1 => 1,
            _ => 0,
        };
        let ops = match i % 500 {
            7 => if a.thorough && i % 5000 == 7 { 70000 } else { 2500 },
            x if stack != 2 && x % 20 == 3 => 300,
            _ => 4 + r.below(60),
        };
        let ops = if stack == 2 { ops.min(40) } else { ops };
        let nets = [Net::Fifo, Net::Uniform, Net::Lifo, Net::HoldBack, Net::Reverse, Net::Lossy];
        let net = match mode {
            26 => Net::Fifo,
            27 => *r.pick(&nets[1..]),
            _ => *r.pick(&nets),
        };
        let plan = Plan {
            mode,
            net,
            ops,
            burst: if ops >= 300 { *r.pick(&[1, 3, 20, 300, 2500]) } else { *r.pick(&[1, 2, 3, 3, 6, 20]) },
            p_deliver: if ops >= 300 { *r.pick(&[1, 3, 20, 50, 80]) } else { *r.pick(&[20, 40, 50, 60, 80, 95]) },
            p_hold: *r.pick(&[0, 5, 15, 40]),
            p_lose: *r.pick(&[5, 20, 50]),
            p_replay: if mode == 28 { *r.pick(&[10, 30]) } else if mode == 32 { *r.pick(&[0, 0, 10]) } else { 0 },
        };
        log.begin(&|| format!("conversation {}", i));
        let seeds = [r.below(1 << 62), r.below(1 << 62)];
        let root = r.bytes(16);
        let (res, script, calls) = match Conv::start(seeds, root, stack, mode == 29 || mode == 32, mode == 32, &mut stats) {
            Err(e) => (Err(e), String::new(), (0, 0, 0, 0)),
            Ok(mut c) => {
                let mut res = if i == n && mode != 32 { marathon(&mut r, &plan, (a.shard + a.seed) % 4, &mut c) } else { conversation(&mut r, &plan, &mut c) };
                if mode == 28 && res.is_err() && !res.as_ref().unwrap_err().starts_with("replay") && fails_without_replays(&c, &mut BTreeMap::new()) {
                    bump(c.stats, "abandoned");
                    res = Ok(());
                }
                if mode == 32 && res.as_ref().err().map_or(false, |e| e.contains("panicked") || e.starts_with("replay")) {
                    bump(c.stats, "abandoned");
                    res = Ok(());
                }
                if mode == 29 && res.as_ref().err().map_or(false, |e| e.contains("panicked")) {
                    bump(c.stats, "abandoned");
                    res = c.check_keys();
                }
                let calls = rec(|x| (x.kdf_calls, x.dh_calls, x.enc_calls, x.dec_calls));
                (res, c.script, calls)
            }
        };
        *stats.entry("conversations").or_insert(0) += 1;
        *stats.entry("kdf_calls").or_insert(0) += calls.0;
        *stats.entry("dh_calls").or_insert(0) += calls.1;
        *stats.entry("enc_calls").or_insert(0) += calls.2;
        *stats.entry("dec_calls").or_insert(0) += calls.3;
        if let Err(e) = res {
            bad += 1;
            if bad <= 5 {
                let tail: String = script.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
                log.viol(&e, &format!("shard {} of {} conversation {} stack {} net {:?}: {}", a.shard, a.shards, i, stack, net, tail));
            }
        }
        log.line(&format!("{{\"h\":\"{}\",\"s\":{}}}", hex(&mix(9, &[script.as_bytes()])), q(if script.len() < 300 { &script } else { "" })));
    }
    let s: Vec<String> = stats.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    log.line(&format!("{{\"stats\":{{{}}}}}", s.join(",")));
    log.line("{\"end\":1}");
}

//! Reliable message passing as MPI specifies it, with everything MPI leaves
//! open (timing, buffering, order across tags and sources, when a send
//! completes) decided by the simulator.
use std::collections::BTreeMap;
use std::collections::VecDeque;
use std::rc::Rc;

use crate::alloc;
use crate::choice::DetMap;
use crate::sched::*;

pub const ANY_SOURCE: i32 = -1;
pub const ANY_TAG: i32 = -1;
pub const PROC_NULL: i32 = -2;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Basic {
    Bool,
    F32,
    F64,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    C32,
    C64,
    Packed,
}

impl Basic {
    pub fn size(self) -> usize {
        use Basic::*;
        match self {
            Bool | I8 | U8 | Packed => 1,
            I16 | U16 => 2,
            F32 | I32 | U32 => 4,
            F64 | I64 | U64 | C32 => 8,
            C64 => 16,
        }
    }
    pub fn align(self) -> usize {
        match self {
            Basic::C32 => 4,
            Basic::C64 => 8,
            b => b.size(),
        }
    }
}

/// Flattened datatype.
#[derive(Clone, PartialEq, Debug)]
pub struct TypeDesc {
    /// (displacement, kind, repetitions)
    pub map: Vec<(isize, Basic, usize)>,
    pub lb: isize,
    pub ub: isize,
    pub size: usize,
    pub align: usize,
    pub committed: bool,
}

pub type Ty = Rc<TypeDesc>;

impl TypeDesc {
    pub fn basic(b: Basic) -> Self {
        TypeDesc {
            map: vec![(0, b, 1)],
            lb: 0,
            ub: b.size() as isize,
            size: b.size(),
            align: b.align(),
            committed: true,
        }
    }
    pub fn extent(&self) -> isize {
        self.ub - self.lb
    }
    /// Blocks of (displacement in bytes, count, type)
    pub fn blocks(blocks: &[(isize, usize, &TypeDesc)], pad: bool) -> Self {
        let mut t = TypeDesc {
            map: vec![],
            lb: isize::MAX,
            ub: isize::MIN,
            size: 0,
            align: 1,
            committed: false,
        };
        for (disp, count, ty) in blocks {
            t.align = t.align.max(ty.align);
            for i in 0..*count as isize {
                let off = disp + i * ty.extent();
                for (d, b, n) in &ty.map {
                    let d = off + d;
                    if let Some(last) = t.map.last_mut() {
                        if last.1 == *b && last.0 + (last.2 * b.size()) as isize == d {
                            last.2 += n;
                            continue;
                        }
                    }
                    t.map.push((d, *b, *n));
                }
                t.size += ty.size;
                t.lb = t.lb.min(off + ty.lb);
                t.ub = t.ub.max(off + ty.ub);
            }
        }
        if t.lb == isize::MAX {
            t.lb = 0;
            t.ub = 0;
        }
        if pad {
            let a = t.align as isize;
            let e = t.ub - t.lb;
            let rem = e.rem_euclid(a);
            if rem != 0 {
                t.ub += a - rem;
            }
        }
        t
    }
    pub unsafe fn pack(&self, buf: *const u8, count: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(self.size * count);
        for i in 0..count as isize {
            let base = buf.offset(i * self.extent());
            for (d, b, n) in &self.map {
                out.extend_from_slice(std::slice::from_raw_parts(base.offset(*d), b.size() * n));
            }
        }
        out
    }
    pub unsafe fn unpack(&self, data: &[u8], buf: *mut u8, count: usize) -> usize {
        let mut pos = 0;
        for i in 0..count as isize {
            let base = buf.offset(i * self.extent());
            for (d, b, n) in &self.map {
                let len = (b.size() * n).min(data.len() - pos);
                std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), base.offset(*d), len);
                pos += len;
                if pos == data.len() {
                    return pos;
                }
            }
        }
        pos
    }
    fn flat(&self, count: usize) -> Vec<(Basic, usize)> {
        let mut v: Vec<(Basic, usize)> = vec![];
        for _ in 0..count {
            for (_, b, n) in &self.map {
                match v.last_mut() {
                    Some(l) if l.0 == *b => l.1 += n,
                    _ => v.push((*b, *n)),
                }
            }
        }
        v
    }
    fn same_sig(&self, other: &TypeDesc) -> bool {
        self.map.len() == other.map.len()
            && self
                .map
                .iter()
                .zip(&other.map)
                .all(|(a, b)| a.1 == b.1 && a.2 == b.2)
    }
}

/// Does a message of n×a fit the receive type m×b?
pub fn compatible(a: &TypeDesc, n: usize, b: &TypeDesc, m: usize) -> bool {
    if a.map.first().map(|x| x.1) == Some(Basic::Packed) || b.map.first().map(|x| x.1) == Some(Basic::Packed) {
        return true;
    }
    if a.same_sig(b) && n <= m {
        return true;
    }
    let (fa, fb) = (a.flat(n), b.flat(m));
    let mut ib = fb.into_iter();
    let mut cur: Option<(Basic, usize)> = None;
    for (k, mut n) in fa {
        while n > 0 {
            if cur.map_or(true, |c| c.1 == 0) {
                cur = ib.next();
            }
            match &mut cur {
                None => return false,
                Some(c) => {
                    if c.0 != k {
                        return false;
                    }
                    let d = n.min(c.1);
                    n -= d;
                    c.1 -= d;
                }
            }
        }
    }
    true
}

#[derive(Clone, Debug)]
pub struct Payload {
    pub bytes: Vec<u8>,
    pub ty: Ty,
    pub count: usize,
}

#[derive(Clone, Debug)]
pub struct Comm {
    pub id: u64,
    pub members: Vec<usize>,
}

pub struct Msg {
    pub id: u64,
    pub src: usize,
    pub tag: i32,
    pub seq: u64,
    pub visible_at: u64,
    pub payload: Payload,
    pub rdv: bool,
    pub send_req: Option<u64>,
    pub ptr: *const u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct St {
    pub source: i32,
    pub tag: i32,
    pub bytes: usize,
}

type QKey = (u64, usize, usize, i32); // comm, dst, src, tag

pub enum ReqKind {
    Send {
        ptr: *const u8,
        count: usize,
        ty: Ty,
        snapshot: Vec<u8>,
        msg: u64,
        freed: bool,
        check: bool,
    },
    Recv {
        comm: u64,
        src: i32,
        tag: i32,
        ptr: *mut u8,
        count: usize,
        ty: Ty,
    },
    Coll {
        comm: u64,
        inst: u64,
        finish: Option<Box<dyn FnOnce(&Coll)>>,
    },
    Done,
}

pub struct Req {
    pub rank: usize,
    pub kind: ReqKind,
    pub complete_at: Option<u64>,
    pub status: St,
}

#[derive(Clone, Debug)]
pub enum Wait {
    Match { comm: u64, src: i32, tag: i32 },
    Req(u64),
    AnyReq(Vec<u64>),
    AllReq(Vec<u64>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct CollSig {
    pub kind: &'static str,
    pub root: i32,
    pub op: usize,
}

pub struct Coll {
    pub sig: CollSig,
    pub contrib: Vec<Option<Contribution>>,
    pub done: usize,
}

#[derive(Clone, Debug)]
pub struct Contribution {
    pub parts: Vec<Payload>,
}

pub struct Net {
    n: usize,
    next_id: u64,
    queues: BTreeMap<QKey, VecDeque<Msg>>,
    seqs: DetMap<(u64, usize, usize), u64>,
    link_blocked_until: DetMap<(usize, usize), u64>,
    pub reqs: DetMap<u64, Req>,
    posted: Vec<u64>,
    matched: DetMap<u64, Msg>,
    pub comms: DetMap<u64, Comm>,
    coll_count: DetMap<(u64, usize), u64>,
    colls: DetMap<(u64, u64), Coll>,
    in_flight_bytes: usize,
}

pub const WORLD: u64 = 1;
pub fn self_comm(rank: usize) -> u64 {
    1000 + rank as u64
}

impl Net {
    pub fn new(n: usize) -> Self {
        let mut comms = DetMap::default();
        comms.insert(
            WORLD,
            Comm {
                id: WORLD,
                members: (0..n).collect(),
            },
        );
        for r in 0..n {
            comms.insert(
                self_comm(r),
                Comm {
                    id: self_comm(r),
                    members: vec![r],
                },
            );
        }
        Net {
            n,
            next_id: 1,
            queues: BTreeMap::new(),
            seqs: DetMap::default(),
            link_blocked_until: DetMap::default(),
            reqs: DetMap::default(),
            posted: vec![],
            matched: DetMap::default(),
            comms,
            coll_count: DetMap::default(),
            colls: DetMap::default(),
            in_flight_bytes: 0,
        }
    }
    fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
}

impl Sim {
    pub fn comm(&mut self, id: u64) -> Comm {
        match self.net.comms.get(&id) {
            Some(c) => c.clone(),
            None => panic!("MPI: invalid communicator"),
        }
    }
    pub fn comm_rank(&mut self, id: u64) -> i32 {
        let cur = self.cur;
        self.comm(id)
            .members
            .iter()
            .position(|r| *r == cur)
            .map(|x| x as i32)
            .unwrap_or(-32766)
    }
    fn to_world(&mut self, comm: u64, r: i32) -> usize {
        let c = self.comm(comm);
        match c.members.get(r as usize) {
            Some(w) => *w,
            None => panic!("MPI: invalid rank {r} (communicator has {} ranks)", c.members.len()),
        }
    }
    fn from_world(&mut self, comm: u64, w: usize) -> i32 {
        self.comm(comm).members.iter().position(|r| *r == w).unwrap() as i32
    }

    /// Frees of memory that a send in flight still owns.
    pub fn process_freed(&mut self) {
        if alloc::NUM_FREED.load(std::sync::atomic::Ordering::Relaxed) == 0 {
            return;
        }
        for id in alloc::take_freed() {
            let step = self.step;
            let mut bad = None;
            if let Some(r) = self.net.reqs.get_mut(&id) {
                let pending = r.complete_at.map_or(true, |t| t > step);
                if pending {
                    if let ReqKind::Send { freed, msg, check, .. } = &mut r.kind {
                        if !*freed && *check {
                            *freed = true;
                            bad = Some((r.rank, *msg));
                        }
                    }
                }
            }
            alloc::land(id);
            if let Some((rank, msg)) = bad {
                self.violation(
                    "send_buffer_freed",
                    format!("rank {rank} freed the buffer of an unfinished send (message {msg})"),
                );
                for q in self.net.queues.values_mut() {
                    for m in q.iter_mut() {
                        if m.id == msg && m.rdv {
                            m.payload.bytes.iter_mut().for_each(|b| *b = 0xDD);
                        }
                    }
                }
            }
        }
    }

    pub fn start_send(
        &mut self,
        ptr: *const u8,
        count: i32,
        ty: &Ty,
        dest: i32,
        tag: i32,
        comm: u64,
        mode: char,
        blocking: bool,
    ) -> u64 {
        assert!(count >= 0, "MPI: negative count");
        assert!(ty.committed, "MPI: datatype not committed");
        let req = self.net.id();
        let me = self.cur;
        if dest == PROC_NULL {
            self.net.reqs.insert(
                req,
                Req {
                    rank: me,
                    kind: ReqKind::Done,
                    complete_at: Some(self.step),
                    status: St::default(),
                },
            );
            return req;
        }
        assert!((0..=i32::MAX).contains(&tag), "MPI: invalid tag {tag}");
        let count = count as usize;
        let dst = self.to_world(comm, dest);
        let bytes = unsafe { ty.pack(ptr, count) };
        let len = bytes.len();
        // Zero-length messages carry nothing to wait for: always eager.
        let rdv = mode == 's' || (mode == ' ' && len > 0 && len > self.env.eager_limit);
        if rdv {
            self.stat("rendezvous_send");
        }
        self.stat("message");
        let (p, m) = (self.env.p_delay, self.env.max_delay);
        let mut visible_at = self.step;
        if dst != me || p > 0.0 {
            let d = if p > 0.0 { self.ch.choose("delay", m + 1, p) } else { 0 };
            if d > 0 {
                self.stat("message_delay");
                visible_at += d;
            }
            let p = self.env.p_partition;
            if p > 0.0 && dst != me {
                let m = self.env.max_partition;
                let d = self.ch.choose("partition", m + 1, p);
                if d > 0 {
                    self.stat("link_partition");
                    let until = self.step + d;
                    self.net.link_blocked_until.insert((me, dst), until);
                    self.net.link_blocked_until.insert((dst, me), until);
                }
                if let Some(t) = self.net.link_blocked_until.get(&(me, dst)) {
                    visible_at = visible_at.max(*t);
                }
            }
        }
        let seq = {
            let s = self.net.seqs.entry((comm, me, dst)).or_insert(0);
            *s += 1;
            *s
        };
        let msg = self.net.id();
        let q = self.net.queues.entry((comm, dst, me, tag)).or_default();
        if let Some(last) = q.back() {
            visible_at = visible_at.max(last.visible_at);
        }
        let overtakes = visible_at <= self.step && self.net.queues.iter().any(|(k, q)| k.0 == comm && k.1 == dst && k.2 == me && k.3 != tag && q.iter().any(|m| m.visible_at > self.step));
        if overtakes {
            self.stat("reorder_across_tags");
        }
        let q = self.net.queues.get_mut(&(comm, dst, me, tag)).unwrap();
        q.push_back(Msg {
            id: msg,
            src: me,
            tag,
            seq,
            visible_at,
            payload: Payload {
                bytes: bytes.clone(),
                ty: ty.clone(),
                count,
            },
            rdv,
            send_req: Some(req),
            ptr,
        });
        let complete_at = if rdv { None } else { Some(self.late_completion(blocking)) };
        let check = !blocking;
        if check {
            let lo = ty.map.iter().map(|x| x.0).min().unwrap_or(0);
            let span = if count == 0 || ty.size == 0 {
                0
            } else {
                (ty.extent() * (count as isize - 1) + ty.ub - lo) as usize
            };
            alloc::fly((ptr as isize + lo) as usize, span, req);
        }
        self.net.reqs.insert(
            req,
            Req {
                rank: me,
                kind: ReqKind::Send {
                    ptr,
                    count,
                    ty: ty.clone(),
                    snapshot: bytes,
                    msg,
                    freed: false,
                    check,
                },
                complete_at,
                status: St::default(),
            },
        );
        self.progress();
        req
    }

    fn late_completion(&mut self, blocking: bool) -> u64 {
        let p = self.env.p_late;
        if blocking || p == 0.0 {
            return self.step;
        }
        let m = self.env.max_delay.max(3);
        let d = self.ch.choose("late", m + 1, p);
        if d > 0 {
            self.stat("late_send_completion");
        }
        self.step + d
    }

    /// Which queue a receive for (src, tag) would take from now.
    fn find(&mut self, comm: u64, dst: usize, src: i32, tag: i32) -> Option<QKey> {
        let step = self.step;
        let world_src = if src == ANY_SOURCE {
            None
        } else {
            Some(self.to_world(comm, src))
        };
        if let (Some(ws), true) = (world_src, tag != ANY_TAG) {
            let k = (comm, dst, ws, tag);
            let q = self.net.queues.get(&k)?;
            let m = q.front()?;
            return (m.visible_at <= step).then_some(k);
        }
        let mut best: Vec<QKey> = vec![];
        let members = self.comm(comm).members;
        for s in members {
            if world_src.map_or(false, |w| w != s) {
                continue;
            }
            let mut first: Option<(u64, QKey, u64)> = None;
            for (k, q) in &self.net.queues {
                if k.0 == comm && k.1 == dst && k.2 == s && (tag == ANY_TAG || k.3 == tag) {
                    if let Some(m) = q.front() {
                        if first.map_or(true, |f| m.seq < f.0) {
                            first = Some((m.seq, *k, m.visible_at));
                        }
                    }
                }
            }
            if let Some((_, k, v)) = first {
                if v <= step {
                    best.push(k);
                }
            }
        }
        best.first().copied()
    }

    fn find_choose(&mut self, comm: u64, dst: usize, src: i32, tag: i32) -> Option<QKey> {
        let first = self.find(comm, dst, src, tag)?;
        if src != ANY_SOURCE {
            return Some(first);
        }
        // any-source: the simulator decides which visible message wins
        let mut all = vec![];
        let size = self.comm(comm).members.len();
        for s in 0..size as i32 {
            if let Some(k) = self.find(comm, dst, s, tag) {
                all.push(k);
            }
        }
        let p = self.env.p_pick;
        let i = self.ch.choose("anysource", all.len() as u64, p) as usize;
        Some(all[i])
    }

    fn take(&mut self, k: QKey) -> Msg {
        let q = self.net.queues.get_mut(&k).unwrap();
        let mut m = q.pop_front().unwrap();
        if q.is_empty() {
            self.net.queues.remove(&k);
        }
        // A rendezvous transfer reads the send buffer only now.
        if m.rdv {
            if let Some(req) = m.send_req {
                let mut now = None;
                if let Some(r) = self.net.reqs.get(&req) {
                    if let ReqKind::Send { ptr, count, ty, freed, .. } = &r.kind {
                        if !*freed {
                            now = Some(unsafe { ty.pack(*ptr, *count) });
                        }
                    }
                }
                if let Some(n) = now {
                    if n != m.payload.bytes {
                        self.buffer_changed(req);
                    }
                    m.payload.bytes = n;
                }
                let t = self.late_completion(false);
                if let Some(r) = self.net.reqs.get_mut(&req) {
                    if r.complete_at.is_none() {
                        r.complete_at = Some(t);
                    }
                }
            }
        }
        self.progress();
        m
    }

    fn buffer_changed(&mut self, req: u64) {
        let rank = self.net.reqs[&req].rank;
        self.violation(
            "send_buffer_modified",
            format!("rank {rank} changed the buffer of an unfinished send"),
        );
    }

    fn st_of(&mut self, comm: u64, m: &Msg) -> St {
        St {
            source: self.from_world(comm, m.src),
            tag: m.tag,
            bytes: m.payload.bytes.len(),
        }
    }

    fn deliver(&mut self, m: &Msg, ptr: *mut u8, count: i32, ty: &Ty) {
        let count = count.max(0) as usize;
        if m.payload.bytes.len() > count * ty.size {
            self.violation(
                "truncation",
                format!(
                    "message of {} bytes received into a buffer of {} (tag {})",
                    m.payload.bytes.len(),
                    count * ty.size,
                    m.tag
                ),
            );
            panic!("MPI_ERR_TRUNCATE: message truncated");
        }
        if !compatible(&m.payload.ty, m.payload.count, ty, count) {
            self.violation(
                "type_mismatch",
                format!(
                    "message sent as {:?} x{} received as {:?} (tag {})",
                    m.payload.ty.flat(1),
                    m.payload.count,
                    ty.flat(1),
                    m.tag
                ),
            );
        }
        unsafe { ty.unpack(&m.payload.bytes, ptr, count) };
    }

    /// Match posted receives in order.
    fn progress_posted(&mut self, rank: usize) {
        if self.net.posted.is_empty() {
            return;
        }
        let ids: Vec<u64> = self.net.posted.clone();
        for id in ids {
            let r = &self.net.reqs[&id];
            if r.rank != rank {
                continue;
            }
            if let ReqKind::Recv { comm, src, tag, ptr, count, ty } = &r.kind {
                let (comm, src, tag, ptr, count, ty) = (*comm, *src, *tag, *ptr, *count, ty.clone());
                if let Some(k) = self.find_choose(comm, rank, src, tag) {
                    let m = self.take(k);
                    let st = self.st_of(comm, &m);
                    self.deliver(&m, ptr, count as i32, &ty);
                    let step = self.step;
                    let r = self.net.reqs.get_mut(&id).unwrap();
                    r.status = st;
                    r.complete_at = Some(step);
                    r.kind = ReqKind::Done;
                    self.net.posted.retain(|x| *x != id);
                }
            }
        }
    }

    pub fn post_recv(&mut self, ptr: *mut u8, count: i32, ty: &Ty, src: i32, tag: i32, comm: u64) -> u64 {
        let id = self.net.id();
        let rank = self.cur;
        if src == PROC_NULL {
            self.net.reqs.insert(
                id,
                Req {
                    rank,
                    kind: ReqKind::Done,
                    complete_at: Some(self.step),
                    status: St { source: PROC_NULL, tag: ANY_TAG, bytes: 0 },
                },
            );
            return id;
        }
        self.net.reqs.insert(
            id,
            Req {
                rank,
                kind: ReqKind::Recv {
                    comm,
                    src,
                    tag,
                    ptr,
                    count: count.max(0) as usize,
                    ty: ty.clone(),
                },
                complete_at: None,
                status: St::default(),
            },
        );
        self.net.posted.push(id);
        self.progress_posted(rank);
        id
    }

    pub fn probe(&mut self, src: i32, tag: i32, comm: u64) -> Option<St> {
        let me = self.cur;
        self.progress_posted(me);
        let k = self.find_choose(comm, me, src, tag)?;
        let m = self.net.queues[&k].front().unwrap();
        let (src, tag, bytes) = (m.src, m.tag, m.payload.bytes.len());
        Some(St {
            source: self.from_world(comm, src),
            tag,
            bytes,
        })
    }

    pub fn mprobe(&mut self, src: i32, tag: i32, comm: u64) -> Option<(u64, St)> {
        let me = self.cur;
        self.progress_posted(me);
        let k = self.find_choose(comm, me, src, tag)?;
        let m = self.take(k);
        let st = self.st_of(comm, &m);
        let id = m.id;
        self.net.matched.insert(id, m);
        Some((id, st))
    }

    pub fn mrecv(&mut self, id: u64, ptr: *mut u8, count: i32, ty: &Ty) -> St {
        let m = self.net.matched.remove(&id).expect("MPI: invalid message handle");
        self.deliver(&m, ptr, count, ty);
        St {
            source: m.src as i32,
            tag: m.tag,
            bytes: m.payload.bytes.len(),
        }
    }

    pub fn recv_now(&mut self, ptr: *mut u8, count: i32, ty: &Ty, src: i32, tag: i32, comm: u64) -> Option<St> {
        let me = self.cur;
        self.progress_posted(me);
        let k = self.find_choose(comm, me, src, tag)?;
        let m = self.take(k);
        let st = self.st_of(comm, &m);
        self.deliver(&m, ptr, count, ty);
        Some(st)
    }

    pub fn req_done(&mut self, id: u64) -> bool {
        let rank = match self.net.reqs.get(&id) {
            Some(r) => r.rank,
            None => {
                self.violation("invalid_request", format!("request {id} is not active"));
                panic!("MPI: invalid request handle");
            }
        };
        self.progress_posted(rank);
        let step = self.step;
        let r = &self.net.reqs[&id];
        if let ReqKind::Coll { comm, inst, .. } = &r.kind {
            return self.coll_done(*comm, *inst, rank);
        }
        r.complete_at.map_or(false, |t| t <= step)
    }

    /// Retire a finished request.
    pub fn req_finish(&mut self, id: u64) -> St {
        let mut r = self.net.reqs.remove(&id).unwrap();
        alloc::land(id);
        match &mut r.kind {
            ReqKind::Send { ptr, count, ty, snapshot, freed, check, .. } => {
                if *check && !*freed {
                    let now = unsafe { ty.pack(*ptr, *count) };
                    if now != *snapshot {
                        let rank = r.rank;
                        self.violation(
                            "send_buffer_modified",
                            format!("rank {rank} changed the buffer of an unfinished send"),
                        );
                    }
                }
            }
            ReqKind::Coll { comm, inst, finish } => {
                let (comm, inst) = (*comm, *inst);
                if let Some(f) = finish.take() {
                    let c = self.net.colls.remove(&(comm, inst)).unwrap();
                    f(&c);
                    self.net.colls.insert((comm, inst), c);
                }
                let size = self.comm(comm).members.len();
                let c = self.net.colls.get_mut(&(comm, inst)).unwrap();
                c.done += 1;
                if c.done == size {
                    self.net.colls.remove(&(comm, inst));
                }
            }
            _ => {}
        }
        self.progress();
        r.status
    }

    pub fn wait_satisfied(&mut self, rank: usize, w: &Wait) -> bool {
        match w {
            Wait::Match { comm, src, tag } => {
                self.progress_posted(rank);
                self.find(*comm, rank, *src, *tag).is_some()
            }
            Wait::Req(id) => self.req_done(*id),
            Wait::AnyReq(v) => v.iter().any(|id| self.req_done(*id)),
            Wait::AllReq(v) => v.iter().all(|id| self.req_done(*id)),
        }
    }

    pub fn next_net_event(&self) -> Option<u64> {
        let step = self.step;
        let mut t: Option<u64> = None;
        let mut upd = |x: u64| {
            if x > step {
                t = Some(t.map_or(x, |y| y.min(x)));
            }
        };
        for q in self.net.queues.values() {
            if let Some(m) = q.front() {
                upd(m.visible_at);
            }
        }
        for r in self.net.reqs.values() {
            if let Some(x) = r.complete_at {
                upd(x);
            }
        }
        t
    }

    pub fn coll_start(
        &mut self,
        comm: u64,
        sig: CollSig,
        parts: Vec<Payload>,
        finish: Box<dyn FnOnce(&Coll)>,
    ) -> u64 {
        let me = self.cur;
        let c = self.comm(comm);
        let my = c.members.iter().position(|r| *r == me).expect("MPI: not in communicator");
        let inst = {
            let n = self.net.coll_count.entry((comm, me)).or_insert(0);
            *n += 1;
            *n
        };
        self.stat("collective");
        let size = c.members.len();
        let coll = self.net.colls.entry((comm, inst)).or_insert_with(|| Coll {
            sig: sig.clone(),
            contrib: vec![None; size],
            done: 0,
        });
        if coll.sig != sig {
            let other = coll.sig.clone();
            self.violation(
                "collective_mismatch",
                format!("rank {me} entered {sig:?} while another rank entered {other:?}"),
            );
            die(Outcome::Deadlock(format!(
                "collective mismatch: rank {me} entered {sig:?}, another rank {other:?}"
            )));
        }
        // The amounts of data must agree.
        let mut bad = None;
        if matches!(sig.kind, "allgather" | "allreduce" | "reduce" | "scan" | "exscan" | "alltoall" | "gather") {
            if let Some(o) = coll.contrib.iter().flatten().next() {
                let (a, b) = (&o.parts[0], &parts[0]);
                if a.bytes.len() != b.bytes.len() || !compatible(&a.ty, a.count, &b.ty, b.count) {
                    bad = Some(format!(
                        "{}: one rank contributed {} x{}, rank {me} {} x{}",
                        sig.kind,
                        a.ty.size,
                        a.count,
                        b.ty.size,
                        b.count
                    ));
                }
            }
        }
        coll.contrib[my] = Some(Contribution { parts });
        if let Some(b) = bad {
            self.violation("collective_mismatch", b);
        }
        self.progress();
        let id = self.net.id();
        self.net.reqs.insert(
            id,
            Req {
                rank: me,
                kind: ReqKind::Coll {
                    comm,
                    inst,
                    finish: Some(finish),
                },
                complete_at: None,
                status: St::default(),
            },
        );
        id
    }

    fn coll_done(&self, comm: u64, inst: u64, rank: usize) -> bool {
        let c = &self.net.colls[&(comm, inst)];
        let members = &self.net.comms[&comm].members;
        let all = c.contrib.iter().all(|x| x.is_some());
        if all || self.env.sync_rooted {
            return all;
        }
        let my = members.iter().position(|r| *r == rank).unwrap();
        match c.sig.kind {
            "bcast" | "scatter" => c.contrib[c.sig.root as usize].is_some(),
            "gather" | "reduce" => my as i32 != c.sig.root,
            "scan" => c.contrib[..=my].iter().all(|x| x.is_some()),
            "exscan" => c.contrib[..my].iter().all(|x| x.is_some()),
            _ => false,
        }
    }

    pub fn new_comm(&mut self, parent: u64, key: u64, members: Vec<usize>) -> u64 {
        let id = crate::choice::mix(crate::choice::mix(parent, key), members.iter().fold(7, |h, m| crate::choice::mix(h, *m as u64))) | (1 << 40);
        self.net.comms.entry(id).or_insert(Comm { id, members });
        id
    }

    pub fn coll_index(&self, comm: u64) -> u64 {
        self.net.coll_count.get(&(comm, self.cur)).copied().unwrap_or(0)
    }

    pub fn num_leftover_messages(&self) -> usize {
        self.net.queues.values().map(|q| q.len()).sum::<usize>() + self.net.matched.len()
    }

    pub fn end_checks(&mut self) {
        let left: Vec<String> = self
            .net
            .queues
            .iter()
            .map(|(k, q)| format!("{} message(s) from {} to {} tag {}", q.len(), k.2, k.1, k.3))
            .collect();
        if !left.is_empty() {
            self.violation("unreceived_messages", left.join(", "));
        }
        let _ = self.net.n;
        let _ = self.net.in_flight_bytes;
    }
}

//! Failures of user-defined tags and payloads reach the caller unchanged.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::probe::{self, Ctl, Spec};
use crate::tr;
use il2_iltags::io as lio;
use il2_iltags::io::{LimitedReader, Reader, Writer};
use il2_iltags::tags::payload::ILTagPayload;
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::implicit::implicit_tag_size;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{self, is_implicit_tag, util, DefaultWithId, ErrorKind, ILDefaultWithIdTagCreator};
use std::any::Any;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub const RULE: &str = "one evaluation judges one operation in which user code (payload, tag, factory, reader or writer) fails or is checked for what it is given; a history is non-trivial if user code failed";

// ---------------------------------------------------------------------------------------------
// User code

/// A tag implemented by hand.
struct UTag {
    id: u64,
    p: RecPayload,
}
impl ILTag for UTag {
    fn id(&self) -> u64 {
        self.id
    }
    fn value_size(&self) -> u64 {
        self.p.serialized_size() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> tags::Result<()> {
        self.p.serialize(w)
    }
    fn deserialize_value(&mut self, f: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> tags::Result<()> {
        self.p.deserialize(f, n, r)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
impl DefaultWithId for UTag {
    fn default_with_id(id: u64) -> Self {
        UTag { id, p: RecPayload::default() }
    }
}

/// A factory implemented by hand around the standard one.
struct UFactory {
    inner: ILStandardTagFactory,
    calls: AtomicU64,
    /// (nth call, after the work instead of before, error)
    fail: Mutex<Option<(u64, bool, Spec)>>,
    fired: AtomicU64,
    after: AtomicU64,
}
impl UFactory {
    fn new(inner: ILStandardTagFactory) -> Self {
        UFactory {
            inner,
            calls: AtomicU64::new(0),
            fail: Mutex::new(None),
            fired: AtomicU64::new(0),
            after: AtomicU64::new(0),
        }
    }
    fn arm(&self, f: Option<(u64, bool, Spec)>) {
        *self.fail.lock().unwrap() = f;
        self.calls.store(0, SeqCst);
        self.fired.store(0, SeqCst);
        self.after.store(0, SeqCst);
    }
    /// Some((late, error)) if this call is to fail.
    fn enter(&self) -> Option<(bool, Spec)> {
        core::step();
        if self.fired.load(SeqCst) > 0 {
            self.after.fetch_add(1, SeqCst);
        }
        let n = self.calls.fetch_add(1, SeqCst);
        match *self.fail.lock().unwrap() {
            Some((k, late, s)) if k == n => Some((late, s)),
            _ => None,
        }
    }
    fn fire(&self, s: Spec) -> ErrorKind {
        core::fault("user factory failure");
        self.fired.store(1, SeqCst);
        s.make()
    }
    fn value(&self, id: u64, r: &mut dyn Reader, t: &mut dyn ILTag) -> tags::Result<()> {
        let n = if is_implicit_tag(id) { implicit_tag_size(id) } else { r.deserialize_ilint()? };
        let n = tags::tag_size_to_usize(n)?;
        let mut l = LimitedReader::new(r, n);
        t.deserialize_value(self, n, &mut l)?;
        if id != 10 && id != 14 && !l.empty() {
            return Err(ErrorKind::CorruptedData);
        }
        Ok(())
    }
}
impl ILTagFactory for UFactory {
    fn create_tag(&self, id: u64) -> Option<Box<dyn ILTag>> {
        self.inner.create_tag(id)
    }
    fn deserialize(&self, r: &mut dyn Reader) -> tags::Result<Box<dyn ILTag>> {
        let f = self.enter();
        if let Some((false, s)) = f {
            return Err(self.fire(s));
        }
        let id = r.deserialize_ilint()?;
        let mut t = self.create_tag(id).ok_or(ErrorKind::UnknownTag)?;
        self.value(id, r, t.as_mut())?;
        if let Some((true, s)) = f {
            return Err(self.fire(s));
        }
        Ok(t)
    }
    fn deserialize_into(&self, r: &mut dyn Reader, t: &mut dyn ILTag) -> tags::Result<()> {
        let f = self.enter();
        if let Some((false, s)) = f {
            return Err(self.fire(s));
        }
        if r.deserialize_ilint()? != t.id() {
            return Err(ErrorKind::UnexpectedTagType);
        }
        let id = t.id();
        self.value(id, r, t)?;
        if let Some((true, s)) = f {
            return Err(self.fire(s));
        }
        Ok(())
    }
}

/// A reader implemented by hand that fails at its nth call.
struct UReader<'a> {
    b: &'a [u8],
    pos: usize,
    /// how many of the trait's methods are implemented
    style: u64,
    calls: u64,
    fail: Option<(u64, Spec)>,
    fired: bool,
    after: u64,
    eof: bool,
}
impl<'a> UReader<'a> {
    fn new(b: &'a [u8], style: u64, fail: Option<(u64, Spec)>) -> Self {
        UReader { b, pos: 0, style, calls: 0, fail, fired: false, after: 0, eof: false }
    }
    fn take(&mut self, n: usize) -> lio::Result<&'a [u8]> {
        core::step();
        let c = self.calls;
        self.calls += 1;
        if self.fired {
            self.after += 1;
        }
        if let Some((k, s)) = self.fail {
            if k == c {
                core::fault("user reader failure");
                self.fired = true;
                return Err(s.make_io());
            }
        }
        if self.b.len() - self.pos < n {
            self.eof = true;
            return Err(lio::ErrorKind::EndOfData);
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
}
impl<'a> Reader for UReader<'a> {
    fn read(&mut self) -> lio::Result<u8> {
        Ok(self.take(1)?[0])
    }
    fn read_all(&mut self, b: &mut [u8]) -> lio::Result<()> {
        if self.style >= 1 {
            let s = self.take(b.len())?;
            b.copy_from_slice(s);
        } else {
            for x in b.iter_mut() {
                *x = self.take(1)?[0];
            }
        }
        Ok(())
    }
    fn skip(&mut self, n: usize) -> lio::Result<()> {
        if self.style >= 2 {
            self.take(n)?;
        } else {
            for _ in 0..n {
                self.take(1)?;
            }
        }
        Ok(())
    }
}

/// A writer implemented by hand that fails at its nth call.
struct UWriter {
    out: Vec<u8>,
    bulk: bool,
    calls: u64,
    fail: Option<(u64, Spec)>,
    fired: bool,
    after: u64,
}
impl UWriter {
    fn new(bulk: bool, fail: Option<(u64, Spec)>) -> Self {
        UWriter { out: Vec::new(), bulk, calls: 0, fail, fired: false, after: 0 }
    }
    fn put(&mut self, b: &[u8]) -> lio::Result<()> {
        core::step();
        let c = self.calls;
        self.calls += 1;
        if self.fired {
            self.after += 1;
        }
        if let Some((k, s)) = self.fail {
            if k == c {
                core::fault("user writer failure");
                self.fired = true;
                return Err(s.make_io());
            }
        }
        self.out.extend_from_slice(b);
        Ok(())
    }
}
impl Writer for UWriter {
    fn write(&mut self, v: u8) -> lio::Result<()> {
        self.put(&[v])
    }
    fn write_all(&mut self, b: &[u8]) -> lio::Result<()> {
        if self.bulk {
            self.put(b)
        } else {
            for x in b {
                self.put(&[*x])?;
            }
            Ok(())
        }
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

// ---------------------------------------------------------------------------------------------
// World

struct World {
    reg: Reg,
    /// ids whose payload is implemented by a tag written by hand
    utags: Vec<u64>,
    f: UFactory,
    /// decode through the hand-written factory
    user_factory: bool,
    want_id: Option<u64>,
}

impl World {
    fn factory(&self) -> &dyn ILTagFactory {
        if self.user_factory {
            &self.f
        } else {
            &self.f.inner
        }
    }
    fn has_utag(&self, m: &MTag) -> bool {
        self.utags.contains(&m.id) || m.children().iter().any(|c| self.has_utag(c))
    }
    /// The decoded tag is the tag that was encoded.
    fn good(&self, t: &dyn ILTag, m: &MTag, what: &str) -> Res<()> {
        probe::off();
        let b = fresh_bytes(t, what)?;
        same_bytes(&b, &enc(m), "wrong-value", what)?;
        if !self.has_utag(m) {
            same(t, m, &self.reg, what)?;
        }
        Ok(())
    }
    fn plain(&self, b: &[u8]) -> Res<Box<dyn ILTag>> {
        probe::off();
        decode_slice(&self.f.inner, b, "tag made for a test")
    }
}

fn payload(g: &mut Gen, id: u64, depth: usize) -> MTag {
    g.of(id, Kind::Payload, depth)
}

/// A tag with user-defined parts at several levels.
fn subject(reg: &Reg, ids: &[u64]) -> MTag {
    let mut g = Gen::sized(reg, &[30, 100, 400], 3);
    let mut t = if chance(1, 8) { g.tag() } else { payload(&mut g, pick(ids), 2) };
    let deep = chance(1, 12);
    let levels = if deep { 4 + choose(30) } else { choose(4) };
    for _ in 0..levels {
        let mut kids = vec![t];
        for _ in 0..if deep { chance(1, 8) as u64 } else { choose(3) } {
            let k = if chance(1, 2) { payload(&mut g, pick(ids), 1) } else { g.tag_depth(1) };
            kids.insert(choose(kids.len() as u64 + 1) as usize, k);
        }
        t = match choose(4) {
            0 => MTag { id: 22, kind: Kind::Seq, val: Val::Tags(kids) },
            1 => MTag { id: 21, kind: Kind::TagArr, val: Val::Tags(kids) },
            2 => MTag {
                id: 30,
                kind: Kind::Dict,
                val: Val::Dict(kids.into_iter().enumerate().map(|(i, t)| (g.key(i), t)).collect()),
            },
            _ => {
                let mut m = payload(&mut g, pick(ids), 0);
                if let Val::Payload(p) = &mut m.val {
                    p.flag |= 1;
                    p.tag = Some(Box::new(kids.swap_remove(0)));
                }
                m
            }
        };
    }
    t
}

/// Value sizes of the payloads in the order they are decoded.
fn payload_sizes(m: &MTag, out: &mut Vec<usize>) {
    if m.kind == Kind::Payload {
        out.push(enc_value(m).len());
    }
    for c in m.children() {
        payload_sizes(c, out);
    }
}

pub fn run() -> Res<()> {
    let mut reg = gen_reg();
    let mut ids = Vec::new();
    let mut utags = Vec::new();
    for _ in 0..1 + choose(3) {
        let id = pick(&ID_POOL);
        reg.map.insert(id, Kind::Payload);
        ids.push(id);
    }
    let mut f = make_factory(&reg);
    for (id, k) in reg.customs() {
        if k == Kind::Payload && chance(1, 3) {
            f.engine().register(id, Box::new(ILDefaultWithIdTagCreator::<UTag>::default()));
            utags.push(id);
        }
    }
    let want_id = reg.customs().into_iter().find(|(i, k)| *k == Kind::Payload && !utags.contains(i)).map(|(i, _)| i);
    let w = World {
        reg,
        utags,
        f: UFactory::new(f),
        user_factory: chance(1, 2),
        want_id,
    };
    let m = subject(&w.reg, &ids);
    sample(|| format!("user code at {} places in {}", { let mut v = Vec::new(); payload_sizes(&m, &mut v); v.len() }, m.short()));
    let r = rounds(&w, &m);
    probe::off();
    r
}

fn rounds(w: &World, m: &MTag) -> Res<()> {
    let bytes = enc(m);
    let mut reused: Option<Box<dyn ILTag>> = None;
    for _ in 0..1 + choose(6) {
        match weighted(&[5, 5, 3, 3, 3, 3]) {
            0 => payload_decode(w, m, &bytes, &mut reused)?,
            1 => payload_encode(w, m, &bytes)?,
            2 => util_failures(w, m, &bytes)?,
            3 => factory_failure(w, m, &bytes)?,
            4 => reader_failure(w, m, &bytes)?,
            _ => writer_failure(w, m, &bytes)?,
        }
        core::take_pending()?;
    }
    Ok(())
}

fn same_error(s: &Spec, e: &ErrorKind, what: &str) -> Res<()> {
    core::eval(1);
    ensure!(s.is(e), "error-changed", "{}: the user code reported {:?}, the caller got {:?}", what, s.make(), e);
    Ok(())
}

fn payload_decode(w: &World, m: &MTag, bytes: &[u8], reused: &mut Option<Box<dyn ILTag>>) -> Res<()> {
    let mut sizes = Vec::new();
    payload_sizes(m, &mut sizes);
    let n = choose(sizes.len() as u64 + 1);
    let spec = Spec::draw();
    let phase = choose(3) as u8;
    let fails = (n as usize) < sizes.len();
    let into = chance(1, 3);
    let src = pick_src();
    w.f.arm(None);
    let mut tag = match reused.take() {
        Some(t) => t,
        None => match w.f.inner.create_tag(m.id) {
            Some(t) => t,
            None => return Ok(()),
        },
    };
    tr!("decode with failing payload {} phase {} {:?} via {:?} into {}", n, phase, spec, src, into);
    core::ev(0x90, n, phase as u64);
    let plan = Plan::benign(bytes.len());
    let (r, c, calls) = with_source(src, bytes, plan, |s, st| {
        probe::set(Ctl {
            on: true,
            fail: Some((n, phase, Some(spec))),
            confined: true,
            want_id: w.want_id,
            watch: st.cloned(),
            ..Default::default()
        });
        let r = if into {
            w.factory().deserialize_into(s.r(), tag.as_mut()).map(|_| None)
        } else {
            w.factory().deserialize(s.r()).map(Some)
        };
        let c = probe::get();
        probe::off();
        (r, c, st.map(|s| s.borrow().calls))
    });
    core::take_pending()?;
    core::eval(1);
    let what = "decoding with a failing payload";
    match r {
        Err(e) => {
            ensure!(c.fired, "decode-failed", "{:?} although no user code failed: {}", e, m.short());
            same_error(&spec, &e, what)?;
            ensure!(c.after == 0, "called-after-failure", "{} callbacks came after the one that failed", c.after);
            ensure!(
                c.calls_at_fire == calls,
                "read-after-failure",
                "the source was used after the failure ({:?} calls at the failure, {:?} at the end)",
                c.calls_at_fire,
                calls
            );
            ensure!(
                c.value_sizes.len() <= sizes.len() && c.value_sizes[..] == sizes[..c.value_sizes.len()],
                "wrong-value-size",
                "payloads of {:?} bytes were told {:?}",
                sizes,
                c.value_sizes
            );
            core::nontrivial();
        }
        Ok(t) => {
            ensure!(!fails && !c.fired, "failure-hidden", "decoding succeeded although payload {} failed with {:?} in phase {}", n, spec, phase);
            ensure!(c.value_sizes == sizes, "wrong-value-size", "payloads of {:?} bytes were told {:?}", sizes, c.value_sizes);
            match &t {
                Some(t) => w.good(t.as_ref(), m, "decoded with user payloads")?,
                None => w.good(tag.as_ref(), m, "decoded into a tag with user payloads")?,
            }
        }
    }
    // the fault is gone
    if chance(1, 2) {
        let src = pick_src();
        let r = with_source(src, bytes, Plan::benign(bytes.len()), |s, _| {
            if into {
                w.factory().deserialize_into(s.r(), tag.as_mut()).map(|_| None)
            } else {
                w.factory().deserialize(s.r()).map(Some)
            }
        });
        match r {
            Err(e) => return core::viol("broken-after-failure", format!("{:?} after the fault is gone", e)),
            Ok(Some(t)) => w.good(t.as_ref(), m, "decoded after the fault is gone")?,
            Ok(None) => w.good(tag.as_ref(), m, "decoded into the same tag after the fault is gone")?,
        }
    }
    *reused = Some(tag);
    Ok(())
}

/// Ends of the parts after which a payload can fail while serializing, as offsets into the encoding.
fn payload_spans(m: &MTag, bytes: &[u8], reg: &Reg) -> Vec<(usize, usize)> {
    let mut e = Enc::default();
    e.tag(m);
    debug_assert!(e.out == bytes);
    let mut v: Vec<(usize, usize)> = e.extents.iter().filter(|x| reg.kind(x.id) == Some(Kind::Payload)).map(|x| (x.value, x.end)).collect();
    v.sort_by_key(|x| (x.0, std::cmp::Reverse(x.1)));
    v
}

fn payload_encode(w: &World, m: &MTag, bytes: &[u8]) -> Res<()> {
    let tag = w.plain(bytes)?;
    let spans = payload_spans(m, bytes, &w.reg);
    let n = choose(spans.len() as u64 + 1);
    let fails = (n as usize) < spans.len();
    let spec = Spec::draw();
    let phase = choose(3) as u8;
    let snk = pick(&SNK_ALL);
    tr!("serialize with failing payload {} phase {} {:?} to {:?}", n, phase, spec, snk);
    core::ev(0x91, n, phase as u64);
    let plan = Plan::benign(bytes.len());
    let ((r, c, calls), got) = with_sink(snk, bytes.len(), plan, |s, st| {
        probe::set(Ctl {
            on: true,
            fail: Some((n, phase, Some(spec))),
            watch: st.cloned(),
            ..Default::default()
        });
        let r = tag.serialize(s);
        let c = probe::get();
        probe::off();
        (r, c, st.map(|s| s.borrow().calls))
    });
    core::take_pending()?;
    core::eval(1);
    match r {
        Err(e) => {
            ensure!(c.fired, "serialize-failed", "{:?} although no user code failed: {}", e, m.short());
            same_error(&spec, &e, "serializing with a failing payload")?;
            ensure!(c.after == 0, "called-after-failure", "{} callbacks came after the one that failed", c.after);
            ensure!(
                c.calls_at_fire == calls,
                "written-after-failure",
                "the sink was used after the failure ({:?} calls at the failure, {:?} at the end)",
                c.calls_at_fire,
                calls
            );
            // everything before the failure and nothing else
            let (a, b) = spans[n as usize];
            let want = match (phase, &m.kind) {
                (0, _) => a,
                (2, _) => b,
                _ => got.len().clamp(a, b),
            };
            ensure!(
                got.len() == want && got[..] == bytes[..want],
                "wrong-prefix",
                "the sink holds {} instead of the first {} bytes",
                first_diff(&got, &bytes[..want]),
                want
            );
            core::nontrivial();
        }
        Ok(()) => {
            ensure!(!fails && !c.fired, "failure-hidden", "serializing succeeded although payload {} failed with {:?} in phase {}", n, spec, phase);
            same_bytes(&got, bytes, "wrong-bytes", "serialized with user payloads")?;
        }
    }
    // the fault is gone
    same_bytes(&fresh_bytes(tag.as_ref(), "serialized after the fault is gone")?, bytes, "broken-after-failure", "serialized after the fault is gone")
}

fn util_failures(w: &World, m: &MTag, bytes: &[u8]) -> Res<()> {
    let a = w.plain(bytes)?;
    let b = w.plain(bytes)?;
    let mut sizes = Vec::new();
    payload_sizes(m, &mut sizes);
    let k = sizes.len() as u64;
    let spec = Spec::draw();
    let phase = choose(3) as u8;
    let mode = choose(4);
    // two serializations, or a serialization and a decode
    let n = choose(2 * k + 1);
    core::ev(0x92, mode, n);
    // both operands of a comparison may fail
    let sticky = mode == 0 && chance(1, 2);
    tr!("util {} with failing callback {} phase {} {:?} sticky {}", mode, n, phase, spec, sticky);
    probe::set(Ctl {
        on: true,
        sticky,
        fail: Some((n, phase, Some(spec))),
        ..Default::default()
    });
    w.f.arm(None);
    core::eval(1);
    match mode {
        0 => {
            let eq = util::iltag_are_equal(a.as_ref(), if chance(1, 3) { a.as_ref() } else { b.as_ref() });
            let c = probe::get();
            probe::off();
            ensure!(eq == !c.fired, "wrong-comparison", "comparing equal tags gives {} (a callback failed: {})", eq, c.fired);
            // the operands may be serialized independently of each other
            ensure!(
                c.after == 0 || n < k || sticky,
                "called-after-failure",
                "{} callbacks came after the one that failed in the second operand",
                c.after
            );
        }
        1 => {
            let r = util::iltag_clone_with_factory(w.factory(), a.as_ref());
            let c = probe::get();
            probe::off();
            outcome(r, &c, n < 2 * k, &spec, "cloning with a factory")?.map(|t| w.good(t.as_ref(), m, "clone")).unwrap_or(Ok(()))?;
        }
        2 => {
            let r = a.to_bytes();
            let c = probe::get();
            probe::off();
            if let Some(g) = outcome(r, &c, n < k, &spec, "to_bytes")? {
                same_bytes(&g, bytes, "wrong-bytes", "to_bytes with user payloads")?;
            }
        }
        _ => {
            let n = if k > 0 { n % (k + 1) } else { n };
            probe::with(|c| c.fail = Some((n, phase, Some(spec))));
            let r = w.factory().from_bytes(bytes);
            let c = probe::get();
            probe::off();
            outcome(r, &c, n < k, &spec, "from_bytes")?.map(|t| w.good(t.as_ref(), m, "from_bytes")).unwrap_or(Ok(()))?;
        }
    }
    // all works again
    ensure!(util::iltag_are_equal(a.as_ref(), b.as_ref()), "broken-after-failure", "equal tags are not equal after the fault is gone");
    match util::iltag_clone_with_factory(w.factory(), a.as_ref()) {
        Ok(t) => w.good(t.as_ref(), m, "clone after the fault is gone"),
        Err(e) => core::viol("broken-after-failure", format!("cloning fails with {:?} after the fault is gone", e)),
    }
}

fn outcome<T>(r: Result<T, ErrorKind>, c: &Ctl, fails: bool, spec: &Spec, what: &str) -> Res<Option<T>> {
    match r {
        Ok(t) => {
            ensure!(!c.fired && !fails, "failure-hidden", "{} succeeded although user code failed with {:?}", what, spec);
            Ok(Some(t))
        }
        Err(e) => {
            ensure!(c.fired, "failed-alone", "{} failed with {:?} although no user code failed", what, e);
            same_error(spec, &e, what)?;
            ensure!(c.after == 0, "called-after-failure", "{}: {} callbacks came after the one that failed", what, c.after);
            Ok(None)
        }
    }
}

fn factory_failure(w: &World, m: &MTag, bytes: &[u8]) -> Res<()> {
    let total = m.count() as u64;
    let n = choose(total + 1);
    let spec = Spec::draw();
    let late = chance(1, 2);
    let src = pick_src();
    let way = choose(4);
    core::ev(0x93, n, late as u64);
    tr!("user factory failing at call {} late {} {:?}", n, late, spec);
    let mut tag = w.f.inner.create_tag(m.id).expect("known tag");
    w.f.arm(Some((n, late, spec)));
    let r = match way {
        0 => w.f.from_bytes(bytes).map(Some),
        1 => with_source(src, bytes, Plan::benign(bytes.len()), |s, _| w.f.deserialize_into(s.r(), tag.as_mut()).map(|_| None)),
        2 => {
            let t = w.plain(bytes)?;
            util::iltag_clone_with_factory(&w.f, t.as_ref()).map(Some)
        }
        _ => with_source(src, bytes, Plan::benign(bytes.len()), |s, _| w.f.deserialize(s.r()).map(Some)),
    };
    let (fired, after, calls) = (w.f.fired.load(SeqCst) > 0, w.f.after.load(SeqCst), w.f.calls.load(SeqCst));
    w.f.arm(None);
    core::eval(1);
    match r {
        Ok(t) => {
            ensure!(!fired, "failure-hidden", "decoding succeeded although the user factory failed at call {}", n);
            ensure!(
                calls == total,
                "foreign-factory",
                "{} tags were decoded but the caller's factory was asked {} times: {}",
                total,
                calls,
                m.short()
            );
            w.good(t.as_ref().unwrap_or(&tag).as_ref(), m, "decoded by a user factory")?;
        }
        Err(e) => {
            ensure!(fired, "decode-failed", "{:?} from a healthy user factory", e);
            same_error(&spec, &e, "decoding with a failing user factory")?;
            ensure!(after == 0, "called-after-failure", "the factory was called {} times after it failed", after);
            core::nontrivial();
            match w.f.from_bytes(bytes) {
                Ok(t) => w.good(t.as_ref(), m, "decoded after the factory recovered")?,
                Err(e) => return core::viol("broken-after-failure", format!("{:?} after the factory recovered", e)),
            }
        }
    }
    Ok(())
}

fn reader_failure(w: &World, m: &MTag, bytes: &[u8]) -> Res<()> {
    let style = choose(3);
    let way = choose(5);
    w.f.arm(None);
    let spec = Spec::draw();
    enum Got {
        Tag(Option<Box<dyn ILTag>>),
        Scan(u64, u64),
    }
    let mut tag = w.f.inner.create_tag(m.id).expect("known tag");
    let mut op = |r: &mut UReader| -> Result<Got, ErrorKind> {
        match way {
            0 => w.factory().deserialize(r).map(|t| Got::Tag(Some(t))),
            1 => w.factory().deserialize_into(r, tag.as_mut()).map(|_| Got::Tag(None)),
            2 => {
                let mut l = LimitedReader::new(r, bytes.len());
                w.factory().deserialize(&mut l).map(|t| Got::Tag(Some(t)))
            }
            3 => {
                let mut l = LimitedReader::new(r, bytes.len() + 3);
                let mut l2 = LimitedReader::new(&mut l, bytes.len());
                w.factory().deserialize(&mut l2).map(|t| Got::Tag(Some(t)))
            }
            _ => {
                let mut sc = RawTagScanner::new(r);
                match sc.next_tag() {
                    Ok(Some(e)) => Ok(Got::Scan(e.id(), e.size())),
                    Ok(None) => Ok(Got::Scan(u64::MAX, 0)),
                    Err(e) => Err(e),
                }
            }
        }
    };
    // how many calls it takes when all is well
    let mut r = UReader::new(bytes, style, None);
    let ok = op(&mut r).is_ok();
    let n = r.calls;
    ensure!(ok && n > 0, "decode-failed", "decoding from a healthy user reader failed: {}", m.short());
    let at = choose(n + 1);
    core::ev(0x94, n, at);
    tr!("user reader style {} failing at call {} of {} {:?} way {}", style, at, n, spec, way);
    let mut r = UReader::new(bytes, style, Some((at, spec)));
    let res = op(&mut r);
    core::eval(1);
    match res {
        Err(e) => {
            ensure!(r.fired, "decode-failed", "{:?} from a healthy user reader", e);
            ensure!(
                spec.is_io(&e),
                "error-changed",
                "the user reader reported {:?}, the caller got {:?} (way {})",
                spec.make_io(),
                e,
                way
            );
            ensure!(r.after == 0, "read-after-failure", "the user reader was called {} times after it failed", r.after);
            core::nontrivial();
        }
        Ok(g) => {
            ensure!(!r.fired, "failure-hidden", "success although the user reader failed with {:?} (way {})", spec, way);
            ensure!(r.pos == bytes.len(), "wrong-extent", "{} of {} bytes were taken", r.pos, bytes.len());
            match g {
                Got::Tag(t) => w.good(t.as_ref().unwrap_or(&tag).as_ref(), m, "decoded from a user reader")?,
                Got::Scan(id, size) => ensure!(
                    id == m.id && size == bytes.len() as u64,
                    "wrong-extent",
                    "the scanner reports id {} and {} bytes for {} and {}",
                    id,
                    size,
                    m.id,
                    bytes.len()
                ),
            }
        }
    }
    Ok(())
}

fn writer_failure(w: &World, m: &MTag, bytes: &[u8]) -> Res<()> {
    let tag = w.plain(bytes)?;
    let bulk = chance(1, 2);
    let value_only = chance(1, 4);
    let want: &[u8] = if value_only { &bytes[bytes.len() - enc_value(m).len()..] } else { bytes };
    let op = |s: &mut UWriter| if value_only { tag.serialize_value(s) } else { tag.serialize(s) };
    let mut s = UWriter::new(bulk, None);
    if let Err(e) = op(&mut s) {
        return core::viol("serialize-failed", format!("{:?} with a healthy user writer", e));
    }
    same_bytes(&s.out, want, "wrong-bytes", "serialized to a user writer")?;
    let n = s.calls;
    let at = choose(n + 1);
    let spec = Spec::draw();
    core::ev(0x95, n, at);
    tr!("user writer bulk {} failing at call {} of {} {:?}", bulk, at, n, spec);
    let mut s = UWriter::new(bulk, Some((at, spec)));
    let r = op(&mut s);
    core::eval(1);
    match r {
        Err(e) => {
            ensure!(s.fired, "serialize-failed", "{:?} with a healthy user writer", e);
            ensure!(spec.is_io(&e), "error-changed", "the user writer reported {:?}, the caller got {:?}", spec.make_io(), e);
            ensure!(s.after == 0, "written-after-failure", "the user writer was called {} times after it failed", s.after);
            ensure!(want.starts_with(&s.out), "wrong-prefix", "the user writer got {}", first_diff(&s.out, want));
            core::nontrivial();
        }
        Ok(()) => {
            ensure!(!s.fired, "failure-hidden", "success although the user writer failed with {:?}", spec);
            same_bytes(&s.out, want, "wrong-bytes", "serialized to a user writer")?;
        }
    }
    Ok(())
}
